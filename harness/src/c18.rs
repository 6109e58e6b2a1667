//! Aho-Corasick against direct comparison at every position
use crate::model::size;
use crate::vp::*;
use rust_cp::string::aho_corasick::AhoCorasick;

fn word(n: usize, a: usize) -> Vec<u8> {
    (0..n).map(|_| pick(a) as u8).collect()
}
fn distinct_words(k: usize, len: usize, a: usize) -> Vec<Vec<u8>> {
    let p: Vec<Vec<u8>> = (0..k).map(|_| { let n = 1 + pick(len); word(n, a) }).collect();
    for i in 0..k {
        for j in 0..i {
            assume(p[i] != p[j]);
        }
    }
    p
}
/// text[..=i] ends with w
fn ends(text: &[u8], i: usize, w: &[u8]) -> bool {
    if w.len() > i + 1 {
        return false;
    }
    let mut eq = true;
    for j in 0..w.len() {
        eq &= text[i + 1 - w.len() + j] == w[j];
    }
    eq
}
fn run<const O: u8, const N: usize>(p: &[Vec<u8>], text: &[u8]) {
    let shifted: Vec<Vec<u8>> = p.iter().map(|w| w.iter().map(|c| c + O).collect()).collect();
    let refs: Vec<&[u8]> = shifted.iter().map(|w| &w[..]).collect();
    let t: AhoCorasick<O, N> = AhoCorasick::from(&refs);
    let s: Vec<u8> = text.iter().map(|c| c + O).collect();
    let (n, k) = (s.len(), p.len());
    let all = t.find_all(&s);
    let one = t.find(&s);
    let cnt = t.find_cnt(&s);
    check(all.len() == n, "find_all: one list per position");
    check(one.len() == n, "find: one entry per position");
    check(cnt.len() == k, "find_cnt: one count per pattern");
    let mut want = vec![0u64; k];
    for i in 0..n {
        let mut found = 0usize;
        for j in 0..k {
            let e = ends(text, i, &p[j]);
            want[j] += e as u64;
            found += e as usize;
            let mut listed = false;
            for &x in &all[i] {
                listed |= x == j;
            }
            check(listed == e, "find_all lists exactly the patterns ending here");
        }
        check(all[i].len() == found, "find_all lists each pattern once");
        for w in all[i].windows(2) {
            check(w[0] < k && w[1] < k && p[w[0]].len() > p[w[1]].len(), "find_all lists longer patterns first");
        }
        // longest suffix of text[..=i] that is a prefix of a pattern
        let mut r = u64::MAX;
        for len in 1..=i + 1 {
            let (mut is_prefix, mut id) = (false, u64::MAX);
            for j in 0..k {
                if p[j].len() >= len {
                    let e = ends(text, i, &p[j][..len]);
                    is_prefix |= e;
                    if p[j].len() == len {
                        id = ite(e, j as u64, id);
                    }
                }
            }
            r = ite(is_prefix, id, r);
        }
        let g = match one[i] { Some(x) => x as u64, None => u64::MAX };
        observe(g);
        check(g == r, "find reports the longest suffix when it is a pattern");
    }
    for j in 0..k {
        check(cnt[j] as u64 == want[j], "find_cnt is the number of occurrences");
    }
}
fn text(n: usize, a: usize) -> Vec<u8> {
    (0..n).map(|_| below(a as u64) as u8).collect()
}
harness! {
fn c18_binary() {
    let k = size(0, param(0));
    let p = distinct_words(k, param(1), 2);
    run::<b'a', 2>(&p, &text(param(2), 2));
}
fn c18_ternary() {
    let k = size(1, param(0));
    let p = distinct_words(k, param(1), 3);
    run::<b'0', 3>(&p, &text(param(2), 3));
}
// full lower-case alphabet, letters at both of its ends
fn c18_letters() {
    let k = size(1, param(0));
    let p: Vec<Vec<u8>> = distinct_words(k, param(1), 2).iter().map(|w| w.iter().map(|c| c * 25).collect()).collect();
    run::<b'a', 26>(&p, &text(param(2), 26));
}
// offset 0 and the top of the byte range
fn c18_offsets() {
    let k = size(1, param(0));
    let p = distinct_words(k, param(1), 2);
    let t = text(param(2), 2);
    if pick(2) == 1 { run::<0, 2>(&p, &t) } else { run::<254, 2>(&p, &t) }
}
// nested suffixes: every pattern of a chain a, ba, aba, ... in any order
fn c18_nested() {
    let full = word(param(0), 2);
    let n = full.len();
    let mut p: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        if pick(2) == 1 { p.push(full[i..].to_vec()); }
    }
    for i in 1..n {
        if pick(2) == 1 { p.push(full[..i].to_vec()); }
    }
    for i in 0..p.len() {
        for j in 0..i { assume(p[i] != p[j]); }
    }
    if pick(2) == 1 { p.reverse(); }
    run::<b'A', 2>(&p, &text(param(1), 2));
}
// long failure chains: each proper suffix of a word is absent, a pattern, or the start of a pattern
fn c18_chain() {
    let full = word(param(0), 2);
    let n = full.len();
    let mut p: Vec<Vec<u8>> = vec![full.clone()];
    for i in 1..n {
        let kind = pick(3);
        if kind > 0 {
            let mut w = full[i..].to_vec();
            if kind == 2 { w.push(2); }
            p.push(w);
        }
    }
    if pick(2) == 1 { p.reverse(); }
    let mut s = text(param(1), 3);
    s.extend_from_slice(&full);
    s.extend(text(param(2), 3));
    run::<b'a', 3>(&p, &s);
}
fn c18_panics() {
    let k = 1 + pick(2);
    let e = pick(k);
    let p: Vec<Vec<u8>> = (0..k).map(|i| if i == e { vec![] } else { vec![b'a'] }).collect();
    let refs: Vec<&[u8]> = p.iter().map(|w| &w[..]).collect();
    may_panic(true);
    let _: AhoCorasick = AhoCorasick::from(&refs);
    check(false, "empty pattern accepted");
}
// long patterns, and as many nested ones as the text is long
fn c18_long() {
    let m = param(0);
    let k = param(1);
    // 0^j for j = 1..=k, 0^m, 0^(m/2) 1
    let mut p: Vec<Vec<u8>> = (1..=k).map(|j| vec![b'a'; j]).collect();
    p.push(vec![b'a'; m]);
    let mut w = vec![b'a'; m / 2];
    w.push(b'b');
    p.push(w);
    let back = pick(2) == 1;
    if back { p.reverse(); }
    let id = |j: usize| if back { k + 1 - j } else { j };
    let refs: Vec<&[u8]> = p.iter().map(|w| &w[..]).collect();
    let t: AhoCorasick<b'a', 3> = AhoCorasick::from(&refs);
    let n = [m / 2 - 1, m / 2, m - 1, m, m + m / 2][pick(5)];
    let c = any(8);
    assume(c < 3);
    let mut s = vec![b'a'; n];
    s.push(b'a' + c as u8);
    let (all, one, cnt) = (t.find_all(&s), t.find(&s), t.find_cnt(&s));
    let c = concretize(c);
    let mut want = vec![0usize; k + 2];
    for i in 0..=n {
        let mut e = vec![];
        if i < n || c == 0 {
            if i + 1 >= m { e.push(id(k)); }
            for j in (1..=k.min(i + 1)).rev() { e.push(id(j - 1)); }
        } else if c == 1 && n >= m / 2 {
            e.push(id(k + 1));
        }
        for &x in &e { want[x] += 1; }
        check(all[i] == e, "find_all: the patterns ending here, longest first");
        // the longest suffix that is a prefix of a pattern
        let f = if i < n || c == 0 { if i + 1 >= m { Some(id(k)) } else if i + 1 <= k { Some(id(i)) } else { None } } else { e.first().copied() };
        check(one[i] == f, "find");
    }
    check(cnt == want, "find_cnt");
}
}
