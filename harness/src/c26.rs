//! the token reader
use crate::vp::*;
use rust_cp::misc::input::In;

fn text(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}
/// how a token is taken
fn take(i: &mut In, how: usize) -> Vec<u8> {
    match how {
        0 => i.bytes(),
        1 => i.chars().into_iter().collect::<String>().into_bytes(),
        2 => i.read::<String>().into_bytes(),
        3 => match i.checked_read::<String>() {
            Some(s) => s.into_bytes(),
            None => {
                check(false, "a token is left");
                vec![]
            }
        },
        _ => i.vec::<String>(1).pop().unwrap().into_bytes(),
    }
}
fn same(a: &[u8], b: &[u8], msg: &'static str) {
    check(a.len() == b.len(), "length of a token");
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    check(ok, msg);
}
fn finished(i: &mut In) {
    for _ in 0..2 {
        check(i.checked_read::<String>().is_none(), "no token is left");
        check(i.checked_read::<i64>().is_none(), "no token is left");
    }
    check(i.vec::<i64>(0).is_empty(), "no values");
}
fn is_space(c: u8) -> bool {
    (c == b' ') | ((c >= 9) & (c <= 13))
}
/// a decimal integer of the given number of digits, and its text
fn digits(n: usize, out: &mut Vec<u8>) -> u128 {
    let mut v = 0u128;
    for _ in 0..n {
        let d = below(10);
        out.push(b'0' + d as u8);
        v = v * 10 + d as u128;
    }
    v
}
const BLANK: [&str; 7] = [" ", "\n", "\r\n", "\t", "  \n ", "\u{3000}", "\u{b}\u{c}\u{85}\u{a0}\u{2003}"];
macro_rules! integer {
    ($t:ty, $read:expr) => {{
        let mut s = BLANK[pick(2)].to_string().into_bytes();
        let top = <$t>::MAX.to_string().len();
        let sign = pick(if <$t>::MIN == 0 { 2 } else { 3 });
        if sign > 0 {
            s.push([b'+', b'-'][sign - 1]);
        }
        let v = digits(1 + pick(top), &mut s);
        let limit = if sign == 2 { (<$t>::MAX as u128) + 1 } else { <$t>::MAX as u128 };
        let s = text(&s);
        let mut i = In::new(&s);
        if branch(v <= limit) {
            let x: $t = $read(&mut i);
            let e = if sign == 2 { 0i128.wrapping_sub(v as i128) as $t } else { v as $t };
            check(x == e, "integer of a token");
            finished(&mut i);
        } else {
            // no value of the type is the integer written
            may_panic(true);
            let _: $t = $read(&mut i);
            check(false, "an integer outside the type was read");
        }
    }};
}
harness! {
/// every ASCII text up to a length
fn c26_ascii() {
    let n = pick(param(0) + 1);
    let b: Vec<u8> = (0..n).map(|_| any(7) as u8).collect();
    let s = text(&b);
    let mut i = In::new(&s);
    let mut token: Vec<u8> = vec![];
    let how = pick(5);
    for k in 0..=n {
        if k < n && !branch(is_space(b[k])) {
            token.push(b[k]);
        } else if !token.is_empty() {
            let t = take(&mut i, how);
            same(&t, &token, "bytes of a token");
            token.clear();
        }
    }
    finished(&mut i);
}
/// characters of every length, Unicode white space
fn c26_unicode() {
    let n = pick(param(0) + 1);
    let c: Vec<char> = (0..n).map(|_| [' ', 'x', '\u{85}', '\u{a0}', 'é', '\u{3000}', '日', '\u{feff}', '😀', '\u{2009}', '\u{200b}', '\u{1680}'][pick(12)]).collect();
    let s: String = c.iter().collect();
    let mut i = In::new(&s);
    let mut token: Vec<char> = vec![];
    let byte = pick(2) == 0;
    for k in 0..=n {
        if k < n && !c[k].is_whitespace() {
            token.push(c[k]);
        } else if !token.is_empty() {
            if byte {
                let e: String = token.iter().collect();
                same(&i.bytes(), e.as_bytes(), "bytes of a token");
            } else {
                let t = i.chars();
                check(t.len() == token.len(), "characters of a token");
                for j in 0..t.len() {
                    check(t[j] == token[j], "characters of a token");
                }
            }
            token.clear();
        }
    }
    finished(&mut i);
}
/// integers of every number of digits, with leading zeros and signs
fn c26_i32() {
    if pick(2) == 0 {
        integer!(i32, |i: &mut In| i.i32())
    } else {
        integer!(i32, |i: &mut In| i.checked_read::<i32>().unwrap())
    }
}
fn c26_i64() {
    if pick(2) == 0 {
        integer!(i64, |i: &mut In| i.i64())
    } else {
        integer!(i64, |i: &mut In| i.vec::<i64>(1)[0])
    }
}
fn c26_usize() {
    if pick(2) == 0 {
        integer!(usize, |i: &mut In| i.usize())
    } else {
        integer!(usize, |i: &mut In| i.read::<usize>())
    }
}
fn c26_others() {
    match pick(4) {
        0 => integer!(u8, |i: &mut In| i.read::<u8>()),
        1 => integer!(i16, |i: &mut In| i.read::<i16>()),
        2 => integer!(u32, |i: &mut In| i.read::<u32>()),
        _ => integer!(i8, |i: &mut In| i.vec::<i8>(1)[0]),
    }
}
/// a token that is no integer, and reads beyond the end, never give a value
fn c26_no_value() {
    let c = any(7) as u8;
    assume(c > 32 && c < 127 && !(c >= b'0' && c <= b'9'));
    let c = concretize(c as u64) as u8;
    let bad = pick(2) == 1;
    let s = if bad { text(&[b' ', c, b' ', b'5']) } else { text(b" 7 5\n") };
    let mut i = In::new(&s);
    if !bad {
        check(i.i64() == 7, "value of the next token");
        check(i.usize() == 5, "value of the next token");
        if pick(2) == 1 {
            check(i.checked_read::<i64>().is_none(), "no token is left");
        }
    }
    may_panic(true);
    match pick(if bad { 6 } else { 8 }) {
        0 => { i.i32(); }
        1 => { i.i64(); }
        2 => { i.usize(); }
        3 => { i.read::<u64>(); }
        4 => { i.vec::<i64>(1 + pick(2)); }
        5 if bad => { i.checked_read::<i64>(); }
        5 => { i.vec::<String>(1); }
        6 => { i.bytes(); }
        _ => { i.chars(); }
    }
    check(false, "no value without a token for it");
}
/// sequences of calls: every value comes from the next token
fn c26_calls() {
    let n = 1 + pick(param(0));
    let (blank, ends) = [(0, 0), (1, 2), (2, 3), (5, 1), (6, 3)][pick(5)];
    let blank = BLANK[blank];
    let mut s = if ends & 1 == 1 { blank.to_string() } else { String::new() }.into_bytes();
    let mut v: Vec<i64> = vec![];
    let mut tokens: Vec<Vec<u8>> = vec![];
    for k in 0..n {
        let mut t = vec![];
        if k % 3 == 2 {
            t.push(b'-');
        }
        let x = digits(1 + k % 2, &mut t) as i64;
        v.push(if k % 3 == 2 { -x } else { x });
        if k > 0 {
            s.extend_from_slice(blank.as_bytes());
        }
        s.extend_from_slice(&t);
        tokens.push(t);
    }
    if ends & 2 == 2 {
        s.extend_from_slice(blank.as_bytes());
    }
    let s = text(&s);
    let mut i = In::new(&s);
    let mut k = 0;
    while k < n {
        match pick(7) {
            0 => check(i.read::<i64>() == v[k], "value of the next token"),
            1 => check(i.checked_read::<i64>() == Some(v[k]), "value of the next token"),
            2 => {
                let t = i.bytes();
                same(&t, &tokens[k], "bytes of the next token");
            }
            3 => {
                let t: Vec<u8> = i.chars().into_iter().map(|c| c as u8).collect();
                same(&t, &tokens[k], "characters of the next token");
            }
            4 => check(i.i32() as i64 == v[k], "value of the next token"),
            5 => {
                check(i.vec::<i64>(0).is_empty(), "no values");
                if k % 3 == 2 {
                    check(i.i64() == v[k], "value of the next token");
                } else {
                    check(i.usize() as i64 == v[k], "value of the next token");
                }
            }
            _ => {
                let c = 1 + pick(n - k);
                let t = i.vec::<i64>(c);
                check(t.len() == c, "number of values");
                for j in 0..c {
                    check(t[j] == v[k + j], "value of the next token");
                }
                k += c - 1;
            }
        }
        k += 1;
    }
    finished(&mut i);
}
}
