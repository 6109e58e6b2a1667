#!/usr/bin/env python3
"""writes MANIFEST.json from jobs.py"""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import jobs as J
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = J.NOT_APPLICABLE
TECH = 'symbolic execution of the LLVM IR rustc emits for the real code (own executor), paths and assertions decided by Z3 (integer and bit-vector encodings; cvc5 as fallback), counterexamples replayed natively'
checks = []
for p in props:
    i = p['id']
    if i not in J.JOBS:
        assert i in NA, i
        continue
    note = J.JOBS[i].get('note', '')
    checks.append({
        'property': i, 'quick_cmd': f'./check {i} quick', 'thorough_cmd': f'./check {i} thorough', 'technique': TECH,
        'level': 'model_checking',
        'level_note': ('Bounded: within the sizes listed per job in the evidence file the solver covers every value; nothing is claimed beyond them. '
                       'Trusted: rustc/LLVM up to the emitted IR (dev semantics: overflow and debug assertions on), the executor, Z3, the harness oracle; '
                       'sampled paths are re-run natively and must agree. ' + note).strip(),
    })
m = {
    'version': 1, 'setup_cmd': './setup.sh',
    'hooks': {'guard': 'cfg(vp_hooks)', 'enable': 'RUSTFLAGS="--cfg vp_hooks"',
              'source_commits': ['%s' % subprocess.run(['git', '-C', '/repo', 'rev-parse', 'c528725'], capture_output=True, text=True).stdout.strip()]},
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items() if k not in J.JOBS],
    'notes': 'See DESIGN.md. Engine: engine/ (Rust, links the installed libz3). Harnesses: harness/src/cNN.rs. Bounds: jobs.py.',
}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')

# the tables of DESIGN.md
t = open(H + '/design.in').read()
rows = []
for p in props:
    i = p['id']
    if i in J.JOBS:
        rows.append(f"| {i} {p['title']} | {J.JOBS[i].get('oracle', '')} | " + '; '.join(dict.fromkeys(j.get('bounds', f"{j['entry']} {j.get('params', {})}") for j in J.JOBS[i]['jobs'])) + ' |')
    else:
        rows.append(f"| {i} {p['title']} | not claimed | {NA[i]} |")
seeds = []
sd = H + '/seeded'
res = {}
if os.path.exists(H + '/seed_results.txt'):
    for l in open(H + '/seed_results.txt'):
        a = l.split(None, 2)
        if len(a) >= 2:
            res[a[0]] = ' '.join(a[1:]).strip()
for s in sorted(os.listdir(sd)):
    m = json.load(open(f'{sd}/{s}/meta.json'))
    seeds.append(f"* `{s}` ({m['property']}): {m['what_it_breaks']}. Needs: {m['needs']}. {res.get(s, '')}")
open(H + '/DESIGN.md', 'w').write(t.replace('@TABLE@', '\n'.join(rows)).replace('@SEEDS@', '\n'.join(seeds)))
