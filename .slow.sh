#!/bin/bash
# usage: .slow.sh cXX entry [params...]  : builds .ll and runs engine with slow report
cd /verif; P=$1; E=$2; shift 2
python3 - $P <<'X'
import sys,os
sys.argv=['check',sys.argv[1]]
sys.path.insert(0,'/verif')
src=open('/verif/check').read().replace("if __name__ == '__main__':","if False:")
exec(compile(src,'check','exec'),{'__name__':'x','__file__':'/verif/check'},g:={}) if False else None
import types
m=types.ModuleType('chk'); m.__file__='/verif/check'; exec(compile(src,'/verif/check','exec'),m.__dict__)
os.makedirs('/tmp/slow',exist_ok=True)
import shutil; shutil.rmtree('/tmp/slow/harness',ignore_errors=True)
hd=m.harness_copy('/tmp/slow')
print(m.build_sym('/tmp/slow',hd,sys.argv[1].lower()))
X
SYMIR_SLOW=1 timeout ${TO:-60} build/engine/release/symir --ll /tmp/slow/tsym/sym/deps/vph.ll --entry $E --out /tmp/slow/o.json --deadline ${TO:-60} --workers ${W:-4} "$@" 2>&1 | head -${N:-40}
