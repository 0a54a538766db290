#!/bin/bash
# dev helper: run.sh <bin> args...
export ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0
b=$1; shift
cd /verif && make -s -j8 -f mk/Makefile /verif/build/asan/bin/$b 2>&1 | head -20
MC_PROGRESS=1 ./build/asan/bin/$b --out /tmp/o.$$.json "$@"
python3 - /tmp/o.$$.json <<'P'
import json,sys;d=json.load(open(sys.argv[1]));print({k:v for k,v in d.items() if k not in('violations','samples')})
for v in d['violations']: print('##',v['key'],v['hits'],v['replay'],'|',v['trace'][:400],'|',v['msg'][:700])
P
rm /tmp/o.$$.json
