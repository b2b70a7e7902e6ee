#!/bin/bash
# builds everything the checks need, offline, from the committed files and /repo's current tree
cd "$(dirname "$0")"
mkdir -p .cache evidence
python3 - <<'P'
import sys; sys.path.insert(0,'lib')
import base, ded
from concurrent.futures import ThreadPoolExecutor
fs=[ded.build_vx, base.build_cli, base.build_harness, base.build_cmdh]
with ThreadPoolExecutor(4) as ex:
    for f,(ok,log) in zip(fs, ex.map(lambda f:f(), fs)):
        print(f.__name__, 'ok' if ok else 'FAILED '+log[-1500:])
P
gcc -shared -fPIC -O1 -o .cache/shim_io.so lib/shim_io.c -ldl && echo shim ok
exit 0
