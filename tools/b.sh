#!/bin/sh
# b.sh WL N [variant] [seed]: build and summarise
cd /verif && python3 -c "
import sys; sys.path.insert(0,'sim'); import build
for v in ['${3:-asan}']:
    try: build.build(v)
    except build.Build_error as e:
        print('\n'.join(l for l in str(e).split('\n') if 'error:' in l or 'undefined' in l or 'multiple' in l)[:3000] or str(e)[-1500:]); sys.exit(1)" && python3 tools/top.py ${3:-asan} $1 $2 ${4:-1} | cut -c1-700
