#!/bin/bash
# mut.sh PATCH "WL N [WL N ...]" [variant]: applies PATCH (or -R:commit to revert one) to a copy of /repo and runs workloads against it
export MLIO_REPO=/tmp/mut/repo MLIO_SIM_BUILD=/tmp/mut/build
mkdir -p /tmp/mut
rsync -a --delete --exclude .git --exclude build /repo/ /tmp/mut/repo/ 2>/dev/null || { mkdir -p /tmp/mut/repo; (cd /repo && tar cf - --exclude=./.git --exclude=./build .) | (cd /tmp/mut/repo && tar xf -); }
case "$1" in
 -R:*) git -C /repo show "${1#-R:}" | (cd /tmp/mut/repo && patch -R -p1 -s) || exit 3;;
 none) ;;
 *) (cd /tmp/mut/repo && patch -p1 -s) < "$1" || exit 3;;
esac
V=${3:-asan}
cd /verif && python3 -c "
import sys; sys.path.insert(0,'sim'); import build
build.build('$V')" || exit 4
set -- $2
while [ $# -gt 0 ]; do echo "== $1"; python3 tools/top.py $V $1 $2 1 | grep -v '^faults\|^probes'; shift 2; done
