#!/bin/sh
# mm.sh FILE SED-EXPR "WL N ..." [variant]: mutate a copy by a sed expression and run workloads on it
f=$1; e=$2; w=$3; v=$4
rm -rf /tmp/mm.repo; cp -a /repo /tmp/mm.repo; cd /tmp/mm.repo && sed -i "$e" $f && git diff --stat | tail -1 && git diff > /tmp/mm.patch; cd /; rm -rf /tmp/mm.repo
exec /verif/tools/mut.sh /tmp/mm.patch "$w" $v
