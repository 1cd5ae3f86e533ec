#!/bin/bash
# usage: trybug.sh PATCH ID...   applies PATCH to a scratch copy of /repo and runs the checks against it
set -e
W=$(mktemp -d /tmp/tb.XXXXXX); mkdir $W/repo; git -C /repo archive HEAD | tar x -C $W/repo
(cd $W/repo && git init -q . && git apply "$1"); p=$1; shift
for id in "$@"; do out=$(VP_REPO=$W/repo python3 /verif/check.py $id 2>&1) && rc=0 || rc=$?; echo "$(basename $(dirname $p)) $id rc=$rc $(echo "$out" | grep -v '^ ' | head -${LINES_:-2} | cut -c1-230 | tr '\n' '~')"; done
case "$W" in /tmp/tb.*) rm -rf "$W";; esac
