#!/bin/bash
# trybug.sh ID : run the check of a planted bug against a patched scratch copy (/tmp/plant/repo)
cd "$(dirname "$0")/.."; id=$1; pid=${2:-${id%%-*}}; R=/tmp/plant/repo
git -C $R checkout -q -- . ; git -C $R apply "$PWD/seeded/$id/patch.diff" || exit 9
VERIF_REPO=$R VERIF_EVIDENCE=/tmp/evb ./check.sh $pid quick > /tmp/bug_$id.log 2>&1; echo "$id rc $? $(grep -c VIOLATION /tmp/bug_$id.log) $(grep VIOLATION /tmp/bug_$id.log | head -2 | cut -c1-150 | tr '\n' ';') $(tail -1 /tmp/bug_$id.log | cut -c1-160)"
git -C $R checkout -q -- .
