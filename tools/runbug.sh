#!/bin/bash
# runbug.sh ID [PID]: apply a planted bug to a scratch copy of /repo, run the check of its property on that copy
here="$(cd "$(dirname "$0")/.." && pwd)"; id=$1
pid=${2:-$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")}
R=$(mktemp -d /tmp/rb.XXXXXX); cp -a /repo "$R/repo"
git -C "$R/repo" apply "$here/seeded/$id/patch.diff" || exit 9
( cd "$here"; VERIF_REPO="$R/repo" VERIF_EVIDENCE="$R" VERIF_SEED=1 ./check.sh $pid quick > /tmp/bug_$id.log 2>&1 ); rc=$?
rm -r "$R"
echo "$id $pid rc=$rc $(grep -E 'VIOLATION' /tmp/bug_$id.log | head -2)"
