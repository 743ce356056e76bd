#!/bin/bash
# try.sh ID: runs the check of a planted bug's property against a scratch copy with the bug
W=/tmp/seedrepo
cd $W && git checkout -q -- . && git apply /verif/seeded/$1/patch.diff || exit 9
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")
cd /verif && LISO_REPO=$W python3 tools/check.py $p --tier quick; echo "$1 $p rc=$?"
cd $W && git checkout -q -- .
