#!/bin/bash
# trybug.sh SEED [PROPS...]: apply to /repo, run the check of its property (or the given ones), undo
S=/verif/seeded/$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo apply $S/patch.diff || exit 1
for p in $P; do timeout 900 /verif/bin/check $p quick | cut -c1-400; echo "[$p exit ${PIPESTATUS[0]}]"; done
git -C /repo checkout -- .
