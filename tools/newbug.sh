#!/bin/bash
# usage: newbug.sh ID PROPERTY   turns the current diff of /repo into a planted bug, reverts it and adds the demo skeleton
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
cp /verif/tools/demo/demo.sh /verif/tools/demo/lib.go /verif/harness/go.sum $d/
[ -f $d/meta.json ] || echo '{"property": "'$2'", "needs": "'"$3"'", "what_it_breaks": "'"$4"'"}' > $d/meta.json
