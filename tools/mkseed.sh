#!/bin/bash
# tools/mkseed.sh <seed id>: takes the edits of /repo's working tree as the patch of a planted bug, and undoes them
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
[ -s $d/patch.diff ] || echo "EMPTY PATCH"
