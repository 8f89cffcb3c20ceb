#!/bin/bash
# tools/mkseed.sh ID PROPERTY NEEDS BREAKS < demo.py : makes seeded/ID from the edits in the scratch copy /tmp/w/seed and resets it
set -e
D=/verif/seeded/$1; mkdir -p $D
git -C /tmp/w/seed add -N . ; git -C /tmp/w/seed diff > $D/patch.diff; git -C /tmp/w/seed checkout -q -- .
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cat > $D/demo.py
cat > $D/demo.sh <<'X'
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
s=$(mktemp -d) && cd "$s" || exit 9
MPLBACKEND=Agg /opt/venv/bin/python "$d/demo.py"; r=$?
cd / && rm -rf "$s"
exit $r
X
P="$2" N="$3" B="$4" python3 -c "
import json,os
json.dump({'property':os.environ['P'],'needs':os.environ['N'],'what_it_breaks':os.environ['B']},open('$D/meta.json','w'),indent=1)"
grep -c '^[+-]' $D/patch.diff
