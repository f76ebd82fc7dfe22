#!/bin/bash
# seed.sh ID PROPERTY NEEDS BREAKS: makes seeded/ID from the changes in /tmp/scr/repo and /tmp/scr/main.rs,
# then undoes the changes there. For development only.
d=/verif/seeded/$1; mkdir -p "$d"
git -C /tmp/scr/repo diff > "$d/patch.diff"; [ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
kind=${DEMO:-demo}
cp -r /verif/tools/$kind/* "$d/"; cp /tmp/scr/main.rs "$d/main.rs"
python3 -c 'import json,sys; json.dump(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),open(sys.argv[4],"w"),indent=1)' "$2" "$3" "$4" "$d/meta.json"
git -C /tmp/scr/repo checkout -q -- .
