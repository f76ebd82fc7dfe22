#!/bin/bash
# plant.sh ID PROPERTY CASE NEEDS BREAKS: makes seeded/ID from /repo's uncommitted changes (undone afterwards) and
# the case file CASE, with a demonstration that replays the case. For development only; no check uses it.
set -e
cd "$(dirname "$0")/.."
d=seeded/$1; mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"; [ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
git -C /repo checkout -q -- .
cmd=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('MANIFEST.json'))['checks'] if c['property']=='$2'][0])")
pkg=$(echo "$cmd" | grep -o '[a-z]*-checks')
bins=
[ "$pkg" = gindex-checks ] && bins="-p host --bin gen_gindices --bin gindex-checks"
[ "$pkg" = host-checks ] && bins="-p host --bin zkasper_cli --bin host-checks"
cp tools/replay/demo.sh "$d/demo.sh"
cp "$3" "$d/case.json"
printf 'PKG=%s\nPROP=%s\nBINS="%s"\n' "$pkg" "$2" "$bins" > "$d/case.env"
tmp=$(mktemp -d)
git archive HEAD Cargo.toml Cargo.lock vharness shadow shims checks | tar -C "$tmp" -x
grep -rlZ '/verif' "$tmp" | xargs -0 -r sed -i 's#/verif#/scratch#g'
tar -C "$tmp" --owner=0 --group=0 -c . | xz -9e > "$d/support.tar.xz"; rm -rf "$tmp"
python3 -c 'import json,sys; json.dump(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),open(sys.argv[4],"w"),indent=1)' "$2" "$4" "$5" "$d/meta.json"
ls -l "$d"
