#!/bin/bash
# seedtest.sh ID...: confirms the planted bugs in seeded/ (demo passes without, fails with; stable tests
# pass) and runs their property's check against them. For development only; no check uses it.
cd "$(dirname "$0")/.."
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
    d=seeded/$id
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    cmd=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('MANIFEST.json'))['checks'] if c['property']=='$prop'][0])")
    tmp=$(mktemp -d); cp "$d"/* "$tmp"; cp -r "$d"/*/ "$tmp" 2>/dev/null; rm -f "$tmp"/*.diff "$tmp"/meta.json
    (cd /repo && bash "$tmp/demo.sh" >/tmp/seed.clean 2>&1); clean=$?
    git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
    build=0; tests=ok
    if [ -z "$FAST" ]; then
        bash /opt/vp/build.sh >/dev/null 2>&1; build=$?
        bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
        grep -q '"test_gindex_iterator"\|test_gindex_iterator' /tmp/seed.json || tests=missing
        python3 - <<'P' || tests=FAIL
import json
j=json.load(open('/tmp/seed.json')); s=json.dumps(j)
f=j.get('failed') or []
assert not f, f
P
    fi
    (cd /repo && bash "$tmp/demo.sh" >/tmp/seed.bug 2>&1); bug=$?
    VERIF_SEED=1 bash -c "$cmd" >/tmp/seed.check 2>&1; check=$?
    git -C /repo checkout -q -- .
    rm -rf "$tmp"
    echo "$id [$prop]: build=$build tests=$tests demo clean=$clean bug=$bug check=$check $(grep -v '^VIOLATION' /tmp/seed.check | tail -1 | cut -c1-150)"
done
