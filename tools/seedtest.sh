#!/bin/bash
# Development aid: tools/seedtest.sh SEED...   For each planted bug, in scratch copies:
# does the patch apply, do the stable tests pass with it, does the demo pass without
# and fail with it, and what do the checks of its property say?
cd "$(dirname "$0")/.." || exit 2
for s in "$@"; do
    d=$(mktemp -d /dev/shm/seed-XXXXXX)
    cp -a /repo "$d/repo"
    cp -a seeded/"$s" "$d/demo"; rm -f "$d"/demo/*.diff "$d"/demo/meta.json
    (cd "$d/repo" && timeout 300 bash "$d/demo/demo.sh" >"$d/demo0.log" 2>&1); r0=$?
    git -C "$d/repo" apply "$PWD/seeded/$s/patch.diff" || { echo "$s: patch does not apply"; rm -r -- "$d"; continue; }
    (cd "$d/repo" && timeout 300 bash "$d/demo/demo.sh" >"$d/demo1.log" 2>&1); r1=$?
    t="skipped"
    if [ -z "$NOTEST" ]; then
        sed "s,/repo/src,$d/repo/src,g" /opt/vp/test.sh > "$d/test.sh"
        bash "$d/test.sh" "$d/out.json" >"$d/test.log" 2>&1
        t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$d/out.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print('ok' if not m else 'FAILS %s' % m)")
    fi
    p=$(python3 -c "import json; print(json.load(open('seeded/$s/meta.json'))['property'])")
    c="skipped"
    if [ -z "$NOCHECK" ]; then
        ZKAP_SRC="$d/repo/src" timeout 900 ./check.sh "$p" >"$d/check.log" 2>&1
        c="exit $? $(grep -h '^what:\|^scenario:' "$d/check.log" | tr '\n' ' ')"
    fi
    echo "$s [$p]: demo $r0/$r1, tests $t, check: $c"
    [ "$r0" != 0 ] && tail -5 "$d/demo0.log"
    rm -r -- "$d"
done
