#!/bin/bash
# trybug.sh ID [CHECK...]   confirms the planted bug seeded/ID in a scratch copy of /repo and runs checks against it
# (default: the check of its property). Writes nothing but /verif/evidence and the scratch copy.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
s=$here/seeded/$id
w=$(mktemp -d /tmp/trybug.XXXXXX)
trap 'rm -rf "$w"' EXIT
git -C /repo archive HEAD | tar -x -C "$w"
cd "$w"
build() {
    cmake -S "$w" -B "$w/_build" -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_POLICY_VERSION_MINIMUM=3.5 \
      -DCMAKE_CXX_COMPILE_OBJECT='<CMAKE_CXX_COMPILER> <DEFINES> <INCLUDES> <FLAGS> -Wno-error -o <OBJECT> -c <SOURCE>' -DBN_BUILD_TESTS=ON >/dev/null 2>&1 &&
    ninja -C "$w/_build" -j4 >"$w/build.log" 2>&1 || { echo "$id: BUILD FAILS"; tail -5 "$w/build.log"; exit 1; }
}
if [ "${SKIP_CONFIRM:-}" = "" ]; then
    timeout 300 bash "$s/demo.sh" >"$w/demo0.log" 2>&1; a=$?
    [ $a = 0 ] || { echo "$id: demo fails on the unchanged tree ($a)"; tail -3 "$w/demo0.log"; }
fi
git apply "$s/patch.diff" || patch -p1 < "$s/patch.diff" || { echo "$id: PATCH FAILS"; exit 1; }
if [ "${SKIP_CONFIRM:-}" = "" ]; then
    build
    timeout 300 ctest --test-dir "$w/_build" -j4 --timeout 100 >"$w/ctest.log" 2>&1 || { echo "$id: TESTS FAIL"; tail -5 "$w/ctest.log"; }
    timeout 300 bash "$s/demo.sh" >"$w/demo1.log" 2>&1; b=$?
    [ $b != 0 ] || echo "$id: demo passes with the patch"
    echo "$id: demo unchanged $a, with the bug $b: $(tail -1 "$w/demo1.log")"
fi
p=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
for c in ${*:-$p}; do
    [ "$c" = none ] && continue
    VP_REPO=$w python3-vt "$here/check.py" "$c" >"$w/check.log" 2>&1; r=$?
    echo "$id: $c exit $r: $(grep -m1 VIOLATION "$w/check.log") $(tail -1 "$w/check.log" | cut -c1-150)"
done
