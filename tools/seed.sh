#!/bin/bash
# seed.sh <id>... : confirms planted changes: applies, builds, stable tests pass, demo 0 without / nonzero with
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
S=$V/seeded/$id; D=$(mktemp -d /tmp/vpseed.XXXXXX)
bld() { ( cd "$1" && cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DBUILD_SHARED_LIBS=ON -DOPENELP_BUNDLE_PCRE=OFF -DOPENELP_USE_OPENSSL=OFF -DCMAKE_C_FLAGS=-Wno-error >/dev/null 2>&1 && ninja -C _build >"$D/build.log" 2>&1 ) || { echo "$id: BUILD FAILED"; tail -5 "$D/build.log"; return 1; }; }
git -C /repo archive --prefix=a/ HEAD | tar -x -C "$D"; cp -a "$D/a" "$D/b"; mkdir "$D/demo"; cp -r "$S"/. "$D/demo"; rm -f "$D"/demo/*.diff "$D"/demo/meta.json
ok=1
( cd "$D/b" && git apply "$S/patch.diff" ) || { echo "$id: DOES NOT APPLY"; ok=0; }
[ $ok = 1 ] && { bld "$D/a" && bld "$D/b" || ok=0; }
if [ $ok = 1 ]; then
  t=$(ctest --test-dir "$D/b/_build" --timeout 60 2>&1 | grep 'tests passed'); 
  s=$(date +%s); ( cd "$D/a" && timeout 300 bash "$D/demo/demo.sh" >"$D/a.out" 2>&1 ); r0=$?; m=$(date +%s)
  ( cd "$D/b" && timeout 300 bash "$D/demo/demo.sh" >"$D/b.out" 2>&1 ); r1=$?; e=$(date +%s)
  v=GOOD; [ $r0 = 0 ] && [ $r1 != 0 ] && [ "${t#100%}" != "$t" ] || { v=BAD; tail -5 "$D/a.out"; }
  echo "$id: $v unchanged=$r0 ($((m-s))s) patched=$r1 ($((e-m))s): $(tail -1 "$D/b.out" | cut -c1-150) | $t"
fi
rm -rf "$D"
done
