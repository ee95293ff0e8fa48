#!/bin/bash
# try.sh <patch file | revert:COMMIT> <check>... : runs checks on a scratch copy of /repo with a change
set -u
V=$(cd "$(dirname "$0")/.." && pwd); what=$1; shift; [ ! -f "$what" ] || what=$(realpath "$what")
D=$(mktemp -d /tmp/vptry.XXXXXX); trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"; cd "$D/repo"
case $what in
revert:*) git revert -n "${what#revert:}" >/dev/null 2>&1 || { echo "cannot revert ${what#revert:}"; exit 3; } ;;
none) ;;
*) git apply "$what" || exit 3 ;;
esac
mkdir -p "$D/build/h"; cp -p "$V"/build/h/{core,shim,sched,world}.o "$D/build/h/" 2>/dev/null
for p in "$@"; do
  s=$(date +%s); VP_REPO="$D/repo" VP_BUILD="$D/build" VP_OUT="$D/out" timeout 900 "$V/check" $p ${VP_ARGS:-} >"$D/log" 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s ))s: $(grep -m1 -A1 '^--- failure' "$D/log" | tail -1 | cut -c1-200)"
  [ -z "${VP_SHOW:-}" ] || tail -30 "$D/log"
done
