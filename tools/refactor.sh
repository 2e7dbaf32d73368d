#!/bin/bash
# The checks have to stay quiet on rewrites that keep the behaviour.
# Applies every patch of tools/refactorings to a scratch copy of /repo, runs the stable tests there
# and then every check (or those named on the command line) against the copy.
# Usage: tools/refactor.sh [-p "patch names"] [C01 C02 ...]
V=$(cd "$(dirname "$0")/.." && pwd)
B=$(mktemp -d /tmp/refactor.XXXXXX)
trap 'rm -rf "$B"' EXIT
NAMES=$(cd "$V/tools/refactorings" && ls *.diff | sed 's/\.diff$//')
if [ "$1" = -p ]; then NAMES=$2; shift 2; fi
mkdir "$B/repo"
git -C /repo archive HEAD | tar x -C "$B/repo"
cd "$B/repo" && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x
for n in $NAMES; do git apply "$V/tools/refactorings/$n.diff" || { echo "does not apply: $n"; exit 1; }; done
if [ -z "$NOTESTS" ]; then
  cmake -S /opt/vp/cmake -B "$B/_build" -G Ninja -DREPO="$B/repo" -DCMAKE_BUILD_TYPE=Debug \
    -DCMAKE_CXX_FLAGS_DEBUG="-g -O3" -DCMAKE_CXX_FLAGS=-Wno-error > /dev/null
  ninja -C "$B/_build" > "$B/log" 2>&1 || { grep error "$B/log" | head; exit 1; }
  ctest --test-dir "$B/_build" -j8 --timeout 300 > "$B/tlog" 2>&1
  grep 'tests passed' "$B/tlog"; grep -A20 'FAILED:' "$B/tlog"
  rm -rf "$B/_build"
fi
bad=0
for p in ${@:-$(python3 -c "import sys; sys.path.insert(0, '$V'); import checks; print(*sorted(checks.CHECKS))")}; do
  VERIF_REPO="$B/repo" timeout 900 python3 "$V/run.py" "$p" > "$B/out" 2> "$B/err"
  rc=$?
  echo "$p: exit $rc $(grep VIOLATION "$B/out" | head -3)"
  if [ $rc != 0 ]; then bad=1; tail -5 "$B/err"; fi
done
exit $bad
