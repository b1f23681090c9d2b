#!/bin/bash
# ./run.sh <property id>: decides the property on the current tree of /repo.
# exit 0: holds; exit 1 with a VIOLATION line: it does not (or nothing can be decided).
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
. "$here/env.sh"
export VERIF_DIR="$here"
mkdir -p "$here/evidence" "$here/bin"
out="$here/bin/checker.$$"
if ! (cd "$here/checker" && go build -o "$out" .); then
  echo "the analyser could not be built"
  echo "VIOLATION property=$id replay=none"
  exit 1
fi
timeout 850 "$out" -property "$id"
rc=$?
unlink "$out"
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "the analysis ended with status $rc: nothing was decided"
  echo "VIOLATION property=$id replay=none"
  exit 1
fi
exit $rc
