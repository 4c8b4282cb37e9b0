#!/bin/bash
# check.sh PROPERTY: build the analyser from /verif/sa and decide one property
# of the current source of /repo. Exit 0: holds. Exit 1 with a VIOLATION line
# otherwise, also when the analysis cannot reach a verdict.
id=$1
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOWORK=off BBSA_DIR=$here
bin=$(mktemp /tmp/bbsa.XXXXXX)
trap 'rm -f "$bin"' EXIT
if ! (cd "$here/sa" && go build -o "$bin" .); then
  echo "the analyser does not build" >&2
  exit 2
fi
GOFLAGS= timeout 840 "$bin" "$id"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  mkdir -p "$here/evidence"
  f=$here/evidence/$id.violation.txt
  echo "the analysis ended without a verdict (exit $rc): property $id is not decided for the current source" >"$f"
  echo "{\"property\":\"$id\",\"tier\":\"quick\",\"seed\":${VERIF_SEED:-1},\"level\":\"other\",\"coverage\":{\"explanation\":\"no verdict, exit $rc\"},\"wall_s\":0,\"violations\":1}" >"$here/evidence/$id.json"
  cat "$f"
  echo "VIOLATION property=$id replay=$f"
  exit 1
fi
exit $rc
