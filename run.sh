#!/bin/bash
# run.sh <property id> [quick|thorough]: builds the harness and the tools from /repo's working tree
# and runs one check. VERIF_SEED and VERIF_TIER select the workload.
set -u
id="${1:?usage: run.sh ID [quick|thorough]}"
[ -n "${2:-}" ] && export VERIF_TIER="$2"
. /opt/vp/env.sh
export GOFLAGS= GOSUMDB=off GOTELEMETRY=off
cd "$(dirname "$0")" || exit 2
S=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'chmod -R u+w "$S" 2>/dev/null; rm -rf "$S"' EXIT
mkdir "$S/bin" "$S/work" "$S/tmp"
export TMPDIR="$S/tmp"
race=
case "$id" in C17) race=-race;; esac
(cd /repo && go build -buildvcs=false -o "$S/bin/" ./cmd/controller-gen ./cmd/helpgen ./cmd/type-scaffold) || { echo "INCONCLUSIVE property=$id tools do not build"; exit 2; }
if [ -n "$race" ]; then
  (cd /repo && go build -race -buildvcs=false -o "$S/bin/controller-gen-race" ./cmd/controller-gen) || { echo "INCONCLUSIVE property=$id race build failed"; exit 2; }
fi
(cd harness && go build $race -buildvcs=false -o "$S/vchk" .) || { echo "INCONCLUSIVE property=$id harness does not build"; exit 2; }
"$S/vchk" -check "$id" -scratch "$S" -bin "$S/bin" 2> >(tee "$S/stderr" >&2)
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -qE '^(fatal error: |panic: |runtime: )' "$S/stderr" && grep -q 'sigs.k8s.io/controller-tools/' "$S/stderr"; then
  # the code under test brought the process down from a goroutine of its own or with a fatal error
  R="$PWD/evidence/replay/$id"; mkdir -p "$R"; tail -c 200000 "$S/stderr" > "$R/crash.txt"
  echo "VIOLATION property=$id replay=$R/crash.txt"
  rc=1
fi
exit $rc
