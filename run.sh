#!/bin/bash
# usage: bash /verif/run.sh PROPERTY quick|thorough
# Builds the harness against /repo's current working tree and runs the monitors of one property.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
pid="$1"; tier="${2:-quick}"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/verif-$pid-XXXXXX")" || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$here/evidence"
cd "$here/harness" || exit 2
case " $(cat race.txt) " in
  *" $pid "*) flags=(-race "-gcflags=fast-ksw/...=-d=checkptr") ;;
  *) flags=("-gcflags=fast-ksw/...=-d=checkptr") ;;
esac
if ! go build "${flags[@]}" -o "$scratch/verif" . >"$scratch/build.log" 2>&1; then
  # The tree does not build with the harness: no observation of its behaviour was made.
  cat "$scratch/build.log" >&2
  echo "NO-ANSWER property=$pid: build failed" >&2
  exit 2
fi
"$scratch/verif" check -p "$pid" -tier "$tier"
code=$?
exit $code
