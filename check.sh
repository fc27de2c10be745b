#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's working tree.
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: no answer.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; SEED="${VERIF_SEED:-1}"
shift; [ $# -gt 0 ] && shift
S="$(mktemp -d /tmp/bpv-XXXXXXXX)" || exit 2
chmod 755 "$S"
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/bin" "$S/run"
. "$VERIF/support/build.sh"
real=""
[ "$ID" = C06 ] && real=real
if ! build_all $real > "$S/build.log" 2>&1; then
  echo "ERROR: build failed" >&2; tail -40 "$S/build.log" >&2
  exit 2
fi
export BPASS_BIN="$S/bin/bpass" BPASS_REAL_BIN="$S/bin/bpass-real"
"$S/bin/bpv" -id "$ID" -tier "$TIER" -seed "$SEED" -root "$VERIF" -tmp "$S/run" ${real:+-real "$S/bin/bpv-real"} "$@"
rc=$?
exit $rc
