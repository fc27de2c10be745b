#!/bin/bash
# setup_cmd: warms Go's build cache (the checks build everything they need themselves).
set -u
VERIF="$(cd "$(dirname "$0")/.." && pwd)"
S="$(mktemp -d /tmp/bpv-XXXXXXXX)" || exit 2
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/bin"
. "$VERIF/support/build.sh"
build_all real || exit 2
"$S/bin/bpv" -list | wc -l
