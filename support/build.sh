# Sourced by check.sh: builds into $S from /repo's working tree. Sets nothing outside $S
# but Go's build cache.
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GO111MODULE=on CGO_ENABLED=0
unset GOENV GODEBUG
V="$VERIF"
REPO="${BPV_REPO:-/repo}" # another copy only while developing the checks

build_all() { # $1: "real" to also build the variant with the real scrypt
  python3 "$V/support/mkxcrypto.py" "$S/xcrypto" "$V/support/scrypt_key.go.txt" || return 1
  cp "$REPO/go.mod" "$S/prog.mod" && cp "$REPO/go.sum" "$S/prog.sum" || return 1
  sed "s#=> /repo\$#=> $REPO#" "$V/harness/go.mod" > "$S/h.mod" && cat "$V/harness/go.sum" "$REPO/go.sum" | sort -u > "$S/h.sum" || return 1
  cp "$S/h.mod" "$S/hreal.mod"; cp "$S/h.sum" "$S/hreal.sum"; 
  cp "$S/prog.mod" "$S/progreal.mod"; cp "$S/prog.sum" "$S/progreal.sum"
  echo "replace golang.org/x/crypto => $S/xcrypto" >> "$S/prog.mod"
  echo "replace golang.org/x/crypto => $S/xcrypto" >> "$S/h.mod"
  (cd "$REPO" && go build -buildvcs=false -modfile="$S/prog.mod" -o "$S/bin/bpass" .) || return 1
  (cd "$V/harness" && go build -buildvcs=false -modfile="$S/h.mod" -o "$S/bin/bpv" .) || return 1
  if [ "${1:-}" = real ]; then
    (cd "$REPO" && go build -buildvcs=false -modfile="$S/progreal.mod" -o "$S/bin/bpass-real" .) || return 1
    (cd "$V/harness" && go build -buildvcs=false -modfile="$S/hreal.mod" -o "$S/bin/bpv-real" .) || return 1
  fi
}
