#!/bin/bash
# check.sh build | <ID> [quick|thorough] | replay <file>
# Builds the explorers against /repo's working tree and runs one: mc (features default + verif-hooks)
# for all properties but C27, mch (feature fido-support instead of the default FIDO backend) for C27, and mcl (fewer features) besides mc
# for C29.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export VERIF_DIR="$V"
unset CARGO_INCREMENTAL RUSTFLAGS
mkdir -p "$V/target" "$V/evidence"

build() { # crate directory, binary, target directory
  # cargo trusts time stamps, which say nothing in a copied sandbox: go by content
  local dir="$V/$1" bin=$2 stamp
  export CARGO_TARGET_DIR="$3"
  mkdir -p "$3"
  cd "$dir" || return 1
  stamp=$( (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum
            cd "$V" && find refm/src harness/src lite/src "$1/src" refm/Cargo.toml "$1/Cargo.toml" harness/fixtures -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum)
  if [ "$(cat "$3/stamp" 2>/dev/null)" != "$stamp" ] || [ ! -x "$3/release/$bin" ]; then
    rm -f "$3/stamp"
    touch "$dir/src/main.rs" "$V/refm/src/lib.rs"
    cargo clean --release --offline -p sshcerts -p "$bin" -p refm >/dev/null 2>&1
    if ! cargo build --release --offline --locked >"$3/build.log" 2>&1; then
      echo "BUILD FAILED (no verdict)"; grep -E -A12 "^error" "$3/build.log" | head -60
      return 1
    fi
    echo "$stamp" >"$3/stamp"
  fi
}
mc() { build harness mc "$V/target"; }
mch() { build hid mch "$V/target/hid"; }
# mcl: the calls of C29 on builds with fewer features; a set that does not compile is left out
sets="none: enc:enc rsa:rsa enc-rsa:enc,rsa x509:x509 piv:piv fido:fido lite:enc,rsa,piv,fido"
mcl() {
  local t="$V/target/lite" stamp s
  mkdir -p "$t/bin"
  cd "$V/lite" || return 1
  stamp=$( (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum
            cd "$V" && sha256sum lite/Cargo.toml lite/src/*) | sha256sum)
  [ "$(cat "$t/stamp" 2>/dev/null)" = "$stamp" ] && return 0
  rm -f "$t/stamp" "$t"/bin/*
  export CARGO_TARGET_DIR="$t"
  cargo clean --release --offline -p sshcerts -p mcl >/dev/null 2>&1
  for s in $sets; do
    if RUSTFLAGS="--cap-lints warn" cargo build --release --offline --locked --features "${s#*:}" >"$t/build-${s%%:*}.log" 2>&1; then
      cp "$t/release/mcl" "$t/bin/${s%%:*}"
    else
      echo "features ${s#*:}: does not compile, not explored"
    fi
  done
  echo "$stamp" >"$t/stamp"
}
bin=mc
case "${1:-}" in
  C27) bin=mch ;;
  replay) set -- replay "$(realpath "$2")"; grep -q '"property": *"C27"' "$2" && bin=mch ;;
esac
exec 9>"$V/target/lock"; flock 9
if [ "${1:-}" = build ]; then mc && mch && mcl; exit $(($? * 4)); fi
$bin || exit 4
case "$1" in
  C29) mcl || exit 4 ;;
  replay) if grep -q '"property": *"C29"' "$2"; then mcl || exit 4; fi ;;
esac
flock -u 9; exec 9>&-
case "$bin" in mc) exe="$V/target/release/mc" ;; *) exe="$V/target/hid/release/mch" ;; esac
case "$1" in
  replay) exec "$exe" replay "$2" ;;
  *) exec "$exe" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
