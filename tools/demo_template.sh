#!/bin/bash
# Demonstration: builds demo.rs against the crates in /repo and runs it.
# exit 0: the behaviour holds; nonzero: it does not (or nothing could be built).
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only PYO3_PYTHON=/usr/bin/python3
unset RUSTFLAGS CARGO_TARGET_DIR
REPO=$(pwd)
W=$(mktemp -d /tmp/rqdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
cp "$REPO/Cargo.lock" "$W/Cargo.lock"
{
  printf '[package]\nname = "rqdemo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
  for c in RustQuant @DEPS@; do
    case $c in
      *=*) echo "$c" | sed 's/=/ = /' ;;
      *) echo "$c = { path = \"$REPO/crates/$c\" }" ;;
    esac
  done
} > "$W/Cargo.toml"
cd "$W" && CARGO_TARGET_DIR="$REPO/target" cargo build --offline -q 2> "$W/log" || { cat "$W/log"; exit 9; }
cp "$REPO/target/debug/rqdemo" "$W/rqdemo"
timeout 120 "$W/rqdemo"
