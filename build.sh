#!/bin/bash
# Build the checkers from /repo's current working tree (offline). Usage: build.sh
set -u
cd "$(dirname "$0")/harness" || exit 2
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH" HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUSTFLAGS="-C target-cpu=x86-64-v3"
export CARGO_TARGET_DIR="$PWD/target"
unset CARGO_INCREMENTAL CARGO_BUILD_TARGET
mkdir -p target
exec 9>target/.verif.lock
flock 9
# Content, not time stamps, decides what is rebuilt.
h=$( (cd /repo && find src Cargo.toml params.json -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-40)
stamp=target/.verif.repo
if [ "$(cat $stamp 2>/dev/null)" != "$h" ]; then
  rm -f "$PWD/$stamp"
  cargo clean --offline --release -p panacea -p mc -p mcs -p inst >/dev/null 2>&1
fi
if ! cargo build --release --offline --locked >target/build.log 2>&1; then
  grep -E '^(error|warning: unused)' -A6 target/build.log >&2
  tail -5 target/build.log >&2
  exit 2
fi
echo "$h" > "$PWD/$stamp"
