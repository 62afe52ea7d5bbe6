#!/bin/bash
# usage: run.sh <property> quick|thorough
# Rebuilds ludtwig and the checker from /repo's current working tree, then runs one check.
export HOME=/root
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
cd /verif || exit 2
mkdir -p target evidence replay
build() {
  ( cd /repo && CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true \
      CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_STRIP=false \
      CARGO_PROFILE_RELEASE_INCREMENTAL=true CARGO_PROFILE_RELEASE_OPT_LEVEL=2 \
      cargo build -q --release --offline -p ludtwig --target-dir /verif/target/repo ) || return 1
  gcc -O1 -shared -fPIC -o target/fault.so mc/shim/fault.c -ldl -lpthread || return 1
  gcc -O1 -shared -fPIC -o target/stream.so mc/shim/stream.c -lpthread || return 1
  ( cd /verif/mc && CARGO_TARGET_DIR=/verif/target/mc cargo build -q --release --offline ) || return 1
}
# P22: instrumented build that runs under the controlled scheduler (shim/sched.c)
build_sched() {
  gcc -O2 -shared -fPIC -Wno-builtin-declaration-mismatch -o target/sched.so mc/shim/sched.c -ldl -lpthread -latomic || return 1
  ( cd /repo && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu \
      RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=-Wl,--unresolved-symbols=ignore-all" \
      CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_STRIP=false CARGO_PROFILE_RELEASE_OPT_LEVEL=1 \
      CARGO_PROFILE_RELEASE_INCREMENTAL=true \
      cargo build -q --release --offline -p ludtwig --target x86_64-unknown-linux-gnu --target-dir /verif/target/sched ) || return 1
}
if [ "$1" = P22 ] || [ "$1" = build ]; then
  if ! build_sched > target/build-sched.log 2>&1; then
    cat target/build-sched.log >&2
    echo "build failed" >&2
    exit 2
  fi
fi
if ! build > target/build.log 2>&1; then
  cat target/build.log >&2
  echo "build failed" >&2
  exit 2
fi
[ "$1" = build ] && exit 0
rm -f replay/"$1"-*.txt
exec target/mc/release/mc "$1" "${2:-quick}"
