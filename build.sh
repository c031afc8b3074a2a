#!/bin/bash
# Builds the conformance harness from /repo's current working tree. Usage: build.sh [program]
# (lh: everything but the hash functions of pqcrypto-internals; lhc: those)
# Each is built twice: target/release, and target-checked/checked with the overflow checks and assertions of a debug build
# and with AddressSanitizer in the C code (run with LD_PRELOAD=libasan.so).
# Prints the path of the binary on the last line of stdout.
set -u
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-1.98.1-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_INCREMENTAL
# cargo does not notice edits of the vendored C: hand the compiler a hash of it (as /opt/vp/env.sh does)
c_hash=$(cd /repo/pqcrypto && find pqclean/common pqclean/crypto_sign pqcrypto-internals/cfiles pqcrypto-internals/include -type f \
    -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
export CFLAGS="-DVP_C_SOURCES_$c_hash"
bin=${1:-lh}
log=work/build.log
mkdir -p work
# build RUSTFLAGS TARGET-DIR
build() {
    RUSTFLAGS="$1" cargo build --bin $bin --release --offline --manifest-path harness/Cargo.toml --target-dir "$2" >$log 2>&1 &&
    CFLAGS="$CFLAGS -fsanitize=address -fno-omit-frame-pointer" RUSTFLAGS="$1 -C link-arg=-lasan" \
        cargo build --bin $bin --profile checked --offline --manifest-path harness/Cargo.toml --target-dir "$2-checked" >>$log 2>&1
}
if build "--cfg latke_verif" harness/target; then
    echo "$PWD/harness/target/release/$bin"
    exit 0
fi
cp $log work/build-hook.log
# the hook may not build on a changed tree: build without it, everything but the wide-block checks still works
if build "" harness/target-plain; then
    echo "$PWD/harness/target-plain/release/$bin"
    exit 0
fi
tail -30 $log >&2
exit 2
