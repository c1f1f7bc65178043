#!/bin/bash
# check.sh PROP            run the check of one property (VERIF_SEED, VERIF_TIER from the environment)
# check.sh --replay FILE   run a replay file again
# check.sh --build [bins]  build only
# Everything is rebuilt from /repo's working tree; build output stays in /verif/target.
cd "$(dirname "$0")" || exit 3
V=$PWD
export DST_VERIF=$V CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS=-Awarnings
export RUSTUP_TOOLCHAIN=${DST_TOOLCHAIN:-1.90.0}
unset RUSTC_WRAPPER CARGO_TARGET_DIR LD_PRELOAD RUST_BACKTRACE RUST_LOG
mkdir -p target evidence
# no network, no lock file changes
if [ ! -f target/libdst.so ] || [ shim/dst.c -nt target/libdst.so ]; then
    gcc -O2 -shared -fPIC -Wall -fno-builtin-malloc -o target/libdst.so.$$ shim/dst.c -ldl -lpthread &&
        mv target/libdst.so.$$ target/libdst.so || { echo "ERROR: cannot build the shim" >&2; exit 3; }
fi
build_dst() {
    cargo build --offline --locked --release --quiet --manifest-path dst/Cargo.toml --target-dir target/dst >target/dst.log 2>&1 ||
        { cat target/dst.log >&2; echo "ERROR: cannot build the harness against /repo" >&2; exit 3; }
}
build_bins() {
    cargo build --offline --release --quiet --manifest-path /repo/Cargo.toml --bins --target-dir target/repo >target/repo.log 2>&1 ||
        { cat target/repo.log >&2; echo "ERROR: cannot build the tools in /repo" >&2; exit 3; }
}
needs_bins() {
    case "$1" in P0*|P10|P11|P12|P13|P14|P15|P16) return 1 ;; *) return 0 ;; esac
}
case "$1" in
--build)
    build_dst & p=$!
    if [ "$2" = bins ]; then build_bins; fi
    wait $p; exit $? ;;
--replay)
    build_dst & p=$!
    if needs_bins "$(basename "$2")"; then build_bins; fi
    wait $p || exit 3
    exec target/dst/release/dst replay "$2" ;;
P*)
    build_dst & p=$!
    if needs_bins "$1"; then build_bins; fi
    wait $p || exit 3
    exec target/dst/release/dst check "$1" ;;
*)
    build_dst
    exec target/dst/release/dst "$@" ;;
esac
