#!/bin/bash
# run.sh <property> : mirrors /repo's working tree, builds the harness against it, runs the check.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$here" || exit 2
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=${UP4_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER= PYO3_PYTHON=/usr/bin/python3
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
prop=$1
seed=${VERIF_SEED:-1}
tier=${VERIF_TIER:-quick}

variant=core features="" flags="--cfg up4_verif"
case "$prop" in
    C29|C33) variant=private features="--features private" flags="--cfg up4_verif --cfg up4_verif_private" ;;
    C34|C35|C36) variant=small flags="--cfg up4_verif --cfg up4_verif_small_buffer" ;;
    C46|C47|C48) variant=plot ;;
    C49|C5?) variant=py flags="--cfg up4_verif --cfg up4_verif_small_buffer" ;;
    C37|C38|C39|C4?) variant=data ;;
esac

# C56: the extension module once more, with the features that make it print what it does
features_py=python
[ "$prop" = C56 ] && features_py=python,uPPPP_debug,uPPPP_warning

# the Python layer: the extension module for Python, the Rust API in a process of its own, /repo's Python files
build_py() {
    local py=/opt/veriftools/pyvenv/bin/python3
    python3 mirror.py py .build/py/crate && python3 mirror.py full .build/full/crate || return 2
    cmp -s harness_py/py.Cargo.lock .build/py/crate/Cargo.lock || cp harness_py/py.Cargo.lock .build/py/crate/Cargo.lock || return 2
    RUSTFLAGS="$1 -Awarnings" CARGO_TARGET_DIR="$here/.build/py/target" CARGO_PROFILE_DEV_OPT_LEVEL=1 PYO3_PYTHON=$py \
        cargo build --quiet --offline --locked --manifest-path .build/py/crate/Cargo.toml --features "${2:-$features_py}" 1>&2 || return 2
    RUSTFLAGS="--cfg up4_verif -Awarnings" CARGO_TARGET_DIR="$here/.build/full/target" \
        cargo build --quiet --offline --locked --manifest-path harness_py/Cargo.toml 1>&2 || return 2
    rm -rf "$here/.build/py/site" && mkdir -p .build/py/site &&
        cp .build/py/target/debug/libupppp_rust.so .build/py/site/upppp_rust.so &&
        cp -r "${UP4_REPO:-/repo}/up4" .build/py/site/up4 || return 2
}

build() { # variant features flags
    local mirror=core harness=harness
    case "$1" in
        small|data) mirror=data harness=harness_data ;;
        plot) mirror=plot harness=harness_plot ;;
        py) build_py "$3"; return ;;
    esac
    python3 mirror.py "$mirror" ".build/$mirror/crate" || return 2
    mkdir -p ".build/$1"
    RUSTFLAGS="$3 -Awarnings" CARGO_TARGET_DIR="$here/.build/$1/target" \
        cargo build --quiet --offline --locked --manifest-path "$harness/Cargo.toml" $2 1>&2 || return 2
}

if [ "$prop" = build ]; then
    build core "" "--cfg up4_verif" && build private "--features private" "--cfg up4_verif --cfg up4_verif_private" &&
        build data "" "--cfg up4_verif" && build small "" "--cfg up4_verif --cfg up4_verif_small_buffer" &&
        build plot "" "--cfg up4_verif" && build_py "--cfg up4_verif --cfg up4_verif_small_buffer" python,uPPPP_debug,uPPPP_warning &&
        build py "" "--cfg up4_verif --cfg up4_verif_small_buffer"
    exit $?
fi
mkdir -p evidence replays
if ! build "$variant" "$features" "$flags"; then
    log=replays/C56-build.log
    if [ "$prop" = C56 ] && RUSTFLAGS="$flags -Awarnings" CARGO_TARGET_DIR="$here/.build/py/target" CARGO_PROFILE_DEV_OPT_LEVEL=1 PYO3_PYTHON=/opt/veriftools/pyvenv/bin/python3 \
        cargo build --quiet --offline --locked --manifest-path .build/py/crate/Cargo.toml --features python 2>/dev/null &&
        ! RUSTFLAGS="$flags -Awarnings" CARGO_TARGET_DIR="$here/.build/py/target" CARGO_PROFILE_DEV_OPT_LEVEL=1 PYO3_PYTHON=/opt/veriftools/pyvenv/bin/python3 \
        cargo build --offline --locked --manifest-path .build/py/crate/Cargo.toml --features "$features_py" >$log 2>&1 && grep -q '^error.*could not compile `upppp_rust`' $log; then
        echo "the crate compiles, but not with the features $features_py"
        echo "VIOLATION property=C56 replay=$log"
        exit 1
    fi
    echo "harness build failed" >&2
    exit 2
fi
if [ "$variant" = py ]; then
    /opt/veriftools/pyvenv/bin/python3 harness_py/check.py "$prop" --seed "$seed" --tier "$tier" "${@:2}"
    exit $?
fi
# the code under test talks a lot: only the monitor's lines are passed on
".build/$variant/target/debug/up4verif" "$prop" --seed "$seed" --tier "$tier" "${@:2}" |
    grep -aE '^(case |VIOLATION |KNOWN-FINDING|C[0-9]+:)'
rc=${PIPESTATUS[0]}
case $rc in
    132|134|136|139) # killed by SIGILL, SIGABRT, SIGFPE, SIGSEGV: a crash the panic monitor cannot catch
        replay=replays/$prop-seed$seed-crash.json
        echo "{\"property\": \"$prop\", \"replay\": \"VERIF_SEED=$seed VERIF_TIER=$tier ./run.sh $prop\", \"observed\": \"the process died with status $rc\"}" > "$replay"
        echo "VIOLATION property=$prop replay=$replay"
        exit 1 ;;
esac
exit $rc
