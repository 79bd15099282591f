#!/bin/bash
# bash run.sh PROPERTY [quick|thorough]   build from /repo's working tree and run one check
# bash run.sh setup                       build everything
# bash run.sh replay FILE                 replay a reported violation
# exit 0: held; 1: VIOLATION line printed; 2: the check could not be carried out
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR=$DIR
SEED=${VERIF_SEED:-1}
mkdir -p "$DIR/target" "$DIR/evidence" "$DIR/replays"

group_of() {
    case "$1" in
    C0?|C1?) echo core ;;
    C2?) echo sql ;;
    C3?) echo storage ;;
    *) echo "ERROR unknown property $1" >&2; exit 2 ;;
    esac
}

# build.rs rewrites parser.rs next to a grammar whose hash differs from the one it records,
# but cargo does not know that it has to run it; afterwards the tree must be as it was.
stale_parsers() {
    python3 - <<'P'
import hashlib, pathlib, sys
for g in pathlib.Path("/repo/src").rglob("*.lalrpop"):
    p = g.with_suffix(".rs")
    want = "sha3: " + hashlib.sha3_256(g.read_bytes()).hexdigest()
    if not p.exists() or want not in p.read_text(errors="replace")[:300]:
        sys.exit(0)
sys.exit(1)
P
}

build() {
    local group=$1 log=$DIR/target/build-$1.log saved= rc
    export CARGO_TARGET_DIR=$DIR/target/$group
    if stale_parsers; then
        (cd "$DIR/harness" && cargo clean --offline -p cathlamet >/dev/null 2>&1)
    fi
    saved=$(mktemp -d)
    (cd /repo && find src -name parser.rs | while read -r f; do
        git ls-files --error-unmatch "$f" >/dev/null 2>&1 && cp -p --parents "$f" "$saved"
    done)
    local flags=
    if [ "$group" != core ]; then
        flags="--cfg cathlamet_verif=\"$group\""
    fi
    (cd "$DIR/harness" && RUSTFLAGS="$flags -Awarnings" cargo build --offline --locked --features "$group") >"$log" 2>&1
    rc=$?
    (cd "$saved" && find . -type f | while read -r f; do
        cmp -s "$f" "/repo/$f" || cp -p "$f" "/repo/$f"
    done)
    rm -rf "$saved"
    if [ $rc -ne 0 ]; then
        echo "ERROR building the $group harness failed:" >&2
        tail -40 "$log" >&2
        return 2
    fi
}

case "$1" in
setup)
    for g in core sql storage; do
        [ "$g" = core ] || grep -q "^$g = " "$DIR/harness/Cargo.toml" || continue
        build $g || exit 2
    done
    exit 0
    ;;
replay)
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
    g=$(group_of "$id") || exit 2
    build "$g" || exit 2
    exec "$DIR/target/$g/debug/pbt" replay "$2"
    ;;
*)
    g=$(group_of "$1") || exit 2
    tier=${2:-${VERIF_TIER:-quick}}
    build "$g" || exit 2
    exec "$DIR/target/$g/debug/pbt" run "$1" "$tier" "$SEED"
    ;;
esac
