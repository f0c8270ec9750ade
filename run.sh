#!/bin/bash
# ./run.sh build            build the harness against /repo's current tree
# ./run.sh <ID> [thorough]  build, then run one check
# ./run.sh replay <FILE>    build, then replay one saved input
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
repo=/repo
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/harness/target"
mkdir -p evidence replays work "$CARGO_TARGET_DIR"
build() {
    # cargo decides by time stamps; a restored or copied tree can carry old ones, so the
    # crates of the repository are rebuilt whenever their content differs from last time.
    local now stamp="$CARGO_TARGET_DIR/.repo-content"
    now=$(cd "$repo" && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
        rm -f "$here/harness/target/.repo-content"
        for p in common reader writer decoder encoder merger vcdiff; do
            cargo clean --offline --release --manifest-path harness/Cargo.toml -p "smdiff-$p" >/dev/null 2>&1
        done
    fi
    if ! cargo build --release --offline --manifest-path harness/Cargo.toml >work/build.log 2>&1; then
        cat work/build.log >&2
        echo "error: the harness does not build against $repo" >&2
        return 2
    fi
    echo "$now" >"$stamp"
}
(
    flock 9
    build
) 9>work/build.lock || exit 2
vp="$CARGO_TARGET_DIR/release/vp"
case "${1:-}" in
    build) exit 0 ;;
    replay) exec "$vp" replay "$2" ;;
    "") echo "usage: ./run.sh build | <ID> [thorough] | replay <FILE>" >&2; exit 2 ;;
    *)
        if [ "${2:-}" = thorough ]; then
            # thorough: coverage-guided search as well, where the target can be built
            if (flock 9 && fuzz/build.sh) 9>work/fuzz.lock >work/fuzz.log 2>&1; then
                export VP_FUZZ_BIN="$here/fuzz/target/release/vpf"
            else
                echo "note: the coverage-guided target does not build (work/fuzz.log); random search only" >&2
            fi
        fi
        exec "$vp" run "$1" "${2:-}" ;;
esac
