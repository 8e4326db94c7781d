#!/bin/bash
# run.sh build | run.sh <property> quick|thorough
# Rebuilds the harness and the repository's code from /repo's working tree, then runs one check.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="-Awarnings"
mkdir -p target
build() {
    (
        flock 9
        # cargo compares times only; the working tree may have been replaced by older files
        now=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd "$VERIF_DIR/harness" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum )
        if [ ! -f target/stamp ] || [ "$(cat target/stamp)" != "$now" ]; then
            rm -f target/stamp
            rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/hddl_analyzer-* "$CARGO_TARGET_DIR"/release/.fingerprint/mc-*
            if ! cargo build --release --offline --manifest-path harness/Cargo.toml >target/build.log 2>&1; then
                cat target/build.log | tail -60 >&2
                exit 3
            fi
            echo "$now" >target/stamp
        fi
    ) 9>target/lock
}
build || { echo "the build of the check failed" >&2; exit 3; }
[ "${1:-build}" = build ] && exit 0
exec target/release/mc run "$1" "${2:-quick}"
