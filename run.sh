#!/bin/bash
# Runs the check of one property against the current tree of /repo:
#   run.sh <property> quick|thorough     run.sh build
# Builds what it needs first, from /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
export MC_TRACE_ROOT="${TMPDIR:-/tmp}"

# Content of everything a build reads: cargo looks at time stamps only, which
# say nothing when the tree is copied or restored.
content() {
    (cd /repo && find src static build.rs Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum
     cd /verif && find "$@" tokio-mc vendor mc-common -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum) |
        sha256sum | cut -d' ' -f1
}

build() { # crate, the local crates it depends on...
    local crate=$1 dir=/verif/target/$1 other
    mkdir -p "$dir" || exit 2
    exec 9>"$dir/.lock"
    flock 9
    local now
    now=$(content "$@")
    if [ ! -x "$dir/debug/$crate" ] || [ "$(cat "$dir/.content" 2>/dev/null)" != "$now" ]; then
        rm -f "$dir/.content"
        (export CARGO_TARGET_DIR=$dir
         cd "$crate" || exit 2
         for other in pica "$@"; do
             cargo clean --offline -p "$other" >/dev/null 2>&1
         done
         cargo build --offline --locked >"$dir/build.log" 2>&1) || {
            echo "error: $crate does not build against /repo" >&2
            grep -E '^error' -A8 "$dir/build.log" >&2
            exit 2
        }
        echo "$now" >"$dir/.content"
    fi
    flock -u 9
}

core() { build mc-core; }
net() { build mc-net mc-core srv-uci srv-http; }
pkt() { build mc-pkt; }

prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
case $prop in
build)
    core
    net
    pkt
    ;;
C17 | C18 | C19 | C20 | C22 | C27)
    net
    export MC_PROP=$prop MC_TIER=$tier RUST_LOG=off
    exec /verif/target/mc-net/debug/mc-net
    ;;
C24)
    net
    exec node --no-warnings /verif/mc-js/check.mjs "$tier"
    ;;
C25)
    pkt
    exec python3 /verif/mc-pkt/check.py "$tier"
    ;;
C23)
    exec python3 /verif/mc-py/check.py "$tier"
    ;;
C26)
    exec python3 /verif/mc-py/console_check.py "$tier"
    ;;
*)
    core
    exec /verif/target/mc-core/debug/mc-core "$prop" "$tier"
    ;;
esac
