#!/bin/bash
# check.sh build                    build the simulator with the library from /repo's working tree
# check.sh <property> [quick|thorough]   build, then decide one property (exit 0 held, 1 violated, 2 no answer)
# check.sh replay <file>            build, then replay a recorded violation
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 2
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
# cargo goes by time stamps; go by content instead
stamp=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha1sum; cd "$here/sim" && sha1sum Cargo.toml build.rs rustc-wrap.sh .cargo/config.toml) | sha1sum)
if [ "$(cat target/repo.stamp 2>/dev/null)" != "$stamp" ]; then
    [ -d target/debug ] && cargo clean --offline -q -p rusty-git >/dev/null 2>&1
    mkdir -p target
    rm -f "$here/sim/target/repo.stamp"
fi
log=$(mktemp)
if ! cargo build --offline >"$log" 2>&1; then
    tail -60 "$log" >&2
    rm -f "$log"
    echo "the simulator does not build" >&2
    exit 2
fi
rm -f "$log"
echo "$stamp" > target/repo.stamp
case "$1" in
build) exit 0 ;;
replay) exec ./target/debug/simcheck replay "$2" ;;
*) exec ./target/debug/simcheck check "$@" ;;
esac
