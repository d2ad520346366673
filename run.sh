#!/bin/bash
# run.sh build            builds the harness against /repo's working tree
# run.sh ID quick|thorough   builds, then runs the check of property ID
# run.sh replay FILE      builds, then replays a recorded failure
cd "$(dirname "$0")/harness" || exit 3
export VERIF_DIR="$(cd .. && pwd)"
export CARGO_TARGET_DIR="${VERIF_TARGET:-$VERIF_DIR/harness/target}"
if ! cargo build --release --offline >"/tmp/lsverif-build.$$" 2>&1; then
    cat "/tmp/lsverif-build.$$" >&2
    rm -f "/tmp/lsverif-build.$$"
    echo "the harness does not build against /repo" >&2
    exit 3
fi
rm -f "/tmp/lsverif-build.$$"
bin="$CARGO_TARGET_DIR/release/lsverif"
case "$1" in
build) exit 0 ;;
replay) exec "$bin" replay "$2" ;;
*) exec "$bin" check "$1" "${2:-quick}" ;;
esac
