#!/bin/bash
# check.sh <property>: rebuilds the harness against /repo's working tree and runs one property.
# exit 0: held; 1 (with a VIOLATION line): broken; anything else: the check itself failed.
. /verif/env.sh
cd /verif || exit 9
log=$(mktemp)
for c in composer harness; do
    if ! (cd "$c" && cargo build --locked --offline) >"$log" 2>&1; then
        tail -60 "$log"
        echo "build of $c failed"
        rm -f "$log"
        exit 8
    fi
done
rm -f "$log"
export RUST_BACKTRACE=0
exec harness/target/debug/vcheck-prop "$1"
