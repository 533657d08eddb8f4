#!/bin/bash
# developer helper: build the harness and run one check with shrinking output
. /verif/env.sh
cd /verif/harness && cargo build --locked --offline 2>&1 | grep -E "^error" -A14 | head -80
cd /verif && VERIF_DEBUG=1 timeout 800 harness/target/debug/vcheck-prop "$@"
