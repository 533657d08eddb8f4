#!/bin/bash
# builds the framework from the committed files, offline
. /verif/env.sh
set -e
cd /verif/composer && cargo build --locked --offline
cd /verif/harness && cargo build --locked --offline
