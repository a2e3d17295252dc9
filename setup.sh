#!/bin/bash
# Builds the harness once so that later checks only rebuild what changed.
cd /verif/harness || exit 2
. /verif/env.sh
mkdir -p /verif/evidence
cargo build --release --offline --locked
