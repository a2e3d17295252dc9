#!/bin/bash
. /verif/env.sh; cd /verif/harness
cargo build --release --offline 2>&1 | grep -E "^(error|warning: unused)|-->|^ *[0-9]+ \||= note|expected|found" | grep -v "/repo/" | grep -A6 "^error" | head -${1:-60}
