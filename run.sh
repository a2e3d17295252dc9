#!/bin/bash
# Usage: run.sh <property id>   (VERIF_SEED and VERIF_TIER come from the environment)
# Builds the harness against the current working tree of /repo and runs one check.
# Exit 0: held; 1: VIOLATION line printed; anything else: the check itself could not run.
cd /verif || exit 2
. /verif/env.sh
stamp=/verif/harness/target/.repo.sum
sum=$(cd /repo && { find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; } | sha256sum)
if [ "$(cat $stamp 2>/dev/null)" != "$sum" ]; then
  # never trust modification times for the code under test
  (cd harness && cargo clean -p cgar --release --offline >/dev/null 2>&1)
fi
if ! (cd harness && timeout 700 cargo build --release --offline --locked >/verif/harness/build.log 2>&1); then
  tail -20 /verif/harness/build.log >&2
  echo "ERROR: the harness does not build" >&2
  exit 2
fi
echo "$sum" > $stamp
ulimit -v 26000000
exec /verif/harness/target/release/pbt check "$1"
