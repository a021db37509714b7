#!/bin/bash
# Builds the harness crate once (dependencies and pasture itself are rebuilt by every check when /repo changed).
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
mkdir -p target evidence
cd kani
for t in kani kani1 kani2 kani3; do
  cargo kani --target-dir ../target/$t --features c04 -Z stubbing -Z function-contracts -Z unstable-options \
    --no-assertion-reach-checks --only-codegen --exact --harness c04::e_new >/dev/null 2>&1 || true
done
exit 0
