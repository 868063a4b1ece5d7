#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]  - builds the harness against /repo's working tree, runs one property
cd "$(dirname "$0")/harness" || exit 3
. /opt/vp/env.sh
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
cargo build --offline >/tmp/khcheck-build.$$ 2>&1 || { tail -60 /tmp/khcheck-build.$$; rm -f "/tmp/khcheck-build.$$"; echo "harness build failed"; exit 3; }
rm -f "/tmp/khcheck-build.$$"
exec ./target/debug/khcheck "$1" --root "$(cd .. && pwd)" --tier "$VERIF_TIER" --seed "${VERIF_SEED:-1}"
