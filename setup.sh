#!/bin/bash
# Builds the harness from the committed files and /repo's working tree.
. "$(dirname "$0")/env.sh"
set -e
python3 "$VERIF_ROOT/gen/corpus.py" --check || { echo "harness/corpus/src/lib.rs is not what gen/corpus.py generates"; exit 1; }
cd "$VERIF_ROOT/harness"
cargo build --offline --locked
