#!/bin/bash
# ./check.sh <property> [--case '<case>']: rebuilds from /repo's working tree and explores.
. "$(dirname "$0")/env.sh"
id="$1"
cd "$VERIF_ROOT/harness" || exit 2
log="$VERIF_ROOT/out/build.$id.log"
if ! cargo build --offline >"$log" 2>&1; then
  # /repo builds, and its derives no longer produce code for types they must support
  if grep -q 'could not compile `corpus`' "$log" && ! grep -q 'signal:' "$log" \
    && cargo build --offline -p yaserde -p yaserde_derive -p vcore >>"$log" 2>&1; then
    grep -m5 -A12 '^error' "$log"
    echo "{\"property\": \"$id\", \"tier\": \"${VERIF_TIER:-quick}\", \"seed\": 1, \"level\": \"model_checking\", \"wall_s\": 0, \"violated\": true, \"coverage\": {\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"samples\": [\"the derived code of a type of the corpus does not compile\"]}}" >"$VERIF_ROOT/evidence/$id.json"
    echo "VIOLATION property=$id replay=$log"
    exit 1
  fi
  tail -40 "$log"
  echo "the harness does not build"
  exit 2
fi
exec ./target/debug/vp check "$@"
