#!/bin/bash
# check.sh <property> <quick|thorough>: builds the harness against /repo's working tree and
# searches for a violation of one property. Exit 0 held, 1 violation, 2 no answer.
set -u
cd "$(dirname "$0")" || exit 2
root=$PWD
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1 ;; esac
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS

build() { # target-dir features...
  local dir=$1; shift
  local log; log=$(mktemp)
  if ! CARGO_TARGET_DIR=$dir cargo build --release --offline --manifest-path "$root/harness/Cargo.toml" "$@" >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"
    echo "check.sh: the harness does not build against /repo"
    exit 2
  fi
  rm -f "$log"
}
mkdir -p evidence replay
rm -f "evidence/$prop.json"
build "$root/harness/target"
"$root/harness/target/release/pbt" check "$prop" "$tier" --seed "$seed" --out "evidence/$prop.json" --replay-dir "$root/replay"
rc=$?
if [ "$prop" = P14 ] && [ $rc = 0 ]; then
  # the entry sizing is a build configuration: judge the other one too
  build "$root/harness/target-ea" --features ea_real
  "$root/harness/target-ea/release/pbt" check "$prop" "$tier" --seed "$seed" --out "evidence/$prop.real.json" --replay-dir "$root/replay"
  rc=$?
  python3 - "$prop" <<'P'
import json, sys, os
p = sys.argv[1]
a, b = (json.load(open(f"evidence/{p}{s}.json")) for s in ("", ".real"))
for k in ("evaluations", "nontrivial", "distinct_nontrivial", "comparisons"):
    a["coverage"][k] += b["coverage"][k]
for k, v in b["coverage"]["classes"].items():
    a["coverage"]["classes"][k] = a["coverage"]["classes"].get(k, 0) + v
a["coverage"]["build"] = "default features, then caps_ea_real_entry_size (counts added)"
a["coverage"]["samples"] += b["coverage"]["samples"][:2]
a["wall_s"] += b["wall_s"]
a["violations"] += b["violations"]
json.dump(a, open(f"evidence/{p}.json", "w"), indent=1)
os.remove(f"evidence/{p}.real.json")
P
fi
case $rc in 0|1) exit $rc ;; *) exit 2 ;; esac
