#!/bin/bash
# prints PASS/FAIL per reproduction, debug and release
cd "$(dirname "$0")"; export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-/verif/.target/repro} CARGO_NET_OFFLINE=true
cargo build -q --offline 2>/dev/null && cargo build -q --release --offline 2>/dev/null || exit 2
ulimit -c 0
for n in $($CARGO_TARGET_DIR/debug/fleece-repro list); do
  r=""
  for p in debug release; do timeout 60 $CARGO_TARGET_DIR/$p/fleece-repro $n >/dev/null 2>&1; c=$?; [ $c = 0 ] && r="$r $p=ok" || r="$r $p=FAIL($c)"; done
  echo "$n:$r"
done
