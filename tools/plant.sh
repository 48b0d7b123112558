#!/bin/bash
# plant.sh ID...: confirms the planted bugs /verif/seeded/ID in the scratch
# copy /tmp/sc of /repo (builds, passes the tests, the demo tells it apart).
export HOME=/root PATH="/root/.cargo/bin:/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
[ -d /tmp/sc ] || cp -a /repo /tmp/sc
for id in "$@"; do
  d=/verif/seeded/$id
  cd /tmp/sc && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
  ( cd /tmp/sc && bash $d/demo.sh >/tmp/plant_demo0.log 2>&1 ); a=$?
  git apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  cargo test --workspace --no-fail-fast --offline --features parallel -- --test-threads 8 >/tmp/plant_t1.log 2>&1; t1=$?
  cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/plant_t2.log 2>&1; t2=$?
  ( cd /tmp/sc && bash $d/demo.sh >/tmp/plant_demo1.log 2>&1 ); b=$?
  git checkout -q -- .
  if [ $a = 0 ] && [ $b != 0 ] && [ $t1 = 0 ] && [ $t2 = 0 ]; then echo "$id: confirmed (demo: $(tail -1 /tmp/plant_demo1.log | cut -c1-150))"
  else echo "$id: NOT CONFIRMED demo $a/$b tests $t1/$t2"; grep -E "^error|FAILED|panicked" /tmp/plant_t1.log /tmp/plant_t2.log /tmp/plant_demo0.log| head -5; tail -2 /tmp/plant_demo0.log; fi
done
