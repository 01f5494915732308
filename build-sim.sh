#!/bin/bash
# Builds sim/ against /repo's current working tree.  File times are not trusted: the sources are hashed, and
# when they differ from those of the last build, prometrics and the simulator are compiled again.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p sim/target
exec 9>sim/target/.lock
flock 9
rel=sim/target/x86_64-unknown-linux-gnu/release
bin=$rel/simrun
sum=$({ find -L ../repo/src ../repo/Cargo.toml sim/src sim/simrt.c sim/simrt.h sim/build.rs sim/build.sh sim/Cargo.toml sim/Cargo.lock -type f -print0 |
  sort -z | xargs -0 sha256sum; rustc +nightly -V; } 2>/dev/null | sha256sum | cut -d' ' -f1)
if [ -x "$bin" ] && [ "$(cat sim/target/.built 2>/dev/null)" = "$sum" ]; then exit 0; fi
rm -f sim/target/.built
for d in "$PWD/$rel/.fingerprint"/prometrics-* "$PWD/$rel/.fingerprint"/simrun-*; do
  [ -d "$d" ] && rm -r "$d"
done
./sim/build.sh || exit 2
[ -x "$bin" ] || exit 2
echo "$sum" >sim/target/.built
