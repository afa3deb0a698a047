#!/bin/bash
# build.sh [crate...]: builds harness crates against /repo's current working tree.
. "$(dirname "$0")/env.sh"
V=$VERIF_DIR
mkdir -p "$V/target"
# cargo decides by modification time; a copied or rewritten tree can fool it, so any change in
# /repo's sources drops the compiled workspace crates.
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lalrpop' -o -name Cargo.lock \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$sum" != "$(cat "$V/target/repo.sum" 2>/dev/null)" ]; then
  rm -rf "$V"/target/*/.fingerprint/{chomp,chewed,autonibble,chomp-macro,chomp-bench}-*
fi
rc=0
for c in "$@"; do
  if [ "$c" = bins ]; then
    # the command line tools and the macro themselves
    (cd /repo && CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true cargo build --release --offline --locked --quiet -p chomp -p autonibble -p chomp-macro 2>"$V/target/build-bins.log") || { rc=2; grep -E -A6 '^error' "$V/target/build-bins.log" | head -12; }
    continue
  fi
  (cd "$V/harness/$c" && cargo build --release --offline --quiet 2>"$V/target/build-$c.log") || { rc=2; grep -E -A6 '^error' "$V/target/build-$c.log" | head -12; }
done
[ $rc = 0 ] && echo "$sum" > "$V/target/repo.sum"
exit $rc
