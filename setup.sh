#!/bin/bash
# Optional warm-up: builds the check binaries once. Every check builds what it needs by itself.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/target" "$here/evidence"
(cd "$here/harness" && cargo build --offline --bin vh) || exit 1
(cd "$here/noalloc" && cargo build --offline --bin vh0) || exit 1
mkdir -p "$here/target/dgen0" && python3 "$here/dgen/gen.py" 1000 700 "$here/target/dgen0/types.rs" || exit 1
(cd "$here/dgen" && VH_DGEN="$here/target/dgen0" CARGO_TARGET_DIR="$here/target" cargo build --offline --bin vhd) || exit 1
mkdir -p "$here/target/rej-flatten" && : >"$here/target/rej-flatten/defs.rs"
for c in dgen:vhr noflat:vhn; do
  (cd "$here/${c%:*}" && VH_REJ="$here/target/rej-flatten" CARGO_TARGET_DIR="$here/target" cargo rustc --offline --bin ${c#*:} --profile check) || exit 1
done
# M01: the same harness under AddressSanitizer and under Miri
(cd "$here/harness" && CARGO_TARGET_DIR="$here/target/asan" RUSTFLAGS="-Zsanitizer=address --cap-lints=allow" cargo +nightly build --offline -q --bin vh --target x86_64-unknown-linux-gnu) || exit 1
for c in harness noalloc; do
  (cd "$here/$c" && env -u MIRIFLAGS -u RUSTFLAGS CARGO_TARGET_DIR="$here/target/miri" MIRIFLAGS="-Zmiri-disable-isolation" cargo +nightly miri run --offline -q -- list >/dev/null) || exit 1
done
