#!/bin/bash
# run.sh ID [quick|thorough]: build the harness against /repo's working tree and run one property's monitors.
# exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case "$tier" in
  thorough) secs=${VERIF_SECS:-240} ;;
  *) secs=${VERIF_SECS:-25} ;;
esac
mkdir -p "$here/evidence" "$here/target"
export CARGO_TERM_COLOR=never
cd "$here/harness" || exit 2
if ! cargo build --offline --bin vh >"$here/target/build-$id.log" 2>&1; then
  echo "INCONCLUSIVE property=$id: the harness does not build against this tree"
  tail -40 "$here/target/build-$id.log"
  exit 2
fi
case "$id" in B02|S04|N01|F01|E01|E02)
  cd "$here/noalloc" || exit 2
  if ! cargo build --offline --bin vh0 >"$here/target/build-$id-noalloc.log" 2>&1; then
    # what is built with an allocator is still judged
    echo "NOTE property=$id: nothing builds without an allocator in this tree, only the build with one is checked"
    tail -20 "$here/target/build-$id-noalloc.log"
    export VH_NO_NOALLOC=1
  fi
esac
exec python3 "$here/drive.py" "$id" "$tier" "$seed" "$secs"
