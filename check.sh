#!/bin/bash
# check.sh Cxx [quick|thorough]: build the harness against /repo's working tree, run the check.
cd /verif
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
log=$(mktemp)
features=
[ "$1" = C07 ] && exec bash /verif/san.sh run
case "$1" in
  C24) features="--features sound" ;;
  C26) features="--features macros" ;;
  C15) features="--features division" ;;
  C06) features="--features library,division,syscalls" ;;
esac
if ! bash /verif/build.sh $features >"$log" 2>&1; then
  cat "$log" >&2; echo "check.sh: the harness did not build" >&2; exit 2
fi
rm -f "$log"
exec /verif/target/debug/kverif run "$1"
