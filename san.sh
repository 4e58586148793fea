#!/bin/bash
# san.sh build|run: C07 under the address sanitizer, the thread sanitizer and Miri.
cd /verif
T=/verif/target/san
TRIPLE=x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=nightly
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset RUSTC_WRAPPER RUSTFLAGS
mkdir -p $T/log
native() { # name, flag, arguments
  local n=$1 f=$2; shift 2
  (cd harness && RUSTFLAGS="-Awarnings -Zsanitizer=$f" CARGO_TARGET_DIR=$T/$n \
    cargo build --offline -q --profile san -Zbuild-std --target $TRIPLE "$@")
}
miri() {
  (cd harness && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=$T/miri \
    MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=$VERIF_SEED" \
    exec cargo miri run --offline -q --profile san --features library,lean -- "$@")
}
build() {
  native asan address --features library,lean > $T/log/asan.build 2>&1 & local a=$!
  { native tsan thread --features library,lean > $T/log/tsan.build 2>&1; } & local t=$!
  KVERIF_PART=none miri none > $T/log/miri.build 2>&1 & local m=$!
  wait $a || { cat $T/log/asan.build >&2; return 2; }
  wait $t || { cat $T/log/tsan.build >&2; return 2; }
  wait $m || { cat $T/log/miri.build >&2; return 2; }
}
if ! build; then echo "san.sh: the harness did not build" >&2; exit 2; fi
[ "$1" = build ] && exit 0

export KVERIF_PARTS_DIR=$T/parts
rm -rf /verif/target/san/parts; mkdir -p $T/parts replays
code=0
worse() { # exit status of a part
  case $1 in 0) ;; 1) code=1 ;; *) [ $code = 1 ] || code=2 ;; esac
}
# a rogue build: nodes that can't be sent between threads
for k in push edit done ar wrapped; do rm -f $T/tsan/$TRIPLE/san/unsend_$k; done
native tsan thread --features unsend --keep-going --bin 'unsend_*' > $T/log/unsend.build 2>&1
for k in push edit done ar wrapped; do
  b=$T/tsan/$TRIPLE/san/unsend_$k
  if [ ! -x $b ]; then echo "$k refused" >> $T/parts/unsend; continue; fi
  TSAN_OPTIONS="halt_on_error=1 exitcode=66" timeout 60 $b > $T/log/unsend_$k 2>&1
  if [ $? = 66 ]; then
    cp $T/log/unsend_$k replays/C07-unsend_$k.log
    echo "VIOLATION property=C07 replay=/verif/replays/C07-unsend_$k.log"
    echo "  a node that isn't Send was accepted and raced: $(grep -m1 SUMMARY $T/log/unsend_$k)"
    worse 1
  else
    echo "$k accepted, no race seen" >> $T/parts/unsend
  fi
done
ASAN_OPTIONS="exitcode=99:detect_leaks=0:detect_stack_use_after_return=1" KVERIF_PART=asan \
  $T/asan/$TRIPLE/san/kverif run C07
worse $?
TSAN_OPTIONS="halt_on_error=1 exitcode=66" KVERIF_PART=tsan $T/tsan/$TRIPLE/san/kverif run C07
worse $?
# the interpreter: one process per core, each with its share of the cases
[ "$VERIF_TIER" = thorough ] && budget=420 || budget=50
pids=()
for k in 0 1 2 3 4 5 6 7; do
  KVERIF_PART=miri KVERIF_SLICE=$k KVERIF_SLICES=8 KVERIF_BUDGET=$budget KVERIF_WORK=1 \
    timeout $((budget + 150)) bash -c "$(declare -f miri); cd /verif; T=$T; miri work C07" > $T/log/miri.$k 2>&1 &
  pids+=($!)
done
for k in 0 1 2 3 4 5 6 7; do
  wait ${pids[$k]}; c=$?
  if [ $c = 0 ]; then continue; fi
  if grep -q "Undefined Behavior\|Data race detected" $T/log/miri.$k; then
    cp $T/log/miri.$k replays/C07-miri-$k.log
    echo "VIOLATION property=C07 replay=/verif/replays/C07-miri-$k.log"
    grep -m1 -A12 "Undefined Behavior\|Data race" $T/log/miri.$k
    worse 1
  elif grep -q "^VIOLATION" $T/log/miri.$k; then
    cat $T/log/miri.$k; worse 1
  else
    # out of time, or an operation the interpreter doesn't know
    echo "$k $c $(grep -m1 '^error' $T/log/miri.$k)" >> $T/parts/miri-incomplete
  fi
done
python3 tools/merge.py C07 $T/parts || worse 2
exit $code
