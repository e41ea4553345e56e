#!/bin/bash
# check.sh PROPERTY quick|thorough   builds the harness of one property from /repo's working tree and runs it
# check.sh setup                     builds everything and tests the explorer and the oracles themselves
# Exit 0: held. Exit 1 and a VIOLATION line: violated. Anything else: no answer.
cd "$(dirname "$0")/mc" || exit 2
export VERIF_ROOT=${VERIF_ROOT:-$(cd .. && pwd)}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET_DIR
log=target/build.log
mkdir -p target
# Content, not time stamps, decides what is built again: a restored or patched file may look old.
sum() { (cd "$1" && find src Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -c1-32; }
H=$(sum /repo)-$(sum .)
build() { # dir profile cargo-arguments
  local dir=$1 profile=$2; shift 2
  local stamp=$dir/stamp-$profile
  mkdir -p "$dir"
  if [ "$(cat "$stamp" 2>/dev/null)" != "$H" ]; then
    rm -f "$stamp"
    cargo clean --offline --profile "$profile" --target-dir "$dir" -p linfa-linalg -p mc >"$log" 2>&1
  fi
  if ! cargo build --offline --profile "$profile" --target-dir "$dir" "$@" >>"$log" 2>&1; then
    tail -40 "$log"; echo "no answer: the build failed"; exit 2
  fi
  echo "$H" >"$stamp"
}
full() { # everything a harness may need is already built from these sources
  [ "$(cat target/full 2>/dev/null)" = "$H" ]
}
run() { # binary arguments; a process that a signal ends is a violation, as the code under test is all that can end it
  local prop=$2
  (ulimit -v 25000000; ulimit -c 0; exec "$@" 2>target/run.log)
  local rc=$?
  if [ $rc = 0 ] || [ $rc = 1 ]; then return $rc; fi
  tail -25 target/run.log
  if [ $rc -ge 128 ]; then
    mkdir -p "$VERIF_ROOT/replays"
    { echo "property=$prop"; echo "command=$*"; echo "message=the process exploring the operations ended with status $rc (128 + signal)"; tail -40 target/run.log; } >"$VERIF_ROOT/replays/$prop.txt"
    echo "the process exploring the operations ended with status $rc"
    echo "VIOLATION property=$prop replay=$VERIF_ROOT/replays/$prop.txt"
    return 1
  fi
  return 2
}
digests() {
  build target release --bin mc --bin digest "${@:2}"
  build target unchecked --bin digest "${@:2}"
  build target-noiter release --bin digest --no-default-features
  build target-noiter unchecked --bin digest --no-default-features
}
case $1 in
  setup)
    rm -f target/full
    digests
    build target unchecked --bins
    echo "$H" >target/full
    run target/release/mc selftest
    ;;
  C28)
    if ! full; then digests x --no-default-features --features iterative; fi
    run target/release/mc C28 --tier "$2"
    ;;
  C18)
    if ! full; then
      build target release --bin mc --no-default-features --features robust,iterative
      build target unchecked --bin mc --no-default-features --features robust,iterative
    fi
    # some library code differs without debug assertions: the same enumeration in that build first
    run target/unchecked/mc C18 --tier "$2" || exit
    run target/release/mc C18 --tier "$2"
    ;;
  C33)
    # a folder of its own: its features are not those of the other checks
    build target-history release --bin mc --no-default-features --features history
    run target-history/release/mc C33 --tier "$2" -v
    ;;
  C*)
    case $1 in
      C01|C1[0-5]) f=decomp ;;
      C0[2-9]) f=linear ;;
      C16|C17|C19|C20|C29|C30) f=robust ;;
      C21|C22) f=small ;;
      *) f=iter ;;
    esac
    if ! full; then build target release --bin mc --no-default-features --features iterative,$f; fi
    run target/release/mc "$1" --tier "$2" -v
    ;;
  *) echo "usage: check.sh PROPERTY quick|thorough"; exit 2 ;;
esac
