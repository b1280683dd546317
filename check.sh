#!/bin/bash
# check.sh PROPERTY [quick|thorough] [more arguments of "sim check"]
# check.sh replay FILE
# check.sh determinism [RUNS]   every property's first RUNS runs twice, event logs compared
# check.sh build
# Rebuilds the simulator against /repo's working tree, then searches (or replays).
# Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  2: no answer.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$here/target SIM_HOME=$here
unset RUSTFLAGS RUSTDOCFLAGS

build() {
    (cd "$here/sim" && cargo build --offline --release --quiet) >"$1" 2>&1
}
# The same simulator with every memory access of the code under test as a preemption point.
race() {
    (cd "$here/sim" && RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER=$here/rustc-wrap.sh CARGO_TARGET_DIR=$here/target/race \
        cargo build --offline --release --quiet) >"$1" 2>&1
}
# Leaves the simulator a property is decided with in $sim.
simulator() {
    case "$1" in
    C13 | C15)
        sim=$here/target/race/release/sim
        race "$log" && return 0
        echo "the instrumented simulator does not build; preemption only at callbacks"
        ;;
    esac
    sim=$here/target/release/sim
    build "$log"
}
sendsync() {
    (cd "$here/sendsync" && cargo check --offline --quiet) >"$1" 2>&1
}

log=$(mktemp)
trap 'rm -f "$log"' EXIT
case "$1" in
build)
    build "$log" && race "$log" && sendsync "$log" || { cat "$log"; exit 2; }
    exit 0
    ;;
determinism)
    bad=0
    for p in $(sed -n "s/.*check.sh \(C[0-9]*\) quick.*/\1/p" "$here/MANIFEST.json" | sort -u); do
        simulator "$p" || { cat "$log"; exit 2; }
        "$sim" determinism "$p" --runs "${2:-2000}" || bad=1
    done
    exit $bad
    ;;
replay)
    if grep -q '"class": "not_send_or_sync"' "$2" 2>/dev/null; then
        if sendsync "$log"; then
            echo "not reproduced: every collection is Send and Sync on this tree"
            exit 0
        fi
        grep -E '^error|cannot be (sent|shared)|required because|-->' "$log" | head -40
        echo "VIOLATION property=C13 replay=$2"
        exit 1
    fi
    simulator "$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' "$2" | head -1)" || { cat "$log"; exit 2; }
    exec "$sim" replay "$2"
    ;;
esac

prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift 2 2>/dev/null || shift
simulator "$prop" || { cat "$log"; echo "the simulator does not build against /repo"; exit 2; }
"$sim" check "$prop" --tier "$tier" "$@"
code=$?
if [ "$prop" = C13 ] && [ $code -le 1 ]; then
    if ! sendsync "$log"; then
        if grep -Eq 'cannot be (sent|shared) between threads' "$log"; then
            mkdir -p "$here/replays"
            f=$here/replays/C13-sendsync.json
            python3 - "$log" "$f" <<'PY'
import json, sys
t = open(sys.argv[1]).read()
json.dump({"property": "C13", "class": "not_send_or_sync",
           "detail": next((l for l in t.splitlines() if "cannot be" in l), ""),
           "replay": "./check.sh replay <this file>", "compiler_output": t.splitlines()[:200]},
          open(sys.argv[2], "w"), indent=1)
PY
            grep -E 'cannot be (sent|shared)' "$log" | sort | uniq -c | head -5
            echo "VIOLATION property=C13 replay=$f"
            code=1
        else
            cat "$log"
            code=2
        fi
    fi
fi
exit $code
