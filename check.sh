#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild the monitors against /repo's working tree and run one
# of them. Exit 0: held; 1: violated; 2: no verdict (could not build, nothing observed).
set -u
cd "$(dirname "$0")"
V=$PWD
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
export CARGO_TARGET_DIR=$V/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_ENCODED_RUSTFLAGS
mkdir -p "$V/evidence" "$V/replays" "$V/target"

# What is built must be what /repo contains, whatever its modification times say
stamp() {
    (cd /repo && find . -path ./.git -prune -o -path ./target -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
}
fresh() { # dir of the workspace, name
    local now old
    now=$(stamp)
    old=$(cat "$V/target/stamp.$2" 2>/dev/null)
    if [ "$now" != "$old" ]; then
        (cd "$1" && cargo clean --offline -q -p deku -p deku_derive >/dev/null 2>&1)
        echo "$now" >"$V/target/stamp.$2"
    fi
}
build() { # dir, name, cargo arguments
    local dir=$1 name=$2
    shift 2
    fresh "$dir" "$name"
    if ! (cd "$dir" && cargo build --offline -q "$@") >"$V/target/build.$name.log" 2>&1; then
        tail -40 "$V/target/build.$name.log"
        rm -f "$V/target/stamp.$name"
        # deku builds, but definitions it accepted are refused now, or what it generates for them is
        if [ "$P" != setup ] && grep -qE '^error: could not compile `(vcore|zoo_[a-z0-9]+|monitor)`' "$V/target/build.$name.log" \
            && grep -qE '^ +--> (core|zoo_[a-z0-9]+|monitor)/src/' "$V/target/build.$name.log"; then
            mkdir -p "$V/replays"
            cp "$V/target/build.$name.log" "$V/replays/$P.txt"
            echo "what is observed for $P cannot be compiled any more"
            echo "VIOLATION property=$P replay=$V/replays/$P.txt"
            exit 1
        fi
        echo "no verdict: the monitors do not build"
        exit 2
    fi
}

case "$P" in
setup)
    build "$V/harness" harness
    exec python3 "$V/probes.py" setup
    ;;
R19 | R21 | R27 | R28)
    rm -f "$V/evidence/$P.json"
    exec python3 "$V/probes.py" "$P" "$TIER" "$SEED"
    ;;
esac

rm -f "$V/evidence/$P.json"
# The thorough tier also draws new types from the seed
unset ZOO_FRESH
if [ "$TIER" = thorough ] && python3 "$V/harness/zoo.py" --fresh "$SEED" 40 "$V/target/fresh/$SEED"; then
    export ZOO_FRESH=$V/target/fresh/$SEED/gen.rs
fi
build "$V/harness" harness
"$V/target/debug/monitor" "$P" --seed "$SEED" --tier "$TIER" --out "$V/evidence/$P.json" --known "$V/known-findings.txt" --replays "$V/replays"
rc=$?
# The code under watch brought the whole process down: an abort, an illegal access or a stack
# overflow. (Killed from outside, 137, is no verdict.)
case $rc in
132 | 134 | 135 | 136 | 139)
    echo "the monitored code ended the process with signal $((rc - 128)): $P seed $SEED tier $TIER" | tee "$V/replays/$P.txt"
    echo "VIOLATION property=$P replay=$V/replays/$P.txt"
    exit 1
    ;;
esac
exit $rc
