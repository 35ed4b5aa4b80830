#!/bin/bash
# sim/run.sh <property id, e.g. c01> [--tier quick|thorough] [--replay FILE] [...]
# Builds the simulator of one property against /repo's working tree and runs it.
# Exit: 0 held, 1 violation (with a VIOLATION line), 2 error of the check.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
verif="$(dirname "$here")"
id="${1:?property id}"
id="$(echo "$id" | tr 'A-Z' 'a-z')"
ID="$(echo "$id" | tr 'a-z' 'A-Z')"
shift
export PATH="$PATH:/root/.cargo/bin"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${SIM_TARGET_DIR:-$verif/target}"
export RUSTFLAGS="-Awarnings"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
cd "$here" || exit 2
mkdir -p "$CARGO_TARGET_DIR"
build() { # profile, arguments of cargo
    local profile=$1
    shift
    cargo build --quiet --profile "$profile" "$@"
}
if [ "$id" = setup ]; then
    # Only a head start: every check builds what it needs by itself.
    for profile in dev plain; do
        build $profile --bins || build $profile --bins --no-default-features || echo "setup: nothing built ahead"
    done
    exit 0
fi
# Every check runs in two builds: with and without debug assertions and overflow checks.
profiles=(dev plain) outs=(debug plain)
case "${VERIF_TIER:-quick} $*" in
    *thorough*) profiles=(deep deepplain) outs=(deep deepplain) ;;
esac
both() {
    build "${profiles[0]}" --bin "$id" "$@" && build "${profiles[1]}" --bin "$id" "$@"
}
log="$CARGO_TARGET_DIR/build-$id.log"
if ! both >"$log" 2>&1; then
    # Either /repo does not compile, or the enum shapes that need the repaired deny-unknown code do not.
    if both --no-default-features >"$log.2" 2>&1; then
        echo "The enums that combine serialize_deny_unknown with array-backed or array-serialized sets no longer compile:"
        grep -m 5 -A 6 '^error' "$log"
        if [ "$id" = c07 ]; then
            mkdir -p "$verif/replays"
            cp "$log" "$verif/replays/C07-deny-array-shapes.txt"
            echo "VIOLATION property=C07 replay=replays/C07-deny-array-shapes.txt"
            exit 1
        fi
        echo "(reported by C07; continuing without them)"
    else
        cat "$log" >&2
        echo "harness error: the simulator does not build" >&2
        exit 2
    fi
fi
cd "$verif" || exit 2
exec "$CARGO_TARGET_DIR/${outs[0]}/$id" --verif "$verif" --alt "$CARGO_TARGET_DIR/${outs[1]}/$id" "$@"
