#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's working tree
# check.sh replay <file>                 run a replay file again, with its trace
# Exit: 0 held, 1 violated (VIOLATION line), 2 error of the check.
cd "$(dirname "$0")" || exit 2
export MDSIM_VERIF="$PWD" RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR="$PWD/sim/target" CARGO_TERM_COLOR=never
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS

. ./build.inc

build() { # profile world...
    local log profile=$1 w bins=()
    shift
    for w in "$@"; do
        bins+=(--bin "$w")
    done
    fresh "$profile"
    if ! log=$(cd sim && cargo build --offline --profile "$profile" "${bins[@]}" 2>&1); then
        echo "$log" | tail -60 >&2
        echo "error of the check: /repo does not build with the simulator" >&2
        exit 2
    fi
}

world_of() {
    case "$1" in
    C01 | C02 | C03 | C04 | C05 | C06 | C11 | C14) echo hist ;;
    C13) echo inplace ;;
    C10) echo iters ;;
    C15) echo reads ;;
    C12) echo exprs ;;
    C09) echo conc ;;
    C07 | C08) echo serdew ;;
    esac
}

if [ "$1" = replay ]; then
    w=$(sed -n 's/^world //p' "$2" | head -1)
    profile=$(sed -n 's/^# profile //p' "$2" | head -1)
    [ -n "$w" ] || { echo "not a replay file: $2" >&2; exit 2; }
    build "${profile:-sim}" "$w"
    out=$("sim/target/${profile:-sim}/$w" exec "$2" --trace)
    rc=$?
    echo "$out"
    prop=$(sed -n 's/^property //p' "$2" | head -1)
    if [ $rc -ne 0 ] || echo "$out" | grep -q '^RESULT viol'; then
        echo "VIOLATION property=$prop replay=$2"
        exit 1
    fi
    exit 0
fi

prop=$1
tier=${2:-${VERIF_TIER:-quick}}
w=$(world_of "$prop")
[ -n "$w" ] || { echo "unknown property: $prop" >&2; exit 2; }
notes=

# A pass before the main one, whose result goes into the evidence of the main one.
pass() { # profile world arguments...
    local profile=$1 world=$2 out rc
    shift 2
    out=$("sim/target/$profile/$world" check --prop "$prop" --tier "$tier" --profile "$profile" "$@")
    rc=$?
    if [ $rc -ne 0 ]; then
        echo "$out"
        exit $rc
    fi
    notes="$notes; world $world, profile $profile: $(echo "$out" | tail -1)"
}

if [ "$tier" = thorough ]; then
    secs=${MDSIM_SECS:-240}
    build ship "$w" && pass ship "$w" --secs "$secs"
    if [ "$prop" = C14 ]; then
        build ship rejects && pass ship rejects --secs "$secs"
        build sim rejects && pass sim rejects --secs "$secs"
    fi
    build sim "$w"
    exec "sim/target/sim/$w" check --prop "$prop" --tier thorough --profile sim --secs "${MDSIM_SECS:-420}" --note "${notes#; }"
fi
# Without debug assertions and overflow checks, as shipped; then with them.
first=
[ "$prop" = C14 ] && first=rejects
(build bare "$w" $first) & b=$!
(build sim "$w") & s=$!
wait $b || exit 2
wait $s || exit 2
[ "$prop" = C14 ] && pass bare rejects
pass bare "$w" --share 3
exec "sim/target/sim/$w" check --prop "$prop" --tier quick --profile sim --note "${notes#; }"
