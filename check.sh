#!/bin/bash
# check.sh <property> [quick|thorough]: builds the monitors against /repo's working tree and runs
# the one of that property. Exit 0: held; 1: violation; 2: no verdict.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_DIR="$here" VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
. "$here/env.sh"
mkdir -p "$here/evidence"
rm -f "$here/evidence/$id.json"
build_harness || { echo "[$id] the monitors do not build against /repo: no verdict" >&2; exit 2; }
run="$here/harness/target/debug/htmon"

# A process that dies of a signal raised by its own execution (abort, segmentation fault, illegal
# instruction, bus error) is a memory-safety or abort failure of the code under test if the same
# seed does it again; killed from outside (out of memory, time-out) it is no verdict.
is_crash() { case $1 in 132 | 134 | 135 | 136 | 139) return 0 ;; *) return 1 ;; esac; }
"$run" "$id" "$tier"
code=$?
if is_crash $code; then
    echo "[$id] the monitored process died (status $code); running the same seed again" >&2
    "$run" "$id" "$tier" 2>"$here/evidence/.crash-$id"
    code2=$?
    tail -5 "$here/evidence/.crash-$id" >&2
    if is_crash $code2; then
        mkdir -p "$here/replays"
        rp="$here/replays/$id-seed$VERIF_SEED-crash.json"
        printf '{"property": "%s", "seed": %s, "tier": "%s", "signature": "process-crash", "detail": "the process running the library died twice with statuses %s and %s", "replay": "VERIF_SEED=%s bash check.sh %s %s"}\n' \
            "$id" "$VERIF_SEED" "$tier" "$code" "$code2" "$VERIF_SEED" "$id" "$tier" >"$rp"
        printf '{"property": "%s", "tier": "%s", "seed": %s, "level": "exploration", "coverage": {"evaluations": 2, "distinct_nontrivial": 0, "rule": "the monitored process died before it could report", "samples": ["status %s, then %s"]}, "wall_s": %s, "violations": 1}\n' \
            "$id" "$tier" "$VERIF_SEED" "$code" "$code2" "$SECONDS" >"$here/evidence/$id.json"
        echo "VIOLATION property=$id replay=$rp"
        exit 1
    fi
    code=$code2
fi
# Part of C18 runs in sanitizer builds of their own; see sanitize.sh.
if [ "$id" = C18 ] && [ $code -eq 0 ]; then
    bash "$here/sanitize.sh" "$tier"
    code=$?
fi
case $code in
0 | 1) exit $code ;;
*) exit 2 ;;
esac
