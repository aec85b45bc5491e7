#!/bin/bash
# sanitize.sh <tier>: the sanitizer part of C18. Runs the concurrent workloads in builds of the
# monitors and of /repo that are instrumented by ThreadSanitizer (with an instrumented standard
# library) and AddressSanitizer. A sanitizer report is a violation; a sanitizer that cannot run
# here is recorded as such in the evidence and decides nothing.
here="$(cd "$(dirname "$0")" && pwd)"
tier="${1:-quick}"
export VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
. "$here/env.sh"
export RUSTUP_TOOLCHAIN=nightly
triple=x86_64-unknown-linux-gnu
if [ "$tier" = thorough ]; then
    ids="C18 C10 C11 C13 C09 C08 C06 C20"; secs=40 colds=60
else
    ids="C18 C10 C11"; secs=8 colds=12
fi
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT

# count_reports <files...>: reports that concern the library; see san_count.py
count_reports() {
    [ -e "$1" ] || { echo 0; return; }
    python3 "$here/san_count.py" "$@"
}

# run_san <name> <binary> <options variable> <options>
run_san() {
    [ -n "$BUILD_ONLY" ] && return 0
    local name="$1" bin="$2" var="$3" opts="$4" id code pre= reports=0 runs=0 failed=0 evals=0
    if ! env "$var=$opts" timeout 20 "$bin" none quick >/dev/null 2>"$tmp/probe" && grep -q "FATAL\|Shadow\|unexpected memory" "$tmp/probe"; then
        pre="setarch $(uname -m) -R"
    fi
    # cold starts: many short processes whose first library calls happen on many threads at once
    local k cold=0
    mkdir -p "$tmp/$name-cold/evidence"
    for k in $(seq "$colds"); do
        env VERIF_DIR="$tmp/$name-cold" VERIF_SEED="$((VERIF_SEED * 1000 + k))" "$var=$opts log_path=$tmp/$name-cold/report" \
            timeout -k 5 60 $pre "$bin" BURST quick >/dev/null 2>&1
    done
    cold=$(SAN_KEEP="$tmp/$name.reports" count_reports "$tmp/$name-cold"/report*)
    echo "[C18] $name: $colds cold starts, $cold reports"
    reports=$((reports + cold))
    for id in $ids; do
        mkdir -p "$tmp/$name-$id/evidence"
        env VERIF_DIR="$tmp/$name-$id" HTMON_BUDGET="$secs" "$var=$opts log_path=$tmp/$name-$id/report" \
            timeout -k 5 240 $pre "$bin" "$id" quick >"$tmp/$name-$id/out" 2>"$tmp/$name-$id/err"
        code=$?
        n=$(SAN_KEEP="$tmp/$name.reports" count_reports "$tmp/$name-$id"/report*)
        e=$(sed -n 's/.*"evaluations": \([0-9]*\).*/\1/p' "$tmp/$name-$id/evidence/$id.json" 2>/dev/null | head -1)
        echo "[C18] $name $id: exit $code, $n reports, ${e:-0} cases observed"
        reports=$((reports + n))
        if [ -n "$e" ]; then runs=$((runs + 1)); evals=$((evals + e)); else failed=$((failed + 1)); fi
    done
    echo "$name $runs $failed $evals $reports $colds" >>"$tmp/summary"
    if [ $reports -gt 0 ]; then
        mkdir -p "$here/replays"
        local rp="$here/replays/C18-$name-seed$VERIF_SEED.txt"
        head -c 400000 "$tmp/$name.reports" >"$rp"
        echo "VIOLATION property=C18 replay=$rp"
        grep -m3 -A12 -hE 'WARNING: ThreadSanitizer|ERROR: AddressSanitizer' "$rp" | head -40
        violated=$((violated + 1))
    fi
}

violated=0
t0=$(date +%s)
: >"$tmp/summary"
(
    export RUSTFLAGS="-Zsanitizer=thread --cfg htmon_san --cap-lints allow"
    build_in "$here/harness/target-tsan" cargo build --offline --locked -Zbuild-std --target $triple \
        --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/harness/target-tsan"
) && run_san tsan "$here/harness/target-tsan/$triple/debug/htmon" TSAN_OPTIONS "halt_on_error=0 exitcode=66 second_deadlock_stack=1" \
    || echo "[C18] the ThreadSanitizer build failed: not decided by it" >&2
(
    export RUSTFLAGS="-Zsanitizer=address --cfg htmon_san --cap-lints allow"
    build_in "$here/harness/target-asan" cargo build --offline --locked --target $triple \
        --manifest-path "$here/harness/Cargo.toml" --target-dir "$here/harness/target-asan"
) && run_san asan "$here/harness/target-asan/$triple/debug/htmon" ASAN_OPTIONS "detect_leaks=0 abort_on_error=0 exitcode=67 detect_stack_use_after_return=1" \
    || echo "[C18] the AddressSanitizer build failed: not decided by it" >&2

[ -n "$BUILD_ONLY" ] && exit 0
python3 - "$here/evidence/C18.json" "$tmp/summary" "$(($(date +%s) - t0))" "$violated" <<'P'
import json, sys
path, summ, secs, viol = sys.argv[1:5]
try: e = json.load(open(path))
except Exception: sys.exit(0)
c = e["coverage"]
s = {}
for l in open(summ):
    n, runs, failed, ev, rep, colds = l.split()
    s[n] = dict(workloads_completed=int(runs), workloads_without_result=int(failed), cases_observed=int(ev), cold_starts=int(colds), reports=int(rep))
c["sanitizers"] = s
c["evaluations"] += sum(v["cases_observed"] for v in s.values())
e["wall_s"] += int(secs)
e["violations"] = e.get("violations", 0) + int(viol)
json.dump(e, open(path, "w"), indent=2)
P
[ $violated -gt 0 ] && exit 1
exit 0
