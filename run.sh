#!/bin/bash
# run.sh ID [quick|thorough] [driver args...]: builds the driver of a property from /repo's working
# tree and runs it. Exit 0: held; 1: violation (with a VIOLATION line); anything else: an error.
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift 2 2>/dev/null || shift $#
cd "$(dirname "$0")" || exit 2
HERE=$PWD
REPO=${VERIF_REPO:-/repo}
SEED=${VERIF_SEED:-1}
mkdir -p evidence replays build || exit 2
SRC=props/$ID.cpp
OUT=$(mktemp -d "$HERE/build/$ID.XXXXXX") || exit 2
trap 'rm -rf -- "$OUT"' EXIT
flag() { sed -n "s|^// $1: *||p" "$SRC"; }
BASE="-x c++ -std=gnu++17 -DNDEBUG -g1 -O1 -w -ftrivial-auto-var-init=pattern -include $HERE/lib/linux_compat.h -I$HERE/lib -I$REPO/include"
SAN="-fsanitize=address,signed-integer-overflow,bounds,integer-divide-by-zero,shift-exponent,bool,return,unreachable -fno-sanitize-recover=all -fno-omit-frame-pointer"
# Opt-in: the conditions the library states of itself (stdex_assert) end a case that breaks them.
[ -n "$VERIF_ASSERTS" ] && BASE="$BASE -include $HERE/lib/asserts.h"
S=$(flag SANITIZE); [ -n "$S" ] && SAN=$S; [ "$SAN" = none ] && SAN=
LIBS="-lz -lnuma -lpthread $(flag LIBS)"
clang++-18 $BASE $SAN $(flag CXXFLAGS) "$SRC" -x none -o "$OUT/driver" $LIBS >"$OUT/log" 2>&1 || { grep -E "error|note: in inst" "$OUT/log" | cut -c1-300 | head -20; echo "build of $ID failed"; exit 2; }
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=3000:handle_abort=1:detect_stack_use_after_return=1:quarantine_size_mb=16:malloc_context_size=8
export TSAN_OPTIONS=halt_on_error=1:report_signal_unsafe=0:history_size=4
export UBSAN_OPTIONS=print_stacktrace=1
export ASAN_SYMBOLIZER_PATH=$(command -v llvm-symbolizer-18 || command -v llvm-symbolizer)
export TZ=UTC LC_ALL=C
EV=(--evidence "$HERE/evidence/$ID.json")
for a in "$@"; do [ "$a" = --replay ] && EV=(); done
CAP=400; [ "$TIER" = thorough ] && CAP=2400
"$OUT/driver" --tier "$TIER" --seed "$SEED" --dir "$HERE" --cap $CAP --scale "$(flag SCALE | grep . || echo 1)" "${EV[@]}" "$@"
RC=$?
[ $RC -ne 0 ] && exit $RC
# Thorough: coverage-guided search over the same checks.
if [ "$TIER" = thorough ] && [ -z "$(flag NOFUZZ)" ] && [ ${#EV[@]} -gt 0 ]; then
	T=${VERIF_FUZZ_S:-300}
	clang++-18 $BASE -DPBT_FUZZ -fsanitize=fuzzer $SAN $(flag CXXFLAGS) "$SRC" -x none -o "$OUT/fuzz" $LIBS >"$OUT/log" 2>&1 || { head -50 "$OUT/log"; echo "fuzz build of $ID failed"; exit 2; }
	mkdir "$OUT/corpus" "$OUT/art"
	"$OUT/fuzz" -fork=8 -seed=$SEED -max_total_time=$T -timeout=25 -rss_limit_mb=3000 -max_len=2048 -artifact_prefix="$OUT/art/" -ignore_crashes=0 "$OUT/corpus" >"$OUT/fuzzlog" 2>&1
	grep -E "^#[0-9]+:" "$OUT/fuzzlog" | tail -1
	for f in "$OUT"/art/*; do
		[ -f "$f" ] || continue
		"$OUT/driver" --tier "$TIER" --seed "$SEED" --dir "$HERE" --fuzz-input "$f" || RC=1
		[ $RC -ne 0 ] && exit 1
	done
	python3 - "$HERE/evidence/$ID.json" "$OUT/fuzzlog" <<'PY'
import json,re,sys
e=json.load(open(sys.argv[1])); t=open(sys.argv[2],errors="replace").read()
m=re.findall(r"^#(\d+): cov: (\d+) ft: (\d+) corp: (\d+)",t,re.M)
if m: e["coverage"]["fuzz_executions"],e["coverage"]["fuzz_edges"],e["coverage"]["fuzz_features"],e["coverage"]["fuzz_corpus"]=map(int,m[-1])
json.dump(e,open(sys.argv[1],"w"))
PY
fi
exit $RC
