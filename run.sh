#!/bin/bash
# run.sh <property id> [extra arguments of the check binary]
# Builds the check from the working tree of /repo and runs it. VERIF_SEED, VERIF_TIER select the cases.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
unset MAKEFLAGS MAKELEVEL ASAN_OPTIONS UBSAN_OPTIONS LUA_PATH LUA_CPATH LUA_INIT
ID=$1; shift
REPO=${VERIF_REPO:-/repo}
case "$ID" in
	T08|R05) GROUP=typedb_misuse;;
	T*) GROUP=typedb;;
	L*) GROUP=lexer;;
	G0[1-5]|G09|R06) GROUP=grammar;;
	G*) GROUP=gen;;
	R*) GROUP=run;;
	U*) GROUP=util;;
	setup) GROUP=all;;
	*) echo "unknown property $ID" >&2; exit 2;;
esac
# objects are kept per content of all sources they are made of
KEY=$(cat "$REPO"/src/*.[ch]pp harness/*.[ch]pp build.mk | sha256sum | cut -c1-16)
NAMES=$(cd "$REPO/src" && ls *.cpp *.hpp | sha256sum | cut -c1-8)
B=${VERIF_BUILD:-$PWD/build}/$KEY$NAMES
mkdir -p "$B"
# the builds of other trees are dropped except the two latest
ls -1dt "${B%/*}"/*/ 2>/dev/null | tail -n +4 | while read -r d; do rm -rf -- "$d"; done
exec 9>"$B/.lock"
flock 9
T=check_$GROUP; [ "$GROUP" = all ] && T=all
if ! make -s -j"$(nproc)" -f build.mk REPO="$REPO" B="$B" "$T" >"$B/build.log" 2>&1; then
	tail -n 30 "$B/build.log" >&2
	echo "BUILD FAILED" >&2
	exit 2
fi
flock -u 9
[ "$ID" = setup ] && exit 0
mkdir -p evidence replays
exec "$B/check_$GROUP" --property "$ID" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" \
	--evidence "evidence/$ID.json" --replay-dir "$PWD/replays" --known known_findings.txt "$@"
