#!/bin/bash
# check.sh PROPERTY [harness options]: builds the monitor from /repo's current
# tree and runs it. VERIF_TIER quick or thorough, VERIF_SEED the seed.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
prop=$1; shift
build="$here/.build"
mkdir -p "$build" "$here/evidence" "$here/replays"
race=""
case $prop in C26|C36|C40) race="-race";; esac
bin="$build/harness$race"
cd "$here/harness" || exit 2
if ! out=$(go build $race -o "$bin.$$" . 2>&1); then
	echo "the harness does not build: ${out:0:3000}"
	rm -f "$bin.$$"
	exit 2
fi
mv -f "$bin.$$" "$bin"
exec "$bin" -prop "$prop" -verif "$here" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" "$@"
