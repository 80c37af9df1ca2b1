#!/bin/bash
# checks that the tools are there and that the monitor builds
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
for t in go gcc strace; do
	command -v $t >/dev/null || { echo "$t is missing"; exit 1; }
done
mkdir -p "$here/.build"
cd "$here/harness" && go build -o "$here/.build/harness" .
