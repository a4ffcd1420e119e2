#!/bin/bash
# Builds every harness once (each check rebuilds what changed).
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
. tools/env.sh
mkdir -p build evidence
python3 tools/sync.py || exit 1
cd build/ws || exit 1
for p in $(grep -v '^#' ../../tools/harnesses.txt | awk '{print $2}' | sort -u); do
	cargo build --offline -q -p "$p" || echo "setup: $p does not build"
done
exit 0
