#!/bin/bash
# conform.sh [depth]: holds the reference models against nasm, lld and objdump (development aid).
cd "$(dirname "$0")/.." && ./run.sh build || exit 2
t=$(mktemp -d /tmp/conform.XXXXXX)
target/mc/release/mc conform programs "${1:-3}"; a=$?
L=$(find /root/.rustup/toolchains/stable-*/lib/rustlib -name rust-lld | head -1)
target/mc/release/mc conform links "$((${1:-3} + 1))" "$L"; c=$?
target/mc/release/mc conform encodings | sort -u >"$t/enc"
python3 tools/conform.py "$t"; b=$?
rm -r "$t"
exit $((a | b | c))
