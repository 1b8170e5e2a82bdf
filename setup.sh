#!/bin/bash
# builds the MIR extraction driver (nightly rustc_private) into /verif/build
set -e
cd "$(dirname "$0")"
mkdir -p build
T=$(mktemp -d build/tmp.XXXXXX)
rustc +nightly --edition 2021 -O driver/mirdump.rs --out-dir "$T" -o "$T/mirdump" 2>"$T/log" || { cat "$T/log" >&2; exit 3; }
sha256sum driver/mirdump.rs | cut -d' ' -f1 > "$T/sum"
mv -f "$T/mirdump" build/mirdump
mv -f "$T/sum" build/mirdump.sum
rm -rf "$T"
