#!/bin/bash
# regenerates contracts/functions.txt and contracts/hashes.txt from /repo (a maintenance step, not part of any check)
cd "$(dirname "$0")/.." || exit 1
extract/target/release/extract ${1:-/repo}/src contracts prelude.rs /tmp/baseline.rs /tmp/baseline.map --names contracts/names.txt || exit 1
awk -F'\t' '$1=="HASH"{print $2}' /tmp/baseline.map | sort -u > contracts/functions.txt
awk -F'\t' '$1=="HASH"{print $2"\t"$4}' /tmp/baseline.map | sort -u > contracts/hashes.txt
rm -f /tmp/baseline.rs /tmp/baseline.map
python3 lib/lits.py ${1:-/repo}/src contracts/literals.txt
