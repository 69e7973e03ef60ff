#!/bin/bash
# builds the extractor and the replay crate, offline
set -e
cd "$(dirname "$0")/.."
( cd extract && cargo build --release --offline )
( cd replay && cargo build --release --offline )
