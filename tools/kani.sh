#!/bin/bash
# checks the contracts that prelude.rs assumes of core and zerocopy against the real functions (Kani; about 15 s plus compilation)
cd "$(dirname "$0")/../kani" && CARGO_NET_OFFLINE=true timeout 600 cargo kani -j 4 --output-format terse
