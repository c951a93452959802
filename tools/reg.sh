#!/bin/bash
# register a scenario: reg.sh c05
cd /verif/sim/harness; n=$1; N=${n^^}
grep -q "pub mod $n;" prop/mod.rs || sed -i "s/^pub mod util;/pub mod $n;\npub mod util;/; s/        _ => {/        \"$N\" => $n::INFO,\n        _ => {/; s/        _ => unreachable/        \"$N\" => $n::run(),\n        _ => unreachable/" prop/mod.rs
