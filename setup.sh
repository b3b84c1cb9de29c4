#!/bin/bash
# builds the front end and the replay program (both rebuilt by every check when the sources changed)
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
cargo build --offline -q --target-dir target/frontend --manifest-path frontend/Cargo.toml || exit 1
python3-vt - <<'P'
import sys; sys.path.insert(0,'replay')
import driver; log=[]
print('replay build:', driver.build('/repo', '.', log)); print(log[-1][-500:] if log else '')
P
exit 0
