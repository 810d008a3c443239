#!/bin/bash
# findings/run.sh REV [test args]: runs the demonstrations against revision REV of /repo
set -e
D=$(mktemp -d /tmp/demos.XXXXXX); trap 'rm -rf "$D"' EXIT
git -C /repo archive "$1" | tar -x -C "$D"
[ -f "$D/Cargo.lock" ] || cp /opt/vp/Cargo.lock "$D/" 2>/dev/null || true
cp "$(dirname "$0")/demos.rs" "$D/src/onestore/finding_demos.rs"
printf '\n#[cfg(test)]\n#[path = "finding_demos.rs"]\nmod finding_demos;\n' >> "$D/src/onestore/object_space.rs"
cd "$D"; export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable
cargo test --offline --lib finding_demos -- "${@:2}" 2>&1 | grep -E "^test |^error|^  *-->|panicked|overflow|test result|E0" 
