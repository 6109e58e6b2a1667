cd /verif; cargo build --release --offline --manifest-path engine/Cargo.toml --target-dir build/engine 2>&1 | grep -E "^(error|warning: unused)" -A9
