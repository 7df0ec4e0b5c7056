cd /verif/extract && CARGO_TARGET_DIR=/verif/.build/extract cargo build --offline 2>&1 | grep -E "^error" -A5; true
