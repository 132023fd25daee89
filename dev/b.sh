cd /verif/tools/extract && CARGO_TARGET_DIR=/verif/build/extract cargo build --release --offline 2>&1 | grep -E "^(error|warning: unused)|Finished" 
