set -e
cd /tmp/ex
R=${1:-/repo}
SR=$(rustc +nightly --print sysroot)
[ exporter -nt /verif/exporter/exporter.rs ] || rustc +nightly --edition 2021 -O /verif/exporter/exporter.rs -o exporter 2>&1 | grep -A8 '^error' || true
rustc +nightly --edition 2021 --crate-name dendron --crate-type rlib --emit=metadata,link -Zalways-encode-mir -Zmir-opt-level=0 -C debug-assertions=on -C overflow-checks=on --cfg 'feature="std"' $R/src/lib.rs --out-dir /tmp/ex 2>&1 | grep -A7 ^error || true
DRV_OUT=out.json LD_LIBRARY_PATH=$SR/lib ./exporter --edition 2021 --crate-type rlib /verif/exporter/shim.rs --extern dendron=/tmp/ex/libdendron.rmeta --sysroot $SR 2>&1 | grep -v ^skip || true
