# usage: bld.sh harness-dir
set -e
H=$1; N=$(basename $H)
cp /repo/Cargo.lock $H/Cargo.lock
cd $H
export RUSTUP_TOOLCHAIN=nightly __CARGO_TESTS_ONLY_SRC_ROOT=/verif/build/std/library CARGO_TARGET_DIR=/verif/build/sym-$N
cargo rustc --offline --release -Z build-std=std,panic_abort --target riscv64gc-unknown-linux-gnu --config "target.riscv64gc-unknown-linux-gnu.linker='/bin/true'" -- --emit=llvm-ir,link -Zub-checks=no
