#!/bin/bash
# Every check builds what it needs by itself; this only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
rustup run nightly rustc --version
test -d "$(rustup run nightly rustc --print sysroot)/lib/rustlib/src/rust/library"
ls /usr/lib/x86_64-linux-gnu/libz3.so* > /dev/null
python3 -c "import sys; sys.path.insert(0, '.'); import props; print(len(props.PROPS), 'checks')"
# a head start where the build folder outlives this command; the checks do the same themselves otherwise,
# and always build again what comes from /repo and from the harness crates
python3 -c "import check; check.prebuild()"
