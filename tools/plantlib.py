"""Writes /verif/seeded/<id> from edits to /repo (which is left unchanged) and a demo program."""
import json, os, subprocess

SH = r'''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=/tmp/aldrin-demo-@ID@
rm -rf /tmp/aldrin-demo-@ID@
mkdir -p $d/src
cp "$here/demo.rs" $d/src/main.rs
cp "$repo/Cargo.lock" $d/Cargo.lock
cat > $d/Cargo.toml <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
@DEPS@
[workspace]
EOT
cd $d
timeout 280 cargo run --offline --quiet
rc=$?
cd /
rm -rf /tmp/aldrin-demo-@ID@
exit $rc
'''
CORE = 'aldrin-core = { path = "$repo/core", features = ["tokio", "channel"] }\nbytes = { version = "1", default-features = false }\nuuid = { version = "1", default-features = false }\ntokio = { version = "1", default-features = false }'
BROKER = CORE + '\naldrin-broker = { path = "$repo/broker", features = ["statistics", "introspection", "channel"] }\nfutures-util = { version = "0.3", default-features = false, features = ["std"] }'
CLIENT = BROKER + '\naldrin = { path = "$repo/aldrin", features = ["introspection", "macros", "channel"] }'


def plant(id, prop, edits, demo, needs, breaks, deps=CORE):
    for f, old, new in edits:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(demo)
    open(d + "/demo.sh", "w").write(SH.replace("@ID@", id).replace("@DEPS@", deps))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
