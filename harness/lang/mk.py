"""Writes src/corpus.rs from schemas/ (copies of the repository's schemas)."""
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
fs = sorted(os.listdir("schemas"), key=lambda f: (os.path.getsize("schemas/" + f), f))
o = "//! Copies of the repository's schemas; written by mk.py.\npub const CORPUS: &[(&str, &str)] = &[\n"
for f in fs:
    o += '    ("%s", include_str!("../schemas/%s")),\n' % (f[:-7].split("-")[-1], f)
open("src/corpus.rs", "w").write(o + "];\n")
