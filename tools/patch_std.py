#!/usr/bin/env python3
"""Creates a patched copy of the std sources used for the symbolic build.

Three substitutions, all of which only over-approximate or redirect:
 * SipHash `finish` is 0 for every input (any value is a legal hash; HashMap's
   behaviour may not depend on it), so that map operations compare keys; a
   harness can choose another constant (which rotates iteration orders) or turn
   on the real function with a seed of its choice (RSYM_HASH);
 * the per-process hash seeds are constants;
 * the panic handler reports to the executor instead of printing."""
import os, re, shutil, subprocess, sys

def toolchain_src():
    root = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    return os.path.join(root, "lib/rustlib/src/rust/library")

def sub(path, pat, rep, flags=re.S):
    s = open(path).read()
    n, c = re.subn(pat, rep, s, count=1, flags=flags)
    if c != 1:
        sys.exit(f"patch_std: pattern not found in {path}")
    open(path, "w").write(n)

def main(dst):
    if os.path.exists(dst + "/.done"):
        return
    if os.path.exists(dst):
        shutil.rmtree(dst)
    lib = dst + "/library"
    os.makedirs(dst)
    shutil.copytree(toolchain_src(), lib, symlinks=True)
    sub(lib + "/std/src/hash/random.rs", r"fn finish\(&self\) -> u64 \{\s*self\.0\.finish\(\)\s*\}",
        """fn finish(&self) -> u64 {
        let h = RSYM_HASH.load(crate::sync::atomic::Ordering::Relaxed);
        if h < 64 { h } else { self.0.finish() }
    }""")
    sub(lib + "/std/src/hash/random.rs", r"fn write\(&mut self, msg: &\[u8\]\) \{\s*self\.0\.write\(msg\)\s*\}",
        """fn write(&mut self, msg: &[u8]) {
        if RSYM_HASH.load(crate::sync::atomic::Ordering::Relaxed) >= 64 { self.0.write(msg) }
    }""")
    sub(lib + "/std/src/hash/random.rs", r"fn write_str\(&mut self, s: &str\) \{\s*self\.0\.write_str\(s\);\s*\}",
        """fn write_str(&mut self, s: &str) {
        if RSYM_HASH.load(crate::sync::atomic::Ordering::Relaxed) >= 64 { self.0.write_str(s) }
    }""")
    sub(lib + "/std/src/hash/random.rs",
        r"thread_local!\(static KEYS.*?RandomState \{ k0, k1 \}\s*\}\)",
        "RandomState { k0: RSYM_HASH.load(crate::sync::atomic::Ordering::Relaxed), k1: 0 }")
    with open(lib + "/std/src/hash/random.rs", "a") as f:
        f.write("""
/// The hash function: below 64 it is that constant, others seed the real one.
#[unsafe(no_mangle)]
#[unstable(feature = "hashmap_internals", issue = "none")]
pub static RSYM_HASH: crate::sync::atomic::AtomicU64 = crate::sync::atomic::AtomicU64::new(0);
""")
    sub(lib + "/std/src/panicking.rs",
        r"(pub(?:\(crate\))? fn panic_handler\(info: &core::panic::PanicInfo<'_>\) -> ! \{)",
        r'''\1
    #[cfg(target_arch = "riscv64")]
    unsafe extern "C" {
        fn rsym_panic(f: *const u8, fl: usize, line: u32, m: *const u8, ml: usize) -> !;
    }
    #[cfg(target_arch = "riscv64")]
    {
        let (f, line) = match info.location() {
            Some(l) => (l.file(), l.line()),
            None => ("?", 0),
        };
        let m = info.message().as_str().unwrap_or("");
        unsafe { rsym_panic(f.as_ptr(), f.len(), line, m.as_ptr(), m.len()) }
    }
    #[allow(unreachable_code)]
''')
    open(dst + "/.done", "w").close()

main(sys.argv[1])
