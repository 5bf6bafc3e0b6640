#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--entry NAME:SECS ...] [--keep]

Decides one property: builds the executor and, from /repo's working tree, the
LLVM IR and a native replay binary of the property's harness; executes every
entry point symbolically; replays every counterexample natively; writes
/verif/evidence/<PROPERTY>.json.  Exit 0: held on everything explored.
Exit 1: VIOLATION (confirmed natively).  Exit 2: the machinery failed.
"""
import argparse, fcntl, glob, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Fail(Exception):
    pass


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def run(cmd, cwd, env, what, timeout=800):
    t = time.time()
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode(errors="replace")
    if p.returncode != 0:
        raise Fail("%s failed (%d):\n%s" % (what, p.returncode, out[-6000:]))
    log("%s: %.1fs" % (what, time.time() - t))
    return out


def build_engine():
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "engine")
    run(["cargo", "build", "--release", "--offline", "-q"], os.path.join(HERE, "engine"), e, "engine build")
    return os.path.join(BUILD, "engine/release/rsym")


def build_std():
    d = os.path.join(BUILD, "std")
    if not os.path.exists(os.path.join(d, ".done")):
        run([sys.executable, os.path.join(HERE, "tools/patch_std.py"), d], HERE, base_env(), "std patch")
    return os.path.join(d, "library")


def stage(crate):
    """The harness crate, with the lock file that pins what /repo builds with."""
    h = os.path.join(HERE, "harness", crate)
    src = open(os.path.join(REPO, "Cargo.lock"), "rb").read()
    return h, src


def artifact(out):
    """Path of the produced binary from cargo's JSON messages."""
    exe = None
    for l in out.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m.get("target", {}).get("name") == "h":
                exe = m.get("executable") or exe
    return exe


def cargo(crate, args, env, what):
    h, lock = stage(crate)
    # cargo adds the harness package itself to the lock file: start from /repo's
    open(os.path.join(h, "Cargo.lock"), "wb").write(lock)
    return run(args, h, env, what)


def build_ir(crate, stdlib, res, wanted):
    try:
        e = base_env()
        e["ENTRIES"] = wanted
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        e["__CARGO_TESTS_ONLY_SRC_ROOT"] = stdlib
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "sym-" + crate)
        t = "riscv64gc-unknown-linux-gnu"
        log("IR build")
        out = run(["cargo", "rustc", "--offline", "--release", "-Zbuild-std=std,panic_abort", "--target", t,
                   "--config", "target.%s.linker='/bin/true'" % t, "--message-format=json-render-diagnostics",
                   "--", "--emit=llvm-ir,link", "-Zub-checks=no"],
                  os.path.join(HERE, "harness", crate), e, "IR build")
        c = sorted(glob.glob(os.path.join(e["CARGO_TARGET_DIR"], t, "**", "h*.ll"), recursive=True), key=os.path.getmtime)
        if not c:
            raise Fail("no IR produced")
        res["ir"] = c[-1]
    except Exception as x:  # noqa: BLE001
        res["ir_err"] = x


def build_native(crate, stdlib, res, wanted):
    try:
        e = base_env()
        e["ENTRIES"] = wanted
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        e["__CARGO_TESTS_ONLY_SRC_ROOT"] = stdlib
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "nat-" + crate)
        out = run(["cargo", "build", "--offline", "--profile", "native", "-Zbuild-std=std,panic_abort",
                   "--target", "x86_64-unknown-linux-gnu",
                   "--message-format=json-render-diagnostics"],
                  os.path.join(HERE, "harness", crate), e, "native build")
        exe = artifact(out)
        if not exe:
            raise Fail("no native binary produced")
        res["nat"] = exe
    except Exception as x:  # noqa: BLE001
        res["nat_err"] = x


def resolve(h, dirs):
    """Resolves dependencies offline once, and makes sure that what comes from
    /repo or from the harness is built again in the build folders: one that
    setup.sh left behind only saves std and the registry crates."""
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(h, "Cargo.lock"))
    e = base_env()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    p = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=h, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Fail("dependency resolution failed:\n" + p.stderr.decode(errors="replace")[-3000:])
    for k in json.loads(p.stdout)["packages"]:
        if k["source"] is None and not k["name"].startswith("getrandom"):
            for b in dirs:
                for f in (glob.glob(os.path.join(b, "**", "build", k["name"]), recursive=True) +
                          glob.glob(os.path.join(b, "**", ".fingerprint", k["name"] + "-*"), recursive=True)):
                    shutil.rmtree(f)


def build_crate(crate, stdlib, res, entries):
    """Starts the two builds of a harness crate with these entry points; -> the two threads (IR, native)."""
    wanted = ",%s," % ",".join(entries)
    resolve(os.path.join(HERE, "harness", crate), [os.path.join(BUILD, d + crate) for d in ("nat-", "sym-")])
    ts = [threading.Thread(target=build_ir, args=(crate, stdlib, res, wanted)),
          threading.Thread(target=build_native, args=(crate, stdlib, res, wanted))]
    for t in ts:
        t.start()
    return ts


def prebuild():
    """For setup.sh: the executor, std and every harness crate."""
    os.makedirs(BUILD, exist_ok=True)
    build_engine()
    stdlib = build_std()
    for crate in sorted({p["crate"] for p in PROPS.values()}):
        res = {}
        for t in build_crate(crate, stdlib, res, []):
            t.join()
        for k in ("ir_err", "nat_err"):
            if k in res:
                raise Fail(str(res[k]))
    compile_corpus("C16")


def compile_clause(prop, res):
    """res["compile"]: path of a report if the code generated from the corpus is
    what does not compile."""
    try:
        res["compile"] = compile_corpus(prop)
    except Exception as x:  # noqa: BLE001
        res["compile_err"] = x


def compile_corpus(prop):
    h = os.path.join(HERE, "harness/corpus")
    e = base_env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "corpus")
    resolve(h, [e["CARGO_TARGET_DIR"]])
    cmd = ["cargo", "check", "--offline", "--features", "corpus"]
    p = subprocess.run(cmd, cwd=h, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode == 0:
        return None
    run(["cargo", "check", "--offline", "-q"], h, e, "build without the corpus")
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, prop + "-compile.txt")
    with open(f, "w") as o:
        o.write("# cd %s && CARGO_TARGET_DIR=%s %s\n" % (h, e["CARGO_TARGET_DIR"], " ".join(cmd)))
        o.write(p.stdout.decode(errors="replace"))
    evp = os.path.join(HERE, "evidence", prop + ".json")
    json.dump(dict(
        property=prop, tier=os.environ.get("VERIF_TIER", "quick"), seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=["none"], exhaustive=False,
                      bounds=PROPS[prop]["bounds"], note="the generated code does not compile: nothing else was explored",
                      confirmed_violations=[dict(kind="compile", replay=f)]),
        wall_s=round(time.time() - T0, 2), assumptions=[], violations=1), open(evp, "w"), indent=1)
    return f


# ------------------------------------------------------------------ replay

def replay(exe, entry, path, timeout=40):
    """-> (verdict, output)"""
    e = dict(os.environ)
    e["RSYM_REPLAY"] = path
    try:
        p = subprocess.run([exe, entry], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        return "hang", (x.stdout or b"").decode(errors="replace")
    out = p.stdout.decode(errors="replace")
    rc = p.returncode
    if rc == 0 and "DONE" in out:
        return "ok", out
    if rc == 10:
        return "assert", out
    if rc == 11:
        return "panic", out
    if rc == 12:
        return "alloc", out
    if rc in (3, 4):
        return "diverged", out
    if rc < 0:
        return "signal %d" % -rc, out
    return "rc %d" % rc, out


def write_inputs(path, prop, entry, inputs, note):
    with open(path, "w") as f:
        f.write("# property %s entry %s\n" % (prop, entry))
        for l in note.splitlines():
            f.write("# %s\n" % l)
        for n, w, v in inputs:
            f.write("%s %d %s\n" % (n.replace(" ", "_"), w, v))


def confirms(kind, verdict):
    if verdict in ("ok", "diverged"):
        return False
    if kind == "steps":
        return verdict == "hang" or verdict.startswith("signal") or verdict in ("alloc", "panic", "assert")
    return True


def demangle(n):
    m = re.findall(r"(?:^|[^0-9])(\d+)_?([A-Za-z_][A-Za-z0-9_]*)", n)
    parts = []
    i = 0
    # v0 mangling: collect identifiers
    pos = 0
    while True:
        k = re.compile(r"(\d+)_?").search(n, pos)
        if not k:
            break
        ln = int(k.group(1))
        s = n[k.end():k.end() + ln]
        if 0 < ln < 200 and len(s) == ln and re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", s):
            parts.append(s)
            pos = k.end() + ln
        else:
            pos = k.end()
    return "::".join(parts) or n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--entry", action="append", default=[])
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    prop = a.prop
    P = PROPS[prop]
    crate = P["crate"]
    entries = [x if isinstance(x, dict) else dict(name=x[0], secs=x[1]) for x in P[a.tier]]
    if a.entry:
        entries = [dict(name=x.split(":")[0], secs=float((x.split(":") + ["60"])[1])) for x in a.entry]

    os.makedirs(BUILD, exist_ok=True)
    lockf = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    stdlib = build_std()
    res = {}
    ts = build_crate(crate, stdlib, res, [x["name"] for x in entries])
    if P.get("compile_clause"):
        ts.append(threading.Thread(target=compile_clause, args=(prop, res)))
        ts[2].start()
    eng = build_engine()
    ts[0].join()
    if P.get("compile_clause"):
        ts[2].join()
        if "compile_err" in res:
            raise Fail(str(res["compile_err"]))
        if res["compile"]:
            ts[1].join()
            print("VIOLATION property=%s replay=%s" % (prop, res["compile"]))
            print("  the code generated from the corpus does not compile")
            return 1
    if "ir" not in res:
        ts[1].join()
        raise Fail(str(res.get("ir_err")))
    built_s = time.time() - T0

    out = os.path.join(BUILD, "out-%s.json" % prop)
    cmd = [eng, "--ll", res["ir"], "--jobs", str(a.jobs), "--out", out, "--samples", "4",
           "--max-steps", str(P.get("max_steps", 20_000_000))]
    for x in entries:
        cmd += ["--entry", "%s:%s" % (x["name"], x["secs"])]
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.run(cmd, cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        ts[1].join()
        raise Fail("executor failed: " + p.stdout.decode(errors="replace")[-4000:])
    rs = json.load(open(out))
    ts[1].join()
    if "nat" not in res:
        raise Fail(str(res.get("nat_err")))
    fcntl.flock(lockf, fcntl.LOCK_UN)

    # ---------------------------------------------------- counterexamples
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*")):
        os.remove(f)
    known = load_known(prop)
    violations, unconfirmed, known_hit = [], [], {}
    n = 0
    for r in rs:
        for v in r["violations"]:
            n += 1
            f = os.path.join(rdir, "%s-%d.replay" % (prop, n))
            write_inputs(f, prop, r["entry"], v["inputs"], "%s: %s\n%s" % (v["kind"], v["msg"], v["bt"][:600]))
            verdict, o = replay(res["nat"], r["entry"], f)
            item = dict(entry=r["entry"], kind=v["kind"], msg=v["msg"], replay=f, native=verdict,
                        native_output=o.strip().splitlines()[-1:] if o.strip() else [], inputs=v["inputs"][:60])
            if confirms(v["kind"], verdict):
                k = next((k for k in known if k.get("match", "\0") in v["msg"] and k.get("entry", r["entry"]) == r["entry"]), None)
                if k:
                    known_hit.setdefault(k["id"], (k, item))
                    continue
                violations.append(item)
            else:
                unconfirmed.append(item)
                log("UNCONFIRMED", r["entry"], v["kind"], v["msg"], "native:", verdict, o[-300:])

    # Findings beyond what can be executed symbolically: shown natively.
    for k in known:
        if "native" in k:
            f = os.path.join(rdir, "%s-%s.replay" % (prop, k["id"]))
            write_inputs(f, prop, k["native"], [], k["what"])
            verdict, o = replay(res["nat"], k["native"], f, 60)
            if verdict == k["verdict"]:
                known_hit[k["id"]] = (k, dict(native=verdict, msg=k["what"], inputs=[]))

    # ------------------------------------------------ validated traces
    validated = diverged = 0
    samples = []
    bad = []
    for r in rs:
        for i, s in enumerate(r["samples"][:24]):
            f = os.path.join(rdir, "%s-s.replay" % prop)
            write_inputs(f, prop, r["entry"], s["inputs"], "sample")
            verdict, o = replay(res["nat"], r["entry"], f)
            lg = re.findall(r"^LOG (\d+)", o, re.M)
            if verdict == "ok" and lg == s["log"]:
                validated += 1
                if i < 2:
                    samples.append(dict(entry=r["entry"], inputs=["%s:%d=%s" % tuple(x) for x in s["inputs"][:40]], log=s["log"][:20]))
            elif verdict == "diverged":
                diverged += 1
            else:
                # passes symbolically, fails natively: never silently dropped
                g = os.path.join(rdir, "%s-n%d.replay" % (prop, len(bad)))
                shutil.copy(f, g)
                item = dict(entry=r["entry"], kind="native", msg="native run of a passing path: " + verdict, replay=g,
                            native=verdict, native_output=o.strip().splitlines()[-1:], inputs=s["inputs"][:60])
                bad.append(item)
                log("MISMATCH", r["entry"], verdict, o[-300:], lg, s["log"])
    for b in bad:
        if b["native"] in ("assert", "panic", "alloc") or b["native"].startswith("signal"):
            violations.append(b)

    # ------------------------------------------------------------ evidence
    tot = {}
    for r in rs:
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith("max_") else tot.get(k, 0) + v
    funcs = sorted({x for r in rs for x in r["functions"]})
    pref = P.get("functions", "aldrin")
    real = [f for f in funcs if re.search(pref, f)]
    names = sorted({demangle(f) for f in real})
    per = []
    vac = []
    for r in rs:
        d = dict(entry=r["entry"], exhaustive=r["exhaustive"], wall_s=r["wall_s"], crashed_workers=r["crashed"],
                 paths=r["stats"].get("paths", 0), covers=r["covers"], incomplete=r["incomplete"],
                 incomplete_at=r["incomplete_at"][:2], unexplored=r["stats"].get("unexplored", 0),
                 z3_queries=r["stats"].get("q_z3", 0), assertions=r["stats"].get("q_assert", 0))
        per.append(d)
        need = next((x.get("covers", []) for x in entries if x["name"] == r["entry"]), [])
        miss = [c for c in need if c not in r["covers"]]
        if r["stats"].get("paths", 0) == 0 or miss:
            vac.append(dict(entry=r["entry"], missing=miss, paths=r["stats"].get("paths", 0)))
    exhaustive = all(r["exhaustive"] for r in rs) and not vac
    wall = time.time() - T0
    ev = dict(
        property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=P.get("level", "model_checking"),
        coverage=dict(
            states=tot.get("paths", 0), transitions=tot.get("steps", 0),
            traces_validated_against_impl=validated, samples=samples[:12] or ["none"],
            exhaustive=exhaustive,
            bounds=P["bounds"], outside=P.get("outside", ""),
            functions_encoded=len(real), functions=names[:400],
            queries_z3=tot.get("q_z3", 0), queries_assertions=tot.get("q_assert", 0),
            queries_finite_domain=tot.get("q_domain", 0), query_cache_hits=tot.get("q_cache", 0),
            sat=tot.get("sat", 0), unsat=tot.get("unsat", 0), solver_unknown=tot.get("q_unknown", 0),
            solver_ms=tot.get("z3_ms", 0), concrete_assertions=tot.get("assert_concrete", 0),
            paths_cut_by_assumption=tot.get("assumed", 0), unexplored=tot.get("unexplored", 0),
            max_path_steps=tot.get("max_steps", 0), traces_diverged=diverged,
            entries=per, vacuous=vac, unconfirmed_candidates=unconfirmed,
            known_findings=[dict(id=k, native=i["native"], msg=i["msg"], inputs=i["inputs"]) for k, (_, i) in known_hit.items()],
            build_s=round(built_s, 1), confirmed_violations=violations,
        ),
        wall_s=round(wall, 2), assumptions=P.get("assumptions", []) + COMMON, violations=len(violations))
    evp = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    json.dump(ev, open(evp, "w"), indent=1)
    for d in per:
        log("%-22s %s %6.1fs paths=%d z3=%d asserts=%d unexplored=%d %s %s" % (
            d["entry"], "exhaustive" if d["exhaustive"] else "INCOMPLETE", d["wall_s"], d["paths"], d["z3_queries"],
            d["assertions"], d["unexplored"], d["covers"], d["incomplete"] or ""))
    log("validated=%d diverged=%d mismatch=%d unconfirmed=%d vacuous=%s wall=%.1f" % (validated, diverged, len(bad), len(unconfirmed), vac, wall))
    for k, (kk, item) in known_hit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, kk["what"]))
    for v in violations:
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        print("  entry %s: %s %s (native: %s %s)" % (v["entry"], v["kind"], v["msg"], v["native"], " ".join(v["native_output"])))
    if violations:
        return 1
    print("OK property=%s tier=%s exhaustive=%s paths=%d" % (prop, a.tier, exhaustive, tot.get("paths", 0)))
    return 0


COMMON = [
    "The IR is what rustc nightly emits for riscv64 (64-bit little-endian, opt-level 2); the native replay binary is x86-64.",
    "std is built from source with HashMap's hasher fixed to a constant, so one hash/iteration order per set of keys is explored.",
    "Branches over variables of at most 8 bits are decided by exact finite-domain sets; everything else, and every assertion over wider terms, by z3 4.8.12.",
    "Allocation never fails.",
]


def load_known(prop):
    p = os.path.join(HERE, "known-findings.jsonl")
    if not os.path.exists(p):
        return []
    r = [json.loads(l) for l in open(p) if l.startswith("{")]
    return [k for k in r if k["property"] == prop]


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Fail as x:
        print("CHECK-FAILED", x)
        sys.exit(2)
