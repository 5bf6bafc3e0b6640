"""Writes schemas/alt: the schemas with every declaration order reversed and
documentation, comments and attributes everywhere.  (Run by hand; committed.)"""
import re, sys, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/gen/schemas"))

def strip(s):
    return "\n".join(l for l in (re.sub(r"//.*", "", l).rstrip() for l in s.splitlines()) if l.strip())

def split(s):
    """Top-level statements: up to ';' or '}' at depth 0 (an '= struct {..}' needs no ';')."""
    out, d, cur = [], 0, ""
    for c in s:
        cur += c
        if c in "{[(":
            d += 1
        elif c in "}])":
            d -= 1
            if c == "}" and d == 0:
                out.append(cur.strip()); cur = ""
        elif c == ";" and d == 0:
            out.append(cur.strip()); cur = ""
    assert not cur.strip(), cur
    return out

def doc(x, n, inl=False):
    p = "//!" if inl else "///"
    return "%s Some \"words\" about %s, [link](https://example.com) and `code`.\n%s\n%s Another\\paragraph {} \\\\.\n// a comment\n" % (p, n, p, p)

N = [0]
def body(s, inline, kind):
    items = split(s)
    head = [i for i in items if re.match(r"(uuid|version)\s*=", i)]
    parts = [i for i in items if re.match(r"(args|ok|err)\s*=", i)]
    if parts:
        return "".join("\n// part\n" + one(i, kind) for i in parts)
    fb = [i for i in items if re.search(r"=\s*fallback\s*;$", i)]
    rest = [i for i in items if i not in head and i not in fb]
    r = "\n" + (doc("x", "inline", True) if inline else "") + "\n".join(head) + "\n"
    for i in rest[::-1] + fb[::-1]:
        N[0] += 1
        r += doc("x", "member %d" % N[0]) + one(i, kind) + "\n"
    return r

def one(s, kind=None):
    m = re.match(r"([^{]*)\{(.*)\}$", s, re.S)
    if not m:
        return s
    inline = re.search(r"=\s*(struct|enum)\s*$", m[1]) is not None
    return m[1] + "{" + body(m[2], inline, m[1].split()[0]) + "}"

for f in ["ext", "all", "svc"]:
    items = split(strip(open(f + ".aldrin").read()))
    imp = [i for i in items if i.startswith("import")]
    rest = [i for i in items if not i.startswith("import")]
    o = "//! Documentation of the schema.\n//!\n//! More of it.\n\n" + "\n".join(imp[::-1]) + "\n\n"
    for k, i in enumerate(rest[::-1]):
        o += doc("x", i.split()[1])
        if i.split()[0] in ("struct", "enum") and k % 3 == 0:
            o += "#[other(stuff)]\n"
        o += one(i) + "\n\n"
    open("alt/" + f + ".aldrin", "w").write(o)
