"""Data members of a class, from the compiler's own record layout."""
import re, os
from prep import run, CLANGXX, VERIF, AnalysisBroken


def layouts(T, witness, std, defs=(), incs=()):
    """class -> list of (offset, name, bits) of every scalar in it, members of members included"""
    src = os.path.join(VERIF, "witness", witness)
    r = run([CLANGXX, "-std=" + std, "-fsyntax-only", "-w", "-fno-access-control", "-Xclang", "-fdump-record-layouts", "-I" + T.src, "-I" + os.path.join(VERIF, "witness"), "-I/usr/include/tirpc"]
            + ["-I" + i for i in incs] + ["-D" + d for d in defs] + [src], cwd=T.src)
    out = {}
    cur, lines = None, []
    for l in r.stdout.splitlines() + ["*** Dumping AST Record Layout"]:
        if l.startswith("*** Dumping"):
            if cur:
                out[cur[0]] = leaves(lines, cur[1])
            cur, lines = None, []
            continue
        m = re.match(r"\s*(\d+) \| (\s*)(.*)$", l)
        if m and not m.group(2):
            cur = [re.sub(r"^(class|struct|union) ", "", m.group(3)), 0]
            cur[0] = re.sub(r" \(empty\)$", "", cur[0])
            lines = []
        elif m and cur:
            lines.append((int(m.group(1)), len(m.group(2)), m.group(3)))
        m = re.search(r"sizeof=(\d+)", l)
        if m and cur:
            cur[1] = int(m.group(1))
    if not out:
        raise AnalysisBroken("no record layouts")
    return out


def bits(t):
    if t.endswith("*") or "*" in t or t.startswith(("size_t", "pointer", "unsigned long", "long", "std::size_t", "size_type", "difference_type", "uint64", "int64")):
        return 64
    if re.match(r"(_Bool|bool)\b", t):
        return 1
    if re.match(r"((un)?signed char|char)\b", t):
        return 8
    if re.match(r"(unsigned )?short\b", t):
        return 16
    if t == "double":
        return 64
    return 32


def leaves(lines, size):
    r = []
    path = []
    for k, (o, d, t) in enumerate(lines):
        path = path[:d // 2 - 1]
        m = re.match(r"(.*?) ?(\w+)$", t)
        named = m and not t.endswith(")")
        path.append(m.group(2) if named else "")
        inner = k + 1 < len(lines) and lines[k + 1][1] > d
        if inner or "vtable pointer" in t or t.endswith("(empty)") or not named:
            continue
        r.append((o, ".".join(p for p in path if p), bits(m.group(1))))
    return r
