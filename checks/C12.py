#!/usr/bin/env python3
"""C12: generated descriptors visit the bases and members of a class, each once, in order."""
import os, re, sys
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree, BuildFailure, AnalysisBroken, VERIF
import core, ir, ana, descforms

RULE = ("the descriptors the working tree's processor emits for each form of class definition are type-checked and compiled to LLVM IR; on the way through a descriptor's operator() the calls of the descriptor are, in order, "
        "the bases by type and the members by literal name and by address (the byte offset of that member according to the compiler, or that static object or function), each exactly once and no others")
OPTS = {"all": "", "public": "-respect_private", "pointers": "-use_mbr_pointers", "onbase": "-onbase", "names": "-typeName", "overload": "-overload"}
NTU = 8
DESC = os.path.join(VERIF, "witness", "desc")


class W:
    """one described class"""

    def __init__(s, name, body, ents, bases=(), pre="", head=("struct", ""), where="wt", inst=None, ctor="", label=""):
        s.name, s.body, s.ents, s.bases, s.pre, s.head, s.inst, s.label = name, body, ents, list(bases), pre, head, inst or name, label
        s.where = where


def sub(text, ents, tag):
    return text.replace("$", tag), [(k, n.replace("$", tag)) for k, n in ents]


def section(ents, acc):
    """entries with the access in force outside them"""
    mark = {"public": "", "protected": "#", "private": "-"}[acc]
    return [(k, n if n[0] in "#-" else mark + n) for k, n in ents]


def compose(name, forms, head=("struct", "", ()), **kw):
    acc = "private" if head[0].startswith("class") else "public"
    body, ents = [], []
    explicit = False
    for k, (t, e, after) in enumerate(forms):
        t, e = sub(t.replace("@", name), e, "pqrs"[k])
        if re.match(r"(public|protected|private):", t):
            body.append(t)
            ents += e
        else:
            body.append(t)
            ents += section(e, acc)
        if after:
            acc = after
    ents += section([("M", "tail")], acc)
    w = W(name, "\n".join(body) + "\nint tail;\n", ents, bases=head[2], head=head[:2], label=" | ".join(([" ".join(head[:2])] if head[2] or " " in head[0] else []) + [f[0].replace("\n", "\\n") for f in forms]), **kw)
    w.parts = forms
    return w


def cases(thorough):
    F = descforms.FORMS
    r, n = [], 0
    carry = [i for i, f in enumerate(F) if f[0].startswith((
        "static const int a$=3", "private: enum E$", "struct N$ {int q;} a$", "enum E$ {aa$", "friend void ff@", "std::function<int(int)> a$=[]", "typedef std::map",
        "template <class T> void f$", "int a$[3]={1,2,3}", "const int a$=1; static int b$", "int a$; private: int b$"))]
    assert len(carry) == 11, len(carry)
    for i, f in enumerate(F):
        r.append(compose("C%d" % n, [f]))
        n += 1
        r.append(compose("C%d" % n, [f], head=("class", "", ())))
        n += 1
    for i in range(len(F)):
        for j in range(len(F)):
            if i == j and "operator!" in F[i][0]:
                continue
            r.append(compose("C%d" % n, [F[i], F[j]]))
            n += 1
    if thorough:
        for i in carry:
            for j in range(len(F)):
                for k in carry:
                    r.append(compose("C%d" % n, [F[i], F[j], F[k]], head=("class" if (i + j + k) % 2 else "struct", "", ())))
                    n += 1
    for k, h in enumerate(descforms.HEADS):
        for f in (F[0], F[1]) + ((F[30], F[60]) if k < 4 else ()):
            r.append(compose("H%d" % n, [f], head=h))
            n += 1
    for c in descforms.CTORS:
        for f in (F[0], F[31]):
            nm = "K%d" % n
            base = ("struct", ": Base2", ("Base2",)) if "Base(" in c else ("struct", "", ())
            w = compose(nm, [(c.replace("$", nm).replace("Base(", "Base2(") + " int x; int y;", [("M", "x"), ("M", "y")], None), f], head=base)
            r.append(w)
            n += 1
    return r


# ---- witness text
def header(ws, special=False):
    out = ["namespace wt {"]
    for w in ws:
        out.append("%s %s%s {%s};" % (w.head[0], w.name, w.head[1], w.body))
    out.append("}")
    if special:
        out.append(descforms.SPECIAL)
    return "\n".join(out)          # nothing follows the last token


def source(ws, hdr, cd, opt, special=False):
    out = ['#include "desc/prelude.h"', '#include "desc/wd_base.h"', "namespace wt {using namespace std;}", '#include "%s"' % hdr, '#include "%s"' % cd, ""]
    names = [(w.name, "wt::" + w.inst, w) for w in ws] + ([(k, t, W(k, "", e, bases=b)) for k, t, b, e in descforms.SPECIALS] if special else [])
    for nm, ty, w in names:
        out.append("extern \"C\" void use_%s(classdesc::wd_t& t, const classdesc::string& d, %s& c) {classdesc_access::access_wd<%s>()(t,d,c);}" % (nm, ty, ty))
        vals = []
        for k, n in w.ents:
            n = n.lstrip("#-")
            if k in ("M", "A"):
                vals.append("__builtin_offsetof(%s,%s)" % (ty, n))
                vals.append("sizeof(%s::%s)" % (ty, n))
        out.append("extern const unsigned long want_%s[]={%s};" % (nm, ",".join(["sizeof(%s)" % ty] + vals)))
    return "\n".join(out) + "\n", names


# ---- analysis of one descriptor
def way(F):
    """calls along the only normal way through, None if there is a choice"""
    r, b, seen = [], F.blocks[0], set()
    while True:
        if b in seen:
            return None
        seen.add(b)
        r += [i for i in b.insts if i.iscall]
        s = ana.succs(b)
        if len(s) > 1:
            return None
        if not s:
            return r
        b = s[0]


def literal(v):
    v, off, var = ana.strip(v)
    if v.kind == "global" and v.init is not None and not var and off == 0:
        return v.string
    return None


def visits(F):
    """[(sink, demangled call, name or None, operands)]"""
    calls = way(F)
    if calls is None:
        return None
    made, r = {}, []
    for i in calls:
        n = i.cname() or ""
        if "operator+" in n and len(i.ops) >= 3:
            t = ana.strip(i.ops[0])[0]
            src, off, var = ana.strip(i.ops[1])
            made[t] = literal(i.ops[2]) if src is F.args[1] and not off and not var else None
            continue
        m = re.match(r"void w_(\w+)<(.*)>\(|void w_(\w+)<", n)
        if not m:
            continue
        kind = m.group(1) or m.group(3)
        r.append((kind, n, made.get(ana.strip(i.ops[0])[0]), i))
    return r


def expected(w, opt):
    keep = []
    for k, n in w.ents:
        if n[0] in "#-" and opt == "public":
            continue
        if k == "OF" and opt != "overload":
            continue
        keep.append((k, n.lstrip("#-")))
    return keep


def targ(dem):
    m = re.match(r"void w_\w+<(.*)$", dem)
    s, d = m.group(1), 0
    for k, c in enumerate(s):
        if c in "<(":
            d += 1
        elif c in ")" or c == ">" and (k == 0 or s[k - 1] != "-"):
            if d == 0:
                return s[:k]
            d -= 1
    return s


def basekey(t):
    return re.sub(r"\s|wt::|std::|__cxx11::|,std::allocator<[^<>]*>|>", "", t).split("<int,V")[0]


def judge(nm, ty, w, M, opt):
    """[(ok, rule, why)]"""
    F = M.funcs.get("use_" + nm)
    if F is None or not F.blocks:
        return [(False, "described", "no descriptor is emitted for it")]
    v = visits(F)
    if v is None:
        return [(False, "every-way", "what the descriptor visits depends on the object")]
    g = M.globals.get("want_" + nm)
    init = g.init
    want = [x.s for x in init.ops] if init is not None and hasattr(init, "ops") and init.ops else [init.s if init is not None and init.kind == "const" else 0]
    res, at = [], 1
    exp = expected(w, opt)
    offs = {}
    for k, n in w.ents:
        n = n.lstrip("#-")
        if k in ("M", "A"):
            offs[n] = (want[at], want[at + 1])
            at += 2
    # bases first
    bases = [b.lstrip("-") for b in w.bases if not (opt == "public" and b[0] == "-")]
    nb = len(bases)
    gotb = v[:nb]
    for b, t in zip(gotb, bases):
        x = targ(b[1])
        sink = "base" if opt == "onbase" else "member"
        ok = b[0] == sink and same(x, t) and (b[2] == "" or b[2] is None and isdesc(b[3].ops[0], F))
        res.append((ok, "bases", "base %s is not visited as itself (visited %s %s)" % (t, b[0], x)))
    if len(gotb) < nb:
        res.append((False, "bases", "base %s is not visited" % bases[len(gotb)]))
    got = v[nb:]
    names = [x[2] for x in got]
    en = ["." + n for _, n in exp]
    if names != en:
        miss = [n for n in en if n not in names]
        extra = [str(n) for n in names if n not in en]
        twice = [n for n in set(en) if names.count(n) > en.count(n)]
        res.append((False, "each-once", "members visited are not those declared: " + "; ".join(
            (["not visited: " + " ".join(miss)] if miss else []) + (["visited though not to be described: " + " ".join(extra)] if extra else []) +
            (["visited again: " + " ".join(twice)] if twice else []) or ["out of order: " + " ".join(map(str, names))])))
        return res
    res.append((True, "each-once", ""))
    for (kind, dem, name, i), (k, n) in zip(got, exp):
        try:
            ok = itself(kind, dem, i, k, n, ty, offs, F, opt)
        except (IndexError, AttributeError):
            ok = False
        res.append((ok, "itself", "member %s is visited as something else (%s)" % (n, kind)))
    return res


def isdesc(v, F):
    return ana.strip(v)[0] is F.args[1]


def same(x, t):
    return basekey(x) == basekey(t)


def func_of(v):
    for _ in range(6):
        if v.kind == "global" or v.kind == "func":
            return v.name
        if getattr(v, "ops", None):
            v = v.ops[0]
        else:
            return None
    return None


def itself(kind, dem, i, k, n, ty, offs, F, opt):
    ops = i.ops
    if k in ("M", "A"):
        off, size = offs[n]
        if opt == "pointers" and k == "M":
            return kind == "pointer" and ana.strip(ops[1])[0] is F.args[2] and ops[2].kind in ("const", "null") and getattr(ops[2], "s", 0) == off
        b, o, var = ana.strip(ops[1])
        if not (b is F.args[2] and o == off and not var):
            return False
        if k == "M":
            return kind == "member"
        ext = [x.s for x in ops[4:] if x.kind == "const"]
        p = 1
        for x in ext:
            p *= x
        return kind == "array" and ops[3].kind == "const" and ops[3].s == len(ext) == len(ops) - 4 and ops[2].kind == "const" and ops[2].s * p == size
    if k == "K":
        return kind == "constant"
    fn = func_of(ops[1] if kind in ("member", "array", "function") else ops[2]) if len(ops) > 1 else None
    d = ir.demangle(fn) if fn else ""
    tail = "::%s" % n
    owner = ty.split("<")[0].split("::")[-1]
    if k in ("S", "SA"):
        return d.endswith(tail) and owner in d and kind == ("pointer" if opt == "pointers" and k == "S" else "array" if k == "SA" else "member")
    if k in ("F", "SF", "OF"):
        if kind == "method" and fn is None and ops[2].kind == "const":        # virtual: its place in the table
            return True
        return (tail + "(") in d and kind == ("function" if k == "SF" else "method")
    return False


def describe(T, h, out, opt):
    import prep, subprocess
    try:
        r = prep.run([T.tool(), "-I", T.src, "-nodef"] + OPTS[opt].split() + ["-i", h, "wd"], cwd=T.src, timeout=60, check=False)
    except subprocess.TimeoutExpired:
        return "the processor does not finish on the definitions"
    if r.returncode:
        return "the processor fails on the definitions (status %d): %s" % (r.returncode, r.stderr[-200:])
    with open(os.path.join(T.src, out), "w") as f:
        f.write(r.stdout)
    return None


def tu(a):
    src, opt, ws, k, special, repo = a
    T = Tree.__new__(Tree)
    T.src, T.dir, T.out, T.have_cds = src, os.path.dirname(src), os.path.join(os.path.dirname(src), "out"), True
    base = "c12_%s_%d" % (opt, k)
    res = []
    while True:
        h = os.path.join(T.src, base + ".h")
        with open(h, "w") as f:
            f.write(header(ws, special))
        err = describe(T, h, base + ".cd", opt)
        if err:
            return [("module %s" % base, False, "describes", err)], 0
        text, names = source(ws, base + ".h", base + ".cd", opt, special)
        cc = os.path.join(T.src, base + ".cc")
        with open(cc, "w") as f:
            f.write(text)
        try:
            bc = T.compile(cc, std="c++17", incs=(DESC,), extra=("-ferror-limit=0",))
            break
        except BuildFailure as e:
            # which class is it
            bad = blame(T, cc, base, ws, names)
            if not bad:
                return [("module %s" % base, False, "compiles", e.err)], 0
            for w, err in bad:
                res.append((w.label + " (" + opt + ")", False, "compiles", err))
            ws = [w for w in ws if w not in [b for b, _ in bad]]
            if len(res) > 40 or not ws:
                return res, 0
    M = ir.load(bc, T, inline=lambda d, f, n: not d.startswith("void w_") and "operator+" not in d and "basic_string" not in d.split("(")[0], roots=lambda d, f, n: n.startswith("use_"))
    nv = 0
    for nm, ty, w in names:
        lab = (w.label or ty) + " (" + opt + ")"
        for ok, rule, why in judge(nm, ty, w, M, opt):
            res.append((lab, ok, rule, why))
        nv += 1
    return res, nv


def blame(T, cc, base, ws, names):
    r = compile_errors(T, cc)
    cd = open(os.path.join(T.src, base + ".cd")).read().split("\n")
    ccl = open(cc).read().split("\n")
    byname = {w.name: w for w in ws}
    bad = {}
    for f, line, msg in r:
        txt = None
        if f.endswith(".cd"):
            l = line - 1
            while l >= 0 and "struct access_wd<" not in cd[l]:
                l -= 1
            txt = cd[l] if l >= 0 else ""
        elif f.endswith(".cc"):
            txt = ccl[line - 1]
        m = re.search(r"\b([CHK]\d+)\b", txt or "")
        if m and m.group(1) in byname:
            bad.setdefault(m.group(1), msg)
    return [(byname[n], m) for n, m in bad.items()]


def compile_errors(T, cc):
    import prep
    cmd = [prep.CLANGXX, "-std=c++17", "-fsyntax-only", "-w", "-fno-access-control", "-ferror-limit=0", "-I" + T.src, "-I" + os.path.join(prep.VERIF, "witness"), "-I" + DESC, cc]
    r = prep.run(cmd, cwd=T.src, check=False)
    return [(a, int(b), c) for a, b, c in re.findall(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stderr, re.M)]


def run():
    C = core.Check("C12", RULE, ["clang's layout and overload resolution", "the enumerated forms stand for the grammar"])
    T = Tree(need_cds=False)
    T.tool()
    allw = cases(C.thorough)
    jobs = []
    for opt in OPTS:
        ws = [w for w in allw if len(w.parts) < (4 if opt == "all" else 3 if C.thorough or opt == "public" else 2)]
        if opt == "overload":       # takes the return type from the declarator: one to a declaration
            ws = [w for w in ws if not any("), a$" in p[0] for p in w.parts)]
        n = max(1, min(NTU, len(ws) // 60) if not C.thorough else len(ws) // 500)
        for k in range(n):
            jobs.append((T.src, opt, ws[k::n], k, k == 0, None))
    with ProcessPoolExecutor(8) as ex:
        for (job, (res, nv)) in zip(jobs, ex.map(tu, jobs)):
            C.counts["classes described"] = C.counts.get("classes described", 0) + nv
            for lab, ok, rule, why in res:
                C.ob(rule, lab, ok, "classdesc.cc", why)
                if rule == "itself":
                    C.saw("members visited")
    for f in descforms.FORMS:
        C.saw("forms of member declarations", f[0])
    C.floor("classes described", 1000)
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C12", RULE)
