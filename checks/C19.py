#!/usr/bin/env python3
"""C19: multi-dimensional array wrappers map index tuples to distinct elements in bounds."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree, BuildFailure, AnalysisBroken
import core, ir

RULE = ("the address each way of indexing MultiArray yields is extracted from the optimised IR as a polynomial in the indices and the dimensions; it must be the mixed radix number of the indices in the extents "
        "that size() reports at each level (so distinct tuples give distinct elements, all within the product of the extents), the same for reading, writing, slicing and iterating; constructing divides by no extent")
PASSES = "always-inline,globaldce,default<O1>"
ELEMS = ["int", "char", "double"]
IX = "ijklm"


class P(dict):
    """polynomial: {sorted tuple of atoms: coefficient}"""

    def __init__(s, *a):
        dict.__init__(s, *a)
        for k in [k for k, v in s.items() if v % (1 << 64) == 0]:
            del s[k]

    def __add__(s, o):
        r = dict(s)
        for k, v in o.items():
            r[k] = r.get(k, 0) + v
        return P(r)

    def __mul__(s, o):
        r = {}
        for a, x in s.items():
            for b, y in o.items():
                k = tuple(sorted(a + b))
                r[k] = r.get(k, 0) + x * y
        return P(r)

    def scale(s, n):
        return P({k: v * n for k, v in s.items()})

    def __str__(s):
        sg = lambda v: v - (1 << 64) if v % (1 << 64) >> 63 and v > 0 else v
        return " + ".join(("%d*" % sg(v) if sg(v) != 1 or not k else "") + "*".join(k) for k, v in sorted(s.items())) or "0"


def C(n):
    return P({(): n})


def atom(n):
    return P({(n,): 1})


def same(a, b):
    return not P({k: v for k, v in (a + b.scale(-1)).items()})


def poly(v, depth=60):
    if v.kind == "const":
        return C(v.s)
    if v.kind == "null":
        return C(0)
    if v.kind == "arg":
        return atom(v.name)
    if v.kind == "inst" and depth:
        o = [poly(x, depth - 1) for x in v.ops] if v.op in ("add", "sub", "mul", "shl", "or") else None
        if v.op == "add":
            return o[0] + o[1]
        if v.op == "sub":
            return o[0] + o[1].scale(-1)
        if v.op == "mul":
            return o[0] * o[1]
        if v.op == "shl" and v.ops[1].kind == "const":
            return o[0].scale(1 << v.ops[1].s)
        if v.op in ("zext", "sext", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            return poly(v.ops[0], depth - 1)
        if v.op == "gep":
            r = poly(v.ops[0], depth - 1) + C(v.off)
            for x, s in v.var:
                r = r + poly(x, depth - 1).scale(s)
            return r
        if v.op == "phi" or v.op == "select":
            alts = [poly(x, depth - 1) for x in (v.ops[1:] if v.op == "select" else [x for x in v.ops])]
            if alts and all(same(a, alts[0]) for a in alts):
                return alts[0]
    return atom("?%s:%s" % (v.kind, v.op + "#%d.%d" % (v.bb.idx, v.idx) if v.kind == "inst" else ""))


# ---- witness
def gen(R, elem):
    """functions and what each must yield"""
    D = ["d%d" % r for r in range(R)]
    I = list(IX[:R])
    out, want = [], []
    dims = ",".join("size_t " + d for d in D)
    pars = "%s* p,%s,%s" % (elem, dims, ",".join("size_t " + i for i in I))
    makes = {"args": "classdesc::MultiArray<%s,%d> a(p,%s);" % (elem, R, ",".join(D)),
             "dims": "const size_t d[]={%s}; classdesc::MultiArray<%s,%d> a(p,d);" % (",".join(D), elem, R),
             "copy": "classdesc::MultiArray<%s,%d> b(p,%s), a(b);" % (elem, R, ",".join(D)),
             "assigned": "classdesc::MultiArray<%s,%d> b(p,%s), a(0,%s); a=b;" % (elem, R, ",".join(D), ",".join(["1"] * R))}
    sub = lambda n: "".join("[%s]" % i for i in I[:n])

    def fn(what, ret, body, kind, arg=None):
        n = "w%d_%d" % (R, len(want))
        out.append('extern "C" %s %s(%s) {%s}' % (ret, n, pars, body))
        want.append((n, what, kind, arg))
    for mk, decl in makes.items():
        fn("a[..] for writing, made from " + mk, elem + "*", decl + " return &a%s;" % sub(R), "at")
        fn("a[..] for reading, made from " + mk, "const %s*" % elem, decl + " const classdesc::MultiArray<%s,%d>& c=a; return &c%s;" % (elem, R, sub(R)), "at")
        for r in range(R):
            fn("extent %d, made from %s" % (r, mk), "size_t", decl + " return a%s.size();" % sub(r), "extent", r)
            fn("constant extent %d, made from %s" % (r, mk), "size_t", decl + " const classdesc::MultiArray<%s,%d>& c=a; return c%s.size();" % (elem, R, sub(r)), "extent", r)
    for mk in ("args", "dims"):
        for cst in (False, True):
            decl = makes[mk] + (" const classdesc::MultiArray<%s,%d>& c=a;" % (elem, R) if cst else " classdesc::MultiArray<%s,%d>& c=a;" % (elem, R))
            ret = "const %s*" % elem
            lab = ("constant " if cst else "") + "iteration, made from " + mk
            # through iterators at the first level, then subscripts
            rest = "".join("[%s]" % i for i in I[1:])
            star = "(*x)%s" % rest
            fn(lab + ": begin+i", ret, decl + " auto x=c.begin(); x+=i; return &%s;" % star, "at")
            fn(lab + ": after ++", ret, decl + " auto x=c.begin(); x+=i; ++x; return &%s;" % star, "step", 1)
            fn(lab + ": after +++", ret, decl + " auto x=c.begin(); x+=i; x++; return &%s;" % star, "step", 1)
            fn(lab + ": x++ gives", ret, decl + " auto x=c.begin(); x+=i; auto y=x++; return &(*y)%s;" % rest, "step", 0)
            fn(lab + ": ++x gives", ret, decl + " auto x=c.begin(); x+=i; auto y=++x; return &(*y)%s;" % rest, "step", 1)
            fn(lab + ": after --", ret, decl + " auto x=c.begin(); x+=i; --x; return &%s;" % star, "step", -1)
            fn(lab + ": after ---", ret, decl + " auto x=c.begin(); x+=i; x--; return &%s;" % star, "step", -1)
            fn(lab + ": x-- gives", ret, decl + " auto x=c.begin(); x+=i; auto y=x--; return &(*y)%s;" % rest, "step", 0)
            fn(lab + ": end", ret, decl + " auto x=c.end(); return &%s;" % star, "end")
            fn(lab + ": equality", "bool", decl + " auto x=c.begin(), y=c.begin(); x+=i; y+=d0; return x==y;", "eq", True)
            fn(lab + ": inequality", "bool", decl + " auto x=c.begin(), y=c.begin(); x+=i; y+=d0; return x!=y;", "eq", False)
            # iterators all the way down
            b = "auto x0=c.begin(); x0+=i;"
            for r in range(1, R):
                b += " auto x%d=(*x%d).begin(); x%d+=%s;" % (r, r - 1, r, I[r])
            fn(lab + ": nested", ret, decl + " %s return &*x%d;" % (b, R - 1), "at")
    return "\n".join(out), want


def judge(Ck, M, R, elem, want, std):
    size = {"int": 4, "char": 1, "double": 8}[elem]
    lab = "MultiArray<%s,%d> (%s): " % (elem, R, std)

    def ret(n):
        F = M.funcs.get(n)
        if F is None or not F.blocks:
            raise AnalysisBroken("witness function %s not found" % n)
        r = [b.term.ops[0] for b in F.blocks if b.term.op == "ret" and b.term.ops]
        return F, r
    # what size() says
    if any(calls_itself(i) for n, *_ in want for i in ret(n)[0].insts()):
        for n, what, kind, arg in want:
            Ck.saw("ways of indexing", what)
            Ck.saw("addresses")
            Ck.saw("addresses not decided (computed by a recursion)", lab + what)
        return
    ext = {}
    for n, what, kind, arg in want:
        if kind == "extent" and what.startswith("extent") and "made from args" in what:
            F, r = ret(n)
            ext[arg] = poly(r[0]) if len(r) == 1 else atom("?")
    dims = {tuple(("d%d" % r,)) for r in range(R)}
    Ck.ob("extents-are-the-dimensions", lab + "size()", sorted(map(str, ext.values())) == ["d%d" % r for r in range(R)], "multiArray.h",
          "the extents reported are " + ", ".join("%d: %s" % x for x in sorted(ext.items())))
    at = lambda step=0: _at(ext, R, size, step)
    for n, what, kind, arg in want:
        F, rs = ret(n)
        Ck.saw("ways of indexing", what)
        if any(i.op in ("udiv", "sdiv", "urem", "srem") and i.ops[1].kind != "const" for i in F.insts()):
            Ck.bad("no-division", lab + what, "multiArray.h", "divides by a run time quantity: an extent of zero ends the program")
            continue
        if kind == "eq":
            ok, why = equality(rs, arg, ext, R, size)
            Ck.ob("iterators-compare", lab + what, ok, "multiArray.h", why)
            continue
        got = [poly(r) for r in rs]
        if kind == "at":
            w = at()
        elif kind == "step":
            w = at(arg)
        elif kind == "end":
            w = _at(ext, R, size, 0, ext[0])
        else:
            w = ext[arg]
        Ck.saw("addresses")
        Ck.ob("mixed-radix" if kind in ("at", "step", "end") else "extents-agree", lab + what, got and all(same(g, w) for g in got), "multiArray.h",
              "yields %s instead of %s" % (" or ".join(map(str, got)) or "nothing", w))


def calls_itself(i):
    """a call that could not be put in place, of a function that got to itself again: what it yields is not a fixed expression"""
    G = i.callee if i.iscall and i.callee is not None and i.callee.kind == "func" else None
    return G is not None and bool(G.blocks)


def _at(ext, R, size, step, first=None):
    r = C(0)
    for k in range(R):
        x = atom(IX[k])
        if k == 0:
            x = first if first is not None else x + C(step)
        for j in range(k + 1, R):
            x = x * ext[j]
        r = r + x
    return r.scale(size) + atom("p")


def equality(rs, want_eq, ext, R, size):
    """the result compares i*stride with d0*stride, both scaled alike"""
    if len(rs) != 1:
        return False, "more than one result"
    v = rs[0]
    neg = False
    while v.kind == "inst" and v.op in ("zext", "trunc", "xor", "freeze"):
        if v.op == "xor":
            neg = not neg
        v = v.ops[0]
    if v.kind != "inst" or v.op != "icmp" or v.pred not in ("eq", "ne"):
        return False, "not a comparison of positions"
    d = poly(v.ops[0]) + poly(v.ops[1]).scale(-1)
    stride = C(1)
    for j in range(1, R):
        stride = stride * ext[j]
    diff = (atom("i") + atom("d0").scale(-1)) * stride
    ok = any(same(d, diff.scale(s)) for s in (1, -1, size, -size))
    if not ok:
        return False, "compares %s" % d
    if ((v.pred == "eq") != neg) != want_eq:
        return False, "has the opposite sense"
    return True, ""


def run():
    Ck = core.Check("C19", RULE, ["clang's optimiser preserves the address computed", "the element count fits size_t"])
    T = Tree(need_cds=False)
    ranks = range(1, 5) if not Ck.thorough else range(1, 6)
    jobs = []
    for std in ("c++11", "c++17", "c++20") if not Ck.thorough else ("c++11", "c++14", "c++17", "c++20"):
        for elem in ELEMS:
            for R in ranks:
                if not Ck.thorough and elem != "int" and R != 3:
                    continue
                text, want = gen(R, elem)
                nm = "w_ma_%s_%d.cc" % (elem, R)
                with open(os.path.join(T.src, nm), "w") as f:
                    f.write('#include <cstddef>\n#include <cstring>\n#include <iterator>\n#include "classdesc.h"\n#include "multiArray.h"\n' + text + "\n")
                jobs.append((nm, std, elem, R, want))
    bcs = T.compile_many([((os.path.join(T.src, nm),), dict(std=std, extra=("-DNDEBUG",))) for nm, std, elem, R, want in jobs])
    for (nm, std, elem, R, want), bc in zip(jobs, bcs):
        M = ir.load(bc, T, inline=lambda d, f, n: True, roots=lambda d, f, n: re.match(r"w\d+_\d+$", n), passes=PASSES)
        judge(Ck, M, R, elem, want, std)
    Ck.floor("ways of indexing", 100)
    Ck.floor("addresses", 100)
    return Ck.finish()


if __name__ == "__main__":
    core.main(run, "C19", RULE)
