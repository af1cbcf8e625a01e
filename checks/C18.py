#!/usr/bin/env python3
"""C18: every operation on an owning handle keeps the number of owners right and releases an object exactly when its last owner goes."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree
import core, ir, text, cont, ana

RULE = ("ownership analysis of each operation on the handles ref, poly and PtrStoreRef (compiled to LLVM IR from the working tree), for every way its handles can share objects, self-assignment and "
        "aliased values included: on every way out, normal or by exception, an object's count changes by as much as the number of handles owning it does, it is released exactly once if and only if none is left, "
        "it is not touched after its release, and no object is left without an owner")
P, Q, E = ("p", ("A", "P"), 0), ("p", ("A", "Q"), 0), ("p", ("A", "E"), 0)
NULL = cont.NULL
INSIDE = 64
# operation: (handles before, handles after a normal way out, arguments that are values of the owned class)
OPS = {
    "ctor": ("", "0", ""), "copy": ("1", "01", ""), "fromT": ("", "0", "1"), "dtor": ("0", "", ""), "asg": ("01", "01", ""), "asgT": ("0", "0", "1"),
    "arrow": ("0", "0", ""), "deref": ("0", "0", ""), "null": ("0", "0", ""), "swap": ("01", "01", ""), "stdswap": ("01", "01", ""), "alloc": ("1", "1", ""),
    "eq": ("01", "01", ""), "add0": ("0", "0", ""), "add1": ("0", "0", ""), "add2": ("0", "0", ""),
}


class Kind:
    def __init__(s, counted, item, count, bias):
        s.counted, s.item, s.count, s.bias = counted, item, count, bias


def initial(kind, op, ctor_arg):
    """the ways the handles and values of an operation can share objects: list of (handle contents, same handle, value)"""
    before, after, vals = OPS[op]
    r = []
    if len(before) == 0:
        hs = [((), False)]
    elif len(before) == 1:
        hs = [((NULL,), False), ((P,), False)]
    else:
        hs = [((NULL, NULL), False), ((P, NULL), False), ((NULL, P), False), ((P, Q), False), ((NULL,), True), ((P,), True)]
        if kind.counted:
            hs.append(((P, P), False))
        if op == "asg":
            hs += [((P, Q), None), ((P, NULL), None)]      # the second handle is a member of the object the first one owns
    for h, same in hs:
        if not vals:
            r.append((h, same, None))
        else:
            r.append((h, same, E))
            if P in h:
                r.append((h, same, P))       # the value is (part of) the object owned
    return r


def analyse(C, F, kind, op):
    before, after, vals = OPS[op]
    name = F.dem.split("(")[0]
    counter = [0]
    for h, same, val in initial(kind, op, None):
        def arg(j):
            return ("p", P[1], INSIDE) if same is None and j == 1 else ("p", ("H", 0 if same else j), 0)

        def init(W, st):
            for k, j in enumerate(before):
                x = h[0] if same else h[k]
                st.mem[(arg(int(j))[1], arg(int(j))[2] + kind.item)] = x
            for a in F.args:
                if str(a.idx) in before + after:
                    st.val[id(a)] = arg(a.idx)
                elif str(a.idx) in vals:
                    st.val[id(a)] = val
            if kind.counted:
                for p in (P, Q):
                    st.mem[(p[1], kind.count)] = ("u", ("c0", p[1]))

        def live(st, p, what):
            if p[0] == "p" and ("free", p[1]) in st.ev:
                cont.event(st, "uaf", p[1], what)

        def call(W, st, i, n):
            a = [W.v(st, o) for o in i.ops]
            b = cont.bare(n) if not n.startswith("virtual ") else n
            f = ana.fname(n)
            if n.startswith("operator new(") and "void*" not in n:
                st.seq += 1
                return ("p", ("A", "new", i.bb.idx, i.idx), 0)
            if n.startswith("operator delete(") or n.startswith("operator delete ("):
                if a[0] == NULL:
                    return None
                live(st, a[0], "released again")
                st.ev += (("free", a[0][1]),)
                return None
            if n.startswith("virtual "):
                live(st, a[0], "a virtual function of it is called")
                if i.ty == "void" and len(a) == 1:
                    live(st, a[0], "released again")
                    st.ev += (("free", a[0][1]),)
                    return None
                if i.ty == "ptr":
                    st.seq += 1
                    return ("p", ("A", "new", i.bb.idx, i.idx), 0)
                return None if i.ty == "void" else ("u", ("vc", n, a[0]))
            if n == "__dynamic_cast":
                return a[0]
            if re.match(r"w::(Part|Obj)::", b):
                for x in a:
                    live(st, x, "it is used")
                if f in ("Part", "Obj"):
                    st.ev += (("made", a[0][1]),)
                return None if i.ty == "void" else a[0]
            if b.startswith("classdesc::SimpleTypeTable"):
                return None
            return NotImplemented

        def mem(st, i, p, v):
            live(st, p, "its memory is " + ("read" if v is None else "written"))

        def done(kindof, st, i):
            if kindof == "exc":
                n = (i.cname() or "") if i.iscall else ""
                if re.search(r"::~|^operator delete", n) or n.startswith("virtual ") and i.ty == "void" and len(i.ops) == 1:
                    return                                  # destructors do not throw
            C.saw("ways through operations")
            how = "%s [%s]%s" % (name, ", ".join((["self"] if same else ["inside"] if same is None else []) + ["null" if x == NULL else x[1][1] for x in h] + (["value " + val[1][1]] if val else [])),
                                 " when an exception leaves it" if kindof == "exc" else "")
            own0 = [h[0]] if same and before else list(h)
            hs = after if kindof == "ret" else "".join(sorted(set(before) & set(after) | (set(before) if op == "dtor" else set())))
            if same:
                hs = hs[:1]
            own1 = [st.mem.get((arg(int(j))[1], arg(int(j))[2] + kind.item), ("u", "unset")) for j in hs]
            freed = [e[1] for e in st.ev if e[0] == "free"]
            w = core.where(i)
            for e in st.ev:
                if e[0] == "uaf":
                    C.ob("not-used-after", name, False, w, "%s: the object %s was released, then %s" % (how, obj(e[1]), e[2]))
            C.ob("released-once", name, len(freed) == len(set(freed)), w, "%s: an object is released twice" % how)
            for v in own1:
                C.ob("valid-owner", name, v == NULL or v[0] == "p" and v[1][0] == "A" and v[2] == 0 and v[1] != "E" and not (isinstance(v[1], tuple) and v[1][1] == "E"), w,
                     "%s: a handle is left holding %s" % (how, v[:2]))
            made = [e[1] for e in st.ev if e[0] == "made"]
            objs = {v[1] for v in own0 + own1 if v[0] == "p" and v != NULL} | set(freed)
            objs |= {k[0] for k in st.mem if k[0][:2] == ("A", "new")} | set(e for e in made if e[:2] == ("A", "new"))
            for o in objs:
                n0 = sum(v[:2] == ("p", o) for v in own0)
                n1 = sum(v[:2] == ("p", o) for v in own1)
                C.saw("objects followed")
                gone = o in freed
                fresh = o[:2] == ("A", "new")
                if not kind.counted or fresh:
                    if n1 + gone != 1 and not (fresh and not kind.counted and False):
                        C.ob("one-owner" if not kind.counted else "released-once", name, not (n1 == 0 and not gone), w, "%s: the object %s is left without an owner" % (how, obj(o)))
                        C.ob("one-owner" if not kind.counted else "released-once", name, not gone, w, "%s: the object %s is released although it is owned" % (how, obj(o)))
                        C.ob("one-owner" if not kind.counted else "count", name, kind.counted or n1 < 2, w, "%s: the object %s has two owners" % (how, obj(o)))
                    if kind.counted and fresh and n1 and not gone:
                        c = cont.off(st.norm(st.mem.get((o, kind.count), ("u", "unset"))))
                        C.ob("count", name, c == (None, n1 - kind.bias), w, "%s: a new object with %d owner(s) has the wrong count" % (how, n1))
                    continue
                # the number of owners before is c0+bias; at least those known
                c0, facts = ("u", ("c0", o)), list(cont.facts(st))
                lo, hi, eqs = n0 - kind.bias, 1 << 31, []
                for r, a, b, tr in facts:
                    (x, xc), (y, yc) = cont.off(a), cont.off(b)
                    if r == "eq" and {x, y} == {c0, None}:
                        k = yc - xc if x == c0 else xc - yc
                        eqs.append((k, tr))
                        if tr:
                            lo, hi = max(lo, k), min(hi, k)
                    elif r in ("slt", "sle") and {x, y} == {c0, None}:
                        if not tr:
                            x, xc, y, yc, r = y, yc, x, xc, "sle" if r == "slt" else "slt"
                        k = 0 if r == "sle" else 1
                        if x == c0:                         # c0 + xc + k <= yc
                            hi = min(hi, yc - xc - k)
                        else:                               # xc + k <= c0 + yc
                            lo = max(lo, xc + k - yc)
                while (lo, False) in eqs:
                    lo += 1
                while (hi, False) in eqs:
                    hi -= 1
                if lo > hi:
                    continue                                # fewer owners than are there
                d = n1 - n0
                last = -d - kind.bias                       # value of the count for which nobody owns it afterwards
                if gone:
                    ok = lo == hi == last and n1 == 0
                    C.ob("released-once", name, ok, w, "%s: the object %s is released although it may have other owners" % (how, obj(o)))
                else:
                    c = cont.off(st.norm(st.mem.get((o, kind.count), ("u", "unset"))))
                    known = [k for k, tr in eqs if tr]
                    want = (c0, d) if not known or c[0] == c0 else (None, known[0] + d)
                    C.ob("count", name, c == want, w, "%s: the count of %s changes by %s, the number of its owners by %d" % (how, obj(o), c[1] if c[0] == c0 else "?", d))
                    if d < 0 and n1 == 0:
                        C.ob("released-once", name, not lo <= last <= hi or (last, False) in eqs, w, "%s: the last owner of %s goes and it is not released" % (how, obj(o)))
        text.Walk(F, call=call, init=init, on_mem=mem, on_ret=lambda s, i, v: done("ret", s, i), on_exc=lambda s, i: done("exc", s, i), on_throw=lambda s, i: done("exc", s, i))


def obj(o):
    return {"P": "held by the first handle", "Q": "held by the second handle", "E": "given", "new": "made here"}.get(o[1], str(o))


def field(F):
    """offsets of the loads from the first argument and, from what it holds, of the count"""
    a = b = None
    for i in F.insts():
        if i.op == "load":
            p = i.ops[0]
            off, base = 0, p
            while base.kind == "inst" and base.op == "gep":
                off += base.off or 0
                base = base.ops[0]
            if base.kind == "arg" and i.ty == "ptr":
                a = off
            elif base.kind == "inst" and base.op == "load" and i.ty == "i32":
                b = off
    return a, b


def run():
    C = core.Check("C18", RULE, trusted=("destructors do not throw", "clone() returns a new object", "the handles are not used by several threads"))
    T = Tree()
    stds = ("c++98", "c++17") + (("c++11", "c++20") if C.thorough else ())
    bcs = T.compile_many([(("w_own.cc",), dict(std=s, defs=("TR1", "HAVE_LONGLONG"), extra=("-flto", "-fwhole-program-vtables"))) for s in stds])
    for std, bc in zip(stds, bcs):
        M = ir.load(bc, T, inline=lambda d, f, n: (not f.startswith("/usr") or "std::swap" in d or "std::move" in d or "operator new(unsigned long, void*)" in d) and f != "" and not cont.bare(d).startswith("classdesc::SimpleTypeTable"),
                    roots=lambda d, f, n: d.startswith(("w_", "f_")))
        fs = {F.dem.split("(")[0]: F for F in M.defs() if F.dem.startswith(("w_", "f_"))}
        ritem, rcount = field(fs["f_count"])
        kinds = {"ref": Kind(True, ritem or 0, rcount, 0), "poly": Kind(False, field(fs["f_pnull"])[0] or 0, None, 0), "store": Kind(True, 0, 8, 1)}
        for n, F in sorted(fs.items()):
            m = re.match(r"w_(ref|poly|store)_(\w+)$", n)
            if not m:
                continue
            if (m.group(1), m.group(2)) == ("store", "ctor"):
                continue
            C.saw("operations", F.dem)
            analyse(C, F, kinds[m.group(1)], m.group(2))
    C.floor("operations", 27 * len(stds))
    C.floor("ways through operations", 100 * len(stds))
    C.floor("objects followed", 100 * len(stds))
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C18", RULE)
