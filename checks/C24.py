#!/usr/bin/env python3
"""C24: comparing buffers, or objects through their packed form, is one consistent total order."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree, AnalysisBroken
import core, ir, ana, buf
from ana import strip
from buf import sub, addl, show
from pathlin import Walk, canon, width

RULE = ("every way through cmp returns exactly -1, 0 or 1, and 0 only where both sizes and all bytes are known equal, -1/1 only where the first difference (size, then bytes) has that sense, "
        "from one memcmp over the common size of the two buffers' data; each comparison operator, and deepCmp/deepEq, evaluates to its truth table over cmp's three outcomes with the operands "
        "in order; the deep comparisons pack each operand exactly once into its own fresh buffer")
M32 = (1 << 32) - 1


def s32(x):
    x &= M32
    return x - (1 << 32) if x >> 31 else x


class Ev(Walk):
    """follow a function, knowing the signs of certain 32 bit results"""

    def __init__(self, F, on_inst):
        self.ends = []
        Walk.__init__(self, F, on_inst, self.end)

    def end(self, st, t):
        v = t.ops[0] if t.ops else None
        if v is None:
            return
        if v.ty == "i1" and v.kind == "inst":
            r = set(b for b in (True, False) if any(all(self.assume(s2, c, x) for c, x in alt) for alt in buf.dnf(v, b) for s2 in [st.fork()]))
        else:
            e = st.lin(v)
            ks = [k for k in e if k and e[k]]
            r = {s32(e.get("", 0))} if not ks else {show(e)}
            if v.kind == "const" and v.width == 1:
                r = {bool(v.v & 1)}
        self.ends.append((st, t, r))

    def assume(self, st, c, tr, d=3):
        if c.kind == "inst" and c.op == "icmp" and (c.pred == "ne") == tr and c.pred in ("eq", "ne"):
            x = sub(st.lin(c.ops[0]), st.lin(c.ops[1]))
            st.tag["differ"] = st.tag.get("differ", frozenset()) | {canon(x), canon(sub({}, x))}
        if c.kind == "inst" and c.op == "icmp" and width(c.ops[0].ty if c.ops[0].kind == "inst" else "i64") == 32:
            p = c.pred if tr else ir.NEG[c.pred]
            x, y = [st.lin(o) for o in c.ops]
            if not [k for k in x if k and x[k]] and not [k for k in y if k and y[k]]:
                a, b = s32(x.get("", 0)), s32(y.get("", 0))
                if p[0] == "u":
                    a, b = a & M32, b & M32
                return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p if len(p) == 2 else p[1:]]
        return Walk.assume(self, st, c, tr, d)


def cmp_method(C, F, fl):
    q = re.sub(r"^classdesc::", "", F.dem)
    C.saw("comparison functions", q)
    a0, a1 = {"a0": 1}, {"a1": 1}

    def on_inst(st, i, c):
        n = i.cname() if i.iscall else ""
        if n in ("memcmp", "bcmp", "__builtin_memcmp"):
            p, r = [st.mod(o) for o in i.ops[:2]]
            d = [st.load(addl(x, {"": fl["data"]}), "ptr")[0] for x in (a0, a1)]
            s = [st.load(addl(x, {"": fl["size"]}), "i64")[1] for x in (a0, a1)]
            o = 1 if canon(p) == canon(d[0]) and canon(r) == canon(d[1]) else -1 if canon(p) == canon(d[1]) and canon(r) == canon(d[0]) else 0
            l = st.lin(i.ops[2])
            C.ob("compares-the-data", q, o != 0, core.where(i), "the bytes compared aren't those of the two buffers")
            C.ob("compares-all-data", q, st.same(l, s[0]) and st.same(l, s[1]), core.where(i), "not all of the data is compared, or more than there is")
            # memcmp only promises the sign of its result, bcmp only whether it is zero
            st.val[id(i)] = ({"": c & M32},) * 2
            st.tag["memcmp"] = o * ((c > 0) - (c < 0)) if n != "bcmp" or not c else None
            C.saw("byte comparisons", q)
            return True
        return None
    # bytes compared one by one: which is the first to differ is not followed, only that they are taken as memcmp takes them
    byte = lambda v: v.kind == "inst" and (v.op == "load" and v.ty == "i8" or v.op in ("sext", "zext", "freeze") and byte(v.ops[0]))
    own = [i for h, body in F.loops() for b in body for i in b.insts if i.op == "load" and i.ty == "i8"]
    if own and not any(i.iscall and (i.cname() or "") in ("memcmp", "bcmp", "__builtin_memcmp") for i in F.insts()):
        C.saw("byte comparisons", q + " (byte by byte)")
        for i in F.insts():
            if i.op == "icmp" and i.pred not in ("eq", "ne") and all(byte(o) for o in i.ops):
                C.ob("bytes-as-unsigned", q, not any(o.op == "sext" for o in i.ops) and not (i.pred[0] == "s" and any(o.op == "load" for o in i.ops)), core.where(i), "bytes above 127 order before the others")
    else:
        own = []
    ends = [e for c in (-256, -1, 0, 1, 255) for e in Ev(F, lambda st, i: on_inst(st, i, c)).ends]
    for st, t, r in ends:
        C.saw("ways to return")
        s = [st.load(addl(x, {"": fl["size"]}), "i64")[1] for x in (a0, a1)]
        v = list(r)[0]
        eqs = st.same(s[0], s[1])
        ne = canon(sub(s[0], s[1])) in st.tag.get("differ", ())
        lt, gt = [st.prove(addl(x, {"": -1})) or ne and st.prove(x) for x in (sub(s[1], s[0]), sub(s[0], s[1]))]
        sg = None
        if own and eqs and v in (-1, 0, 1):
            C.saw("ways that depend on bytes compared one by one (not decided)")
            continue
        if "memcmp" in st.tag:
            sg = {st.tag["memcmp"]}
        if v not in (-1, 0, 1):
            C.bad("three-outcomes", q, core.where(t), "returns something other than -1, 0 or 1: %s" % v)
        elif v == 0:
            empty = st.prove(sub({}, s[0]))
            C.ob("equal-means-equal", q, st.same(a0, a1) or eqs and (empty or sg == {0}), core.where(t), "reports equality of buffers that may differ")
        else:
            ok = (lt if v < 0 else gt) or eqs and sg == {v}
            C.ob("sense-of-difference", q, ok, core.where(t), "returns %d where that isn't the sense of the first difference" % v)


TABLE = {"<": lambda c: c < 0, ">": lambda c: c > 0, "==": lambda c: c == 0, "!=": lambda c: c != 0, "<=": lambda c: c <= 0, ">=": lambda c: c >= 0}


def table(C, F, q, want):
    """the function's value for each of cmp's outcomes"""
    for c in (-1, 0, 1):
        wrote = {}

        def root(st, m, d=4):
            for x, n in list(m.items()):
                if n == 1 and ("is", x) in st.tag and d:
                    return root(st, st.tag[("is", x)], d - 1)
            return m

        def on_inst(st, i):
            n = i.cname() if i.iscall else ""
            if re.search(r"pack_t::cmp\(classdesc::pack_t const&\) const$", n or ""):
                x, y = [root(st, st.mod(o)) for o in i.ops[:2]]
                l, r = [operand(st, m) for m in (x, y)]
                if (l, r) in (("a0", "a1"), ("a1", "a0")):
                    st.val[id(i)] = ({"": (c if l == "a0" else -c) & M32},) * 2
                    st.tag["cmp"] = True
                else:
                    st.tag["wrong"] = i
                    st.val[id(i)] = ({"i%d.%d" % (i.bb.idx, i.idx): 1},) * 2
                return True
            if re.search(r"classdesc::operator<<|\bclassdesc::pack<|classdesc::pack\(", n or "") and len(i.ops) >= 2:
                b = canon(root(st, st.mod(i.ops[0])))
                w = st.tag.get("w", {})
                w = dict(w)
                w[b] = w.get(b, ()) + (show(st.mod(i.ops[-1])),)
                st.tag["w"] = w
                if i.ty == "ptr":
                    nm = "i%d.%d" % (i.bb.idx, i.idx)
                    st.val[id(i)] = ({nm: 1},) * 2
                    st.tag[("is", nm)] = dict(b)
                return True
            return None

        def operand(st, m):
            """which of the function's operands this buffer stands for"""
            k = canon(m)
            if k in (canon({"a0": 1}), canon({"a1": 1})):
                return dict(k) and list(dict(k))[0]
            w = st.tag.get("w", {}).get(k)
            base = [x for x, n in m.items() if x and n]
            if not w or len(w) != 1 or len(base) != 1 or not alloca(F, base[0]):
                return None
            return {"+1*a0": "a0", "+1*a1": "a1"}.get(w[0])
        X = Ev(F, on_inst)
        for st, t, r in X.ends:
            C.saw("outcomes evaluated")
            C.ob("operands-in-place", q, st.tag.get("cmp") and "wrong" not in st.tag, core.where(st.tag.get("wrong", t)),
                 "the comparison isn't between the two operands, each in a fresh buffer of its own")
            if st.tag.get("cmp"):
                C.ob("truth-table", q, r == {want(c)}, core.where(t), "when the comparison gives %d, the result is %s" % (c, "/".join(map(str, r))))
        if not X.ends:
            C.bad("truth-table", q, core.where(F), "never returns")


def alloca(F, name):
    m = re.match(r"i(\d+)\.(\d+)$", name)
    if not m:
        return False
    for b in F.blocks:
        if b.idx == int(m.group(1)):
            for i in b.insts:
                if i.idx == int(m.group(2)):
                    return i.op == "alloca"
    return False


def run():
    C = core.Check("C24", RULE, trusted=("memcmp", "packing a value is deterministic"))
    T = Tree()
    for std in ("c++98", "c++11") + (("c++17", "c++20") if C.thorough else ()):
        for xdr in (False, True):
            bc = T.compile("w_buf.cc", std=std, defs=("TR1", "HAVE_LONGLONG") + (("XDR_PACK",) if xdr else ()), extra=("-flto", "-fwhole-program-vtables"))
            M = ir.load(bc, T, inline=lambda d, f, n: not f.startswith("/usr") and f != "" and not re.search(r"classdesc::operator<<|classdesc::pack\(|classdesc::pack<|pack_t::cmp", d),
                        roots=lambda d, f, n: d.startswith(("w_deep", "f_")) or bool(re.search(r"(pack_t|xdr_pack)::(cmp|operator\W+)\(", d)))
            fl = buf.fields(M)
            for F in M.defs():
                m = re.match(r"classdesc::(pack_t|xdr_pack)::cmp\(", F.dem)
                if m:
                    cmp_method(C, F, fl)
                m = re.match(r"classdesc::(?:pack_t|xdr_pack)::operator([<>=!]+)\(.*\) const$", F.dem)
                if m and m.group(1) in TABLE:
                    C.saw("operators", m.group(1))
                    table(C, F, "pack_t::operator" + m.group(1), TABLE[m.group(1)])
                if F.dem.startswith("w_deepCmp("):
                    C.saw("operators", "deepCmp")
                    table(C, F, "deepCmp", lambda c: c)
                if F.dem.startswith("w_deepEq("):
                    C.saw("operators", "deepEq")
                    table(C, F, "deepEq", lambda c: c == 0)
    C.floor("comparison functions", 1)
    C.floor("operators", 6)
    C.floor("byte comparisons", 1)
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C24", RULE)
