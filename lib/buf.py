"""Model of the serialisation buffers shared by C03, C04, C06 and C24.

State fields are located through the public accessors (size(), pos(), data()), never by name.
"""
import re
import ir, ana
from ana import strip, succs, expr, fname
from ir import NEG, SWAP
from prep import AnalysisBroken

W = 1 << 64
ROOT = re.compile(r"^(?:virtual )?classdesc::(pack_t|xdr_pack)::(~?[\w]+|operator\W+|operator bool)\(")
ALLOC = re.compile(r"^(classdesc::realloc\(|realloc$|malloc$)")


def load(T, std, xdr):
    bc = T.compile("w_buf.cc", std=std, defs=("TR1", "HAVE_LONGLONG") + (("XDR_PACK",) if xdr else ()),
                   extra=("-flto", "-fwhole-program-vtables"))

    def inl(d, f, n):
        if f.startswith("/usr") and not d.startswith(("std::swap", "void std::swap", "std::enable_if")) or f == "":
            return False
        if d.startswith("classdesc::realloc(") or re.search(r"(error|exception)::~?\w+(error|exception)\(", d):
            return False
        return True
    return ir.load(bc, T, inline=inl, roots=lambda d, f, n: bool(ROOT.match(d)) or d.startswith(("f_", "w_", "classdesc::realloc(", "m_")))


def fields(M):
    """offset of data, size and position, from the accessors"""
    r = {}
    for F in M.defs():
        m = re.match(r"f_(size|pos|data)\(", F.dem)
        if not m:
            continue
        for b in F.blocks:
            if b.term.op == "ret" and b.term.ops:
                v = b.term.ops[0]
                if v.kind == "inst" and v.op == "load":
                    bs, o, var = strip(v.ops[0])
                    if bs is F.args[0] and not var:
                        r[m.group(1)] = o
    for k in ("size", "pos", "data"):
        if k not in r:
            raise AnalysisBroken("cannot locate the buffer's " + k)
    return r


def methods(M, names=None):
    for F in M.defs():
        m = ROOT.match(F.dem)
        if m and (names is None or m.group(2) in names):
            yield m.group(1), m.group(2), F


def dnf(c, truth, depth=4):
    """condition as a list of alternatives, each a list of (atomic condition, truth)"""
    if c.kind == "inst" and depth:
        if c.op == "xor" and c.ops[1].kind == "const" and c.ops[1].v & 1 and c.ty == "i1":
            return dnf(c.ops[0], not truth, depth - 1)
        a = b = None
        if c.op in ("and", "or") and c.ty == "i1":
            a, b, conj = c.ops[0], c.ops[1], c.op == "and"
        elif c.op == "select" and c.ty == "i1":
            if c.ops[2].kind == "const" and not c.ops[2].v:
                a, b, conj = c.ops[0], c.ops[1], True
            elif c.ops[1].kind == "const" and c.ops[1].v:
                a, b, conj = c.ops[0], c.ops[2], False
        if a is not None:
            A, B = dnf(a, truth, depth - 1), dnf(b, truth, depth - 1)
            if conj == truth:
                return [x + y for x in A for y in B]
            return A + B
    return [[(c, truth)]]


class Lin:
    """linear forms that are exact over the integers (no wrap-around), under the facts that hold at a block"""

    def __init__(self, F, bb, clobber=None, trust_add=False, extra=(), conds=None):
        """conds: conditions known to hold, instead of those dominating bb"""
        self.F, self.bb, self.trust = F, bb, trust_add
        self.clobber = clobber or (lambda i: ())
        self.facts = list(extra)
        self.nowrap = set()
        gs = []
        for c, tr, t in (ana.guards(F, bb) if conds is None else conds):
            r = ana.cmp_of(c, tr)
            if r:
                gs.append(r)
            elif c.kind == "inst" and c.op == "extractvalue" and tr is False and c.ivs == [1]:
                w = c.ops[0]
                if w.kind == "inst" and w.iscall and "uadd.with.overflow" in (w.cname() or ""):
                    self.nowrap.add(id(w))
        for _ in range(3):
            for p, a, b in gs:
                self.learn(p, a, b)

    def learn(self, p, a, b):
        if p in ("ugt", "uge", "sgt", "sge"):
            p, a, b = SWAP[p], b, a
        # s <= ~p  means p+s does not wrap
        if p in ("ule", "ult") and b.kind == "inst" and b.op == "xor" and b.ops[1].kind == "const" and b.ops[1].s == -1:
            self.nowrap.add((self.key(a), self.key(b.ops[0])))
            self.nowrap.add((self.key(b.ops[0]), self.key(a)))
            return
        x, y = self.lin(a), self.lin(b)
        if p in ("ule",):
            self.add(sub(y, x))
        elif p == "ult":
            self.add(sub(y, x), -1)
        elif p == "eq":
            self.add(sub(y, x))
            self.add(sub(x, y))
        elif p == "ne" and b.kind in ("const", "null") and (b.kind == "null" or b.s == 0):
            self.add(x, -1)
        elif p == "ne" and b.kind == "const" and b.s == -1 and b.width == 64:
            self.add(sub({"": W - 2}, x))

    def add(self, l, c=0):
        l = dict(l)
        l[""] = l.get("", 0) + c
        if l not in self.facts and any(k for k in l):
            self.facts.append(l)

    def key(self, v):
        if v.kind == "inst" and v.op in ("zext", "freeze"):
            return self.key(v.ops[0])
        if v.kind == "inst" and v.op in ("trunc", "sext"):
            return v.op + v.ty + ":" + self.key(v.ops[0])
        t = expr(v)
        if v.kind == "inst" and v.op == "load":
            cl = self.clobber(v)
            if cl:
                t += "@" + ",".join(sorted(map(str, cl)))
        if v.kind == "inst" and v.iscall and not ana.PURE.search(v.cname() or ""):
            t += "#%d" % id(v)
        return t

    def ub(self, l):
        s = l.get("", 0)
        for k, c in l.items():
            if not k:
                continue
            if c > 0:
                u = W - 1
                m = re.match(r"trunci(\d+):", k)
                if m:
                    u = (1 << int(m.group(1))) - 1
                for f in self.facts:
                    if f.get(k, 0) == -1 and all(x == "" or x == k or f[x] < 0 for x in f):
                        u = min(u, f.get("", 0))
                s += c * u
        return s

    def lin(self, v, d=8):
        if v.kind == "const":
            return {"": v.v if v.width > 1 and v.s < 0 and v.width == 64 else v.s}
        if v.kind == "null":
            return {"": 0}
        if v.kind == "inst" and d:
            if v.op in ("zext", "freeze"):
                return self.lin(v.ops[0], d - 1)
            if v.op == "load":
                b, o, var = strip(v.ops[0])
                if b.kind == "inst" and b.op == "alloca" and not var:
                    st = ana.reaching_store(v, b, o)
                    if st is not None:
                        return self.lin(st, d - 1)
            if v.op == "add" and v.ops[1].kind == "const" and v.ops[1].s < 0:
                a = self.lin(v.ops[0], d - 1)      # x - c
                r = sub(a, {"": -v.ops[1].s})
                if self.prove(r, 2):
                    return r
            elif v.op == "add":
                a, b = self.lin(v.ops[0], d - 1), self.lin(v.ops[1], d - 1)
                r = addl(a, b)
                # x + (-y), with y <= x known
                for f in list(self.facts):
                    for k in f:
                        if f[k] < 0 and k in ("sub(0,%s)" % ana.expr(v.ops[1]),):
                            m = sub(a, {k: 1})
                            if self.prove(m, 2):
                                return m
                if self.trust or self.ub(r) < W or (self.key(v.ops[0]), self.key(v.ops[1])) in self.nowrap:
                    return r
            elif v.op == "sub":
                a, b = self.lin(v.ops[0], d - 1), self.lin(v.ops[1], d - 1)
                r = sub(a, b)
                if self.prove(r, 2):
                    return r
            elif v.op in ("mul", "shl") and v.ops[1].kind == "const":
                k = v.ops[1].s if v.op == "mul" else 1 << v.ops[1].s
                r = {x: c * k for x, c in self.lin(v.ops[0], d - 1).items()}
                if k > 0 and (self.trust or self.ub(r) < W):
                    return r
            elif v.op == "extractvalue" and v.ivs == [0] and id(v.ops[0]) in self.nowrap:
                return addl(self.lin(v.ops[0].ops[0], d - 1), self.lin(v.ops[0].ops[1], d - 1))
        k = self.key(v)
        if v.kind == "inst" and v.iscall and re.match(r"llvm\.u(min|max)\b", v.cname() or "") and d:
            for o in v.ops[:2]:
                x = self.lin(o, d - 1)
                self.add(sub(x, {k: 1}) if "umin" in v.cname() else sub({k: 1}, x))
        elif v.kind == "inst" and v.op == "select" and v.ops[0].kind == "inst" and v.ops[0].op == "icmp" and d:
            # the smaller or larger of two values
            c = v.ops[0]
            ks = [self.key(o) if o.kind != "const" else o.s for o in v.ops[1:]]
            cs = [self.key(o) if o.kind != "const" else o.s for o in c.ops]
            p = c.pred if ks == cs else SWAP[c.pred] if ks == cs[::-1] else None
            if p in ("ult", "ule", "ugt", "uge"):
                for o in v.ops[1:]:
                    x = self.lin(o, d - 1)
                    self.add(sub(x, {k: 1}) if p in ("ult", "ule") else sub({k: 1}, x))
        return {k: 1}

    def prove(self, goal, depth=3):
        """goal >= 0"""
        if all(c >= 0 for c in goal.values()):
            return True
        if depth == 0:
            return False
        neg = [k for k, c in goal.items() if k and c < 0]
        for f in self.facts:
            if any(f.get(k, 0) < 0 for k in neg) or not neg and f.get("", 0) < 0:
                if self.prove(sub(goal, f), depth - 1):
                    return True
        return False


def sub(a, b):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) - c
    return {k: c for k, c in r.items() if c or k == ""}


def addl(a, b):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + c
    return {k: c for k, c in r.items() if c or k == ""}


def show(l):
    return " ".join("%+d*%s" % (c, k or "1") for k, c in sorted(l.items()) if c) or "0"


def clobbers(F, this, offs):
    """for a load of a field of *this: which instructions that may change the field can precede it"""
    cl = []
    for i in F.insts():
        if i.op == "store":
            b, o, var = strip(i.ops[1])
            if b is this and (var or o in offs):
                cl.append((i, None if var else o))
        elif i.iscall and not ((i.cname() or "").endswith(") const") or (i.cname() or "").startswith("llvm.")):
            if any(strip(a)[0] is this and not a.ty == "x" for a in i.ops if a.kind in ("arg", "inst")):
                cl.append((i, None))
    reach = {}

    def after(i):
        if id(i) not in reach:
            s = set()
            for x in i.bb.succs:
                s |= ana.fwd(F, x, edges=lambda b: b.succs)
            reach[id(i)] = s
        return reach[id(i)]

    def f(ld):
        b, o, var = strip(ld.ops[0])
        if b is not this:
            return ()
        r = []
        for i, off in cl:
            if off is not None and off != o:
                continue
            if i.bb is ld.bb and i.idx < ld.idx or ld.bb in after(i):
                r.append("%d.%d" % (i.bb.idx, i.idx))
        return tuple(r)
    return f


def data_ptr(p, this, off_data):
    """(load of the data pointer or allocation call, byte offset parts) if p points into the buffer's storage"""
    b, o, var = strip(p)
    hops = 0
    while b.kind == "inst" and b.op == "phi" and hops < 4:
        # loop-carried pointer: take the initial value
        ini = [v for v, pb in b.inc if strip(v)[0] is not b]
        if len(ini) != 1:
            return None
        b2, o2, v2 = strip(ini[0])
        b, o, var = b2, o + o2, var + v2 + [(b, 0)]
        hops += 1
    if b.kind == "inst" and b.op == "load":
        bb, oo, vv = strip(b.ops[0])
        if bb is this and oo == off_data and not vv:
            return b, o, var
    return None


def paths_to(F, inst, limit=3000):
    """acyclic paths from entry to an instruction: list of (blocks, conditions known on it)"""
    out = []
    target = inst.bb
    reach = ana.fwd(F, target, edges=lambda b: b.preds)
    st = [((F.blocks[0],), ())]
    while st:
        bl, cs = st.pop()
        b = bl[-1]
        if b is target:
            out.append((bl, ana.flat([c for c in cs])))
            if len(out) > limit:
                raise AnalysisBroken("too many paths in " + F.dem)
            continue
        t = b.term
        for k, s in enumerate(succs(b)):
            if s in bl or s not in reach:
                continue
            c = cs
            if t.op == "br" and t.ops and t.succs[0] is not t.succs[1]:
                c = cs + ((t.ops[0], s is t.succs[0], t),)
            st.append((bl + (s,), c))
    return out


def file_mode(c, tr, this):
    """does the condition show the buffer is not in memory mode? (its mode field differs from 0, or its FILE* isn't null)"""
    r = ana.cmp_of(c, tr)
    return bool(r) and file_mode_of(r, this)


def file_mode_of(r, this):
    p, a, b = r
    if a.kind == "inst" and a.op == "load" and a.ty == "i32" and b.kind == "const":
        bb, o, v = strip(a.ops[0])
        return bb is this and not v and (p == "ne" and b.s == 0 or p == "eq" and b.s != 0)
    return False


OPS = ("append", "packraw", "popoff", "unpackraw")


def delegated(i, this):
    """a call of another (possibly overridden) operation on the same buffer: its name"""
    if not i.iscall or not i.ops or strip(i.ops[0])[:2] != (this, 0) or strip(i.ops[0])[2]:
        return None
    m = re.match(r"(?:virtual )?classdesc::(?:pack_t|xdr_pack)::(\w+)\(", i.cname() or "")
    return m.group(1) if m and m.group(1) in OPS + ("resize", "clear", "reseti", "reseto", "seeki", "seeko") else None
