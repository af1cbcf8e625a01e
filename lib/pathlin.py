"""Forward dataflow in a domain of linear forms, kept separate for each way control can reach a point.

Every value has two descriptions over a set of atoms (initial field values, arguments, results of calls): its form modulo 2^64,
used for equalities, and its exact integer form, used for inequalities, in which an operation is only expanded
when the facts known on that way through the function exclude wrap-around. Memory cells are keyed by the linear form of their address.
A loop is summarised: at its header, whatever the loop may change is forgotten.
"""
import re
import ana, ir
from ana import succs, fname
from buf import sub, addl, dnf, show
from ir import NEG, SWAP
from prep import AnalysisBroken

W = 1 << 64
ONE, ZERO = ir.Const(1, 32, 1), ir.Const(0, 32, 0)
# library operations that never throw, whatever the language version says
NOTHROW = re.compile(r"^std::(?:.*::)?(clear|size|empty|back|front|pop_back|pop_front|begin|end|operator->|operator\*|~\w+)\([^()]*\)( const)?$")
CONSTCALL = re.compile(r"\) const$|^llvm\.")


def width(ty):
    m = re.match(r"i(\d+)$", ty or "")
    return int(m.group(1)) if m else 64


def canon(l):
    return tuple(sorted((k, c) for k, c in l.items() if c))


def place(addr):
    """text of an address: a0+16"""
    r = "+".join(("%s" if c == 1 else "%d*%%s" % c) % k for k, c in sorted(addr.items()) if k and c)
    o = addr.get("", 0)
    return r + ("+%d" % o if o else "")


class St:
    __slots__ = ("val", "mem", "facts", "ubs", "epoch", "tag", "trail", "trust", "loopbb", "prev", "known", "tr", "ar")

    def __init__(s):
        s.val, s.mem, s.facts, s.ubs, s.epoch, s.tag, s.trail = {}, {}, [], {}, {}, {}, ()
        s.trust, s.loopbb, s.prev, s.known = False, frozenset(), None, {}
        s.tr, s.ar = {}, {}

    def fork(s):
        r = St()
        r.val, r.mem, r.facts, r.ubs, r.epoch, r.tag = dict(s.val), dict(s.mem), list(s.facts), dict(s.ubs), dict(s.epoch), dict(s.tag)
        r.trail, r.trust, r.loopbb, r.prev, r.known = s.trail, s.trust, s.loopbb, s.prev, dict(s.known)
        r.tr, r.ar = dict(s.tr), dict(s.ar)
        return r

    # ---- values
    def both(s, v):
        k = v.kind
        if k == "const":
            x = {"": v.v & (W - 1)} if v.width == 64 else {"": v.v}
            return x, x
        if k == "null":
            return {}, {}
        if k == "arg":
            a = "a%d" % v.idx
            if width(v.ty) < 64:
                s.ubs.setdefault(a, (1 << width(v.ty)) - 1)
            return {a: 1}, {a: 1}
        if k == "cexpr" and v.op == "gep":
            m, e = s.both(v.ops[0])
            r = addl(m, {"": v.off})
            return r, r
        if k == "inst":
            if id(v) in s.val:
                m, e = s.val[id(v)]
                return s.norm(m), s.norm(e)
            a = "i%d.%d" % (v.bb.idx, v.idx)
            return {a: 1}, {a: 1}
        a = repr(v)
        return {a: 1}, {a: 1}

    def norm(s, l):
        """a truncation whose operand has since been shown to fit"""
        for k in l:
            if k in s.tr:
                e, w = s.tr[k]
                if s.below(e, 1 << w):
                    r = dict(l)
                    c = r.pop(k)
                    return addl(r, {x: y * c for x, y in e.items()})
        return l

    def mod(s, v):
        return s.both(v)[0]

    def lin(s, v):
        return s.both(v)[1]

    def same(s, a, b):
        d = sub(a, b)
        if all(c % W == 0 for c in d.values()):
            return True
        d = {k: (c % W - W if c % W > W // 2 else c % W) for k, c in d.items()}
        return s.prove(d) and s.prove(sub({}, d))

    def atom(s, name, ub=None):
        if ub is not None:
            s.ubs[name] = min(ub, s.ubs.get(name, ub))
        return {name: 1}

    def ub(s, l):
        t = l.get("", 0)
        for k, c in l.items():
            if k and c > 0:
                u = s.ubs.get(k, W - 1)
                for f in s.facts:
                    if f.get(k, 0) == -1 and all(x == "" or x == k or f[x] < 0 for x in f):
                        u = min(u, f.get("", 0))
                t += c * u
        return t

    def below(s, l, bound):
        """l < bound"""
        return s.ub(l) < bound or s.prove(sub({"": bound - 1}, l))

    def prove(s, goal, depth=3):
        if all(c >= 0 for c in goal.values()):
            return True
        # upper bounds of atoms
        g = goal.get("", 0)
        for k, c in goal.items():
            if k and c < 0:
                g += c * s.ubs.get(k, W - 1)
        if g >= 0:
            return True
        if depth == 0:
            return False
        neg = [k for k, c in goal.items() if k and c < 0]
        for f in s.facts:
            if any(f.get(k, 0) < 0 for k in neg) or not neg and f.get("", 0) < 0:
                if s.prove(sub(goal, f), depth - 1):
                    return True
        return False

    def fact(s, l, c=0):
        """l + c >= 0"""
        l = addl(l, {"": c})
        if any(k for k in l) and l not in s.facts:
            s.facts.append(l)
            # operations that could have wrapped when they were met, but are now known not to
            for k, (e, M) in list(s.ar.items()):
                if s.prove(e, 2) and s.below(e, M):
                    del s.ar[k]
                    s.facts += [sub({k: 1}, e), sub(e, {k: 1})]

    # ---- memory
    def root(s, addr):
        r = [k for k in addr if k and addr[k] == 1]
        return r[0] if len(r) >= 1 else ""

    def load(s, addr, ty):
        k = canon(addr)
        if k in s.mem:
            return s.mem[k]
        r = s.root(addr)
        n = "*(%s)" % place(addr)
        e = s.epoch.get(r, 0)
        if e:
            n += "'%s" % e
        w = width(ty)
        if w < 64:
            s.ubs.setdefault(n, (1 << w) - 1)
        s.mem[k] = ({n: 1}, {n: 1})
        return s.mem[k]

    def store(s, addr, v):
        r = s.root(addr)
        # a store through an unrelated pointer may alias others not rooted at arguments or locals
        if not re.match(r"a\d+$|i\d", r or ""):
            for k in [k for k in s.mem if s.root(dict(k)) == r]:
                del s.mem[k]
        s.mem[canon(addr)] = v

    def forget(s, root, tok):
        s.epoch[root] = "%s" % tok
        for k in [k for k in s.mem if s.root(dict(k)) == root]:
            del s.mem[k]


class Walk:
    def __init__(self, F, on_inst=None, on_ret=None, on_cond=None, init=None, limit=6000, trust=False, on_exc=None, on_back=None):
        """on_exc(st, inst): follow exceptions too, and report each way one leaves the function; on_back(st, header): a loop's back edge
        on_inst(st, inst) -> None, False to end this way, or True if it has itself described the effect; on_ret(st, ret); on_cond(st, cond, truth, (pred,a,b)|None) -> False if excluded"""
        self.F, self.on_inst, self.on_ret, self.on_cond = F, on_inst, on_ret, on_cond
        self.on_exc, self.on_back = on_exc, on_back
        self.n = self.nsel = 0
        self.limit = limit
        st = St()
        st.trust = trust
        if init:
            init(st)
        self.headers()
        self.run(st)

    def headers(self):
        F = self.F
        self.hdr = {}
        for b in F.blocks:
            for x in succs(b):
                if F.dominates(x, b):
                    self.hdr.setdefault(x, set()).update(self.body(x, b))

    def body(self, h, tail):
        s = {h, tail}
        w = [tail]
        while w:
            b = w.pop()
            if b is h:
                continue
            for p in b.preds:
                if p not in s:
                    s.add(p)
                    w.append(p)
        return s

    def run(self, st):
        work = [(self.F.blocks[0], None, st, 0)]
        while work:
            b, prev, st, k0 = work.pop()
            self.n += 1
            if self.n > self.limit:
                raise AnalysisBroken("too many ways through " + self.F.dem)
            if k0 == 0 and b in self.hdr:
                if b in st.loopbb:
                    if self.on_back:
                        self.on_back(st, b)
                    continue            # back edge: the header state already stands for every iteration
                st.loopbb = st.loopbb | {b}
                self.havoc(st, self.hdr[b], b)
            # phis are read in parallel
            new = {}
            for i in b.insts:
                if i.op != "phi" or k0:
                    break
                if b in self.hdr:
                    a = "i%d.%d" % (b.idx, i.idx)
                    if width(i.ty) < 64:
                        st.ubs.setdefault(a, (1 << width(i.ty)) - 1)
                    new[id(i)] = ({a: 1}, {a: 1})
                else:
                    v = [v for v, pb in i.inc if pb is prev]
                    if v:
                        new[id(i)] = st.both(v[0])
                        if v[0].kind == "const" and i.ty == "i1":
                            st.known[id(i)] = bool(v[0].v & 1)
                        elif i.ty == "i1":
                            st.known[id(i)] = v[0]
            st.val.update(new)
            dead = False
            for i in b.insts[k0:]:
                if i.op == "phi":
                    continue
                if (i.op == "select" and i.ty != "i1" or i.op == "zext" and i.ops[0].kind == "inst" and i.ops[0].op in ("icmp", "phi") and i.ops[0].ty == "i1") and self.nsel < 400:
                    # a conditional value is a branch
                    self.nsel += 1
                    for o, tr in ((i.ops[1], True), (i.ops[2], False)) if i.op == "select" else ((ONE, True), (ZERO, False)):
                        for alt in dnf(i.ops[0], tr):
                            s2 = st.fork()
                            if all(self.assume(s2, c, v) for c, v in alt):
                                s2.val[id(i)] = s2.both(o)
                                work.append((b, prev, s2, i.idx + 1))
                    dead = True
                    break
                if i.iscall and self.nsel < 400 and re.match(r"llvm\.(usub\.sat|umin|umax)\b", i.cname() or ""):
                    # so is a saturating or extremal operation
                    self.nsel += 1
                    n, (x, y) = i.cname(), i.ops[:2]
                    one = "llvm.usub.sat" not in n
                    for p, pick in (("uge", 0), ("ult", 1)):
                        s2 = st.fork()
                        if self.learn(s2, p, x, y):
                            if one:
                                s2.val[id(i)] = s2.both(x if (pick == 0) == ("umax" in n) else y)
                            elif pick == 0:
                                s2.val[id(i)] = (sub(s2.mod(x), s2.mod(y)), sub(s2.lin(x), s2.lin(y)))
                            else:
                                s2.val[id(i)] = ({}, {})
                            work.append((b, prev, s2, i.idx + 1))
                    dead = True
                    break
                if self.on_exc and i.iscall and not i.nounwind and not NOTHROW.search(i.cname() or "") and (i.op == "invoke" or i.cname() is None or not i.cname().startswith("llvm.")):
                    if i.op == "invoke":
                        s2 = st.fork()
                        s2.tag["exc"] = i
                        work.append((i.unwind, b, s2, 0))
                    else:
                        self.on_exc(st, i)
                r = self.on_inst(st, i) if self.on_inst else None
                if r is False:
                    dead = True
                    break
                if r is not True:       # True: its effect has been described
                    self.eval(st, i)
            if dead:
                continue
            t = b.term
            if t.op == "resume" and self.on_exc:
                self.on_exc(st, st.tag.get("exc", t))
                continue
            if t.op == "ret":
                if self.on_ret:
                    self.on_ret(st, t)
                continue
            if t.op == "br" and t.ops and t.succs[0] is not t.succs[1]:
                for n, tr in ((t.succs[0], True), (t.succs[1], False)):
                    for alt in dnf(t.ops[0], tr):
                        s2 = st.fork()
                        ok = True
                        for c, v in alt:
                            if not self.assume(s2, c, v):
                                ok = False
                                break
                        if ok:
                            work.append((n, b, s2, 0))
            elif t.op == "switch":
                for cv, cb in t.cases:
                    s2 = st.fork()
                    if self.learn(s2, "eq", t.ops[0], cv) and not (self.on_cond and self.on_cond(s2, t.ops[0], True, ("eq", t.ops[0], cv)) is False):
                        work.append((cb, b, s2, 0))
                dflt = t.succs[0]
                s2 = st.fork()
                ok = True
                for cv, cb in t.cases:
                    if not self.learn(s2, "ne", t.ops[0], cv) or self.on_cond and self.on_cond(s2, t.ops[0], True, ("ne", t.ops[0], cv)) is False:
                        ok = False
                        break
                if ok and dflt in succs(b):
                    work.append((dflt, b, s2, 0))
            else:
                ss = list(succs(b))
                for n in ss:
                    work.append((n, b, st.fork() if len(ss) > 1 else st, 0))

    def havoc(self, st, body, h):
        tok = "L%d" % h.idx
        for b in body:
            for i in b.insts:
                if i.op == "store":
                    a = st.mod(i.ops[1])
                    r = st.root(a)
                    st.forget(r, tok)
                elif i.iscall:
                    self.clobber(st, i, tok)

    def assume(self, st, c, tr, d=3):
        # a condition carried through a phi
        if c.kind == "inst" and c.op == "phi" and id(c) in st.known and d:
            k = st.known[id(c)]
            if isinstance(k, bool):
                return k == tr
            for alt in dnf(k, tr)[:1] if len(dnf(k, tr)) == 1 else ():
                return all(self.assume(st, x, v, d - 1) for x, v in alt)
            return True
        if c.kind == "const":
            return bool(c.v & 1) == tr
        r = None
        if c.kind == "inst" and c.op == "icmp":
            p = c.pred if tr else NEG[c.pred]
            r = (p, c.ops[0], c.ops[1])
            if not self.learn(st, *r):
                return False
        elif c.kind == "inst" and c.op == "extractvalue" and c.ivs == [1]:
            w = c.ops[0]
            if not tr and w.kind == "inst" and "uadd.with.overflow" in (w.cname() or ""):
                st.fact(sub({"": W - 1}, addl(st.lin(w.ops[0]), st.lin(w.ops[1]))))
        elif c.kind in ("inst", "arg"):
            l = st.lin(c)
            if tr:
                st.fact(l, -1)
            else:
                st.fact(sub({}, l))
        if self.on_cond and self.on_cond(st, c, tr, r) is False:
            return False
        return True

    def learn(self, st, p, a, b):
        if p in ("ugt", "uge", "sgt", "sge"):
            p, a, b = SWAP[p], b, a
        w = width(a.ty) if a.kind in ("inst", "arg") else width(b.ty) if b.kind in ("inst", "arg") else 64
        x, y = st.lin(a), st.lin(b)
        half = 1 << (w - 1)
        if p in ("slt", "sle"):
            # equal to the unsigned order when both are known non-negative
            nx = st.below(x, half)
            ny = st.below(y, half)
            if b.kind == "const" and b.s >= 0 and not nx and p == "slt" and b.s == 0:
                st.fact(x, -half)
                return True
            if a.kind == "const" and a.s >= -1 and (p == "slt" or a.s >= 0):      # -1 < y, 0 <= y
                st.fact(sub({"": half - 1}, y))
                ny = True
                if a.s < 0:
                    return True
                nx = True
            if nx and ny:
                p = "u" + p[1:]
            else:
                return True
        d = sub(y, x)
        if p in ("ule", "ult", "eq") and st.prove(addl(sub({}, d), {"": -1 if p != "ult" else 0})) or p == "eq" and st.prove(addl(d, {"": -1})):
            return False
        if p == "ne" and st.prove(d) and st.prove(sub({}, d)):
            return False
        if p == "ule":
            st.fact(d)
            if not any(k for k in d) and d.get("", 0) < 0:
                return False
        elif p == "ult":
            st.fact(d, -1)
            if not any(k for k in d) and d.get("", 0) < 1:
                return False
        elif p == "eq":
            if not any(k for k in d) and d.get("", 0):
                return False
            if st.prove(addl(d, {"": -1})) or st.prove(addl(sub(x, y), {"": -1})):
                return False
            st.fact(d)
            st.fact(sub(x, y))
        elif p == "ne":
            if not any(k for k in d) and not d.get("", 0):
                return False
            if not any(k for k in y) and y.get("", 0) == 0:
                st.fact(x, -1)
            elif not any(k for k in y) and y.get("", 0) == (1 << w) - 1:
                st.fact(sub({"": (1 << w) - 2}, x))
        # p <= ~q : p+q doesn't wrap
        if p in ("ule", "ult") and b.kind == "inst" and b.op == "xor" and b.ops[1].kind == "const" and b.ops[1].s == -1:
            q = st.lin(b.ops[0])
            st.fact(sub({"": W - 1}, addl(x, q)))
        return True

    def clobber(self, st, i, tok):
        n = i.cname() or ""
        if CONSTCALL.search(n) and not n.startswith("llvm.mem"):
            return
        member = "std::" in n.split("(")[0]
        for a in i.ops:
            if a.kind in ("inst", "arg"):
                m = st.mod(a)
                if member and m.get("", 0):
                    continue        # a library object inside another: its own representation is never read directly
                for r in [k for k in m if k]:
                    if any(st.root(dict(k)) == r for k in st.mem) or re.match(r"a\d+$", r):
                        st.forget(r, tok)

    def eval(self, st, i):
        op = i.op
        if i.ty == "void" and not i.iscall and op != "store":
            return
        w = width(i.ty)
        name = "i%d.%d" % (i.bb.idx, i.idx)
        if op == "store":
            st.store(st.mod(i.ops[1]), st.both(i.ops[0]))
            return
        if op == "gep":
            m = dict(st.mod(i.ops[0]))
            m = addl(m, {"": i.off or 0})
            for v, sc in i.var or ():
                m = addl(m, {k: c * sc for k, c in st.mod(v).items()})
            st.val[id(i)] = (m, m)
            return
        if op == "load":
            st.val[id(i)] = st.load(st.mod(i.ops[0]), i.ty)
            return
        if op in ("bitcast", "freeze", "ptrtoint", "inttoptr", "addrspacecast", "zext"):
            st.val[id(i)] = st.both(i.ops[0])
            if op == "zext":
                ww = width(i.ops[0].ty) if i.ops[0].kind in ("inst", "arg") else 64
                m, e = st.val[id(i)]
                if ww < 64 and len(e) == 1:
                    for k in e:
                        if k:
                            st.ubs[k] = min(st.ubs.get(k, W - 1), (1 << ww) - 1)
            return
        if op in ("trunc", "sext"):
            m, e = st.both(i.ops[0])
            ww = width(i.ops[0].ty) if i.ops[0].kind in ("inst", "arg") else 64
            if op == "trunc" and st.below(e, 1 << w) or op == "sext" and st.below(e, 1 << (ww - 1)):
                st.val[id(i)] = (e, e)
            else:
                a = st.atom("%s%d[%s]" % (op, w, show(e)), (1 << w) - 1)
                st.val[id(i)] = (a, a)
                for k in a:
                    st.tr[k] = (e, w if op == "trunc" else ww - 1)
            return
        M = 1 << w
        if op == "and" and i.ops[1].kind == "const" and i.ops[1].v & (i.ops[1].v + 1) == 0 and st.below(st.lin(i.ops[0]), i.ops[1].v + 1):
            st.val[id(i)] = st.both(i.ops[0])       # a mask that keeps every bit
            return
        if op in ("ashr", "lshr", "or", "and", "xor") and i.ty != "i1":
            x, y = [st.lin(o) for o in i.ops]
            if not any(k for l in (x, y) for k in l if k and l[k]):
                x, y = x.get("", 0) % M, y.get("", 0) % M
                if op == "ashr":
                    x = x - M if x >= M >> 1 else x
                v = {"": (x >> min(y, 64) if "shr" in op else x | y if op == "or" else x & y if op == "and" else x ^ y) % M}
                st.val[id(i)] = (v, v)
                return
        if op in ("add", "sub", "mul", "shl"):
            (m1, e1), (m2, e2) = st.both(i.ops[0]), st.both(i.ops[1])
            if not any(k for x in (e1, e2) for k in x if k and x[k]):
                x, y = e1.get("", 0), e2.get("", 0)
                v = {"": (x + y if op == "add" else x - y if op == "sub" else x * y if op == "mul" else x << min(y, 64)) % M}
                st.val[id(i)] = (v, v)
                return
            e = m = e0 = None
            if op == "add":
                e0 = addl(e1, e2) if not (i.ops[1].kind == "const" and i.ops[1].s < 0) else sub(e1, {"": -i.ops[1].s})
                m = addl(m1, m2)
                if i.ops[1].kind == "const" and i.ops[1].s < 0:
                    e = sub(e1, {"": -i.ops[1].s})
                    if not st.prove(e):
                        e = None
                else:
                    e = addl(e1, e2)
                    if not (st.trust or st.below(e, M)):
                        e = None
                        # x + (0-y) with y <= x
                        y = self.negated(st, i.ops[1], m2)
                        if y is not None:
                            e = sub(e1, y)
                            if not st.prove(e):
                                e = None
            elif op == "sub":
                m = sub(m1, m2)
                e = e0 = sub(e1, e2)
                if not st.prove(e):
                    e = None
            elif i.ops[1].kind == "const":
                k = i.ops[1].s if op == "mul" else 1 << i.ops[1].s
                m = {x: c * k for x, c in m1.items()}
                e = {x: c * k for x, c in e1.items()}
                if k < 0 or not (st.trust or st.below(e, M)):
                    e = None
            if m is None:
                a = {"%s[%s,%s]" % (op, show(e1), show(e2)): 1}
                st.val[id(i)] = (a, a)
                return
            m = {k: (c % W if k == "" and w == 64 else c) for k, c in m.items()}
            if e is None:
                full = e0
                nm = "[%s]" % show(m)
                e = st.atom(nm, M - 1)
                if full is not None and nm not in st.ar:
                    st.ar[nm] = (full, M)
            if w < 64:
                m = e
            st.val[id(i)] = (m, e)
            return
        if i.iscall:
            n = i.cname() or ""
            if n.startswith("llvm.umax") or n.startswith("llvm.umin"):
                a = st.atom("%s[%s,%s]" % (n[5:9], show(st.lin(i.ops[0])), show(st.lin(i.ops[1]))))
                for o in i.ops[:2]:
                    st.fact(sub(a, st.lin(o)) if "umax" in n else sub(st.lin(o), a))
                st.val[id(i)] = (a, a)
                return
            if n.startswith("llvm.uadd.with.overflow") or n.startswith("llvm.umul.with.overflow"):
                return
            self.clobber(st, i, name)
            a = {name: 1}
            if w < 64:
                st.ubs[name] = M - 1
            if i.ty == "void":
                return
            st.val[id(i)] = (a, a)
            return
        if op == "extractvalue" and i.ivs == [0] and i.ops[0].kind == "inst" and "uadd.with.overflow" in (i.ops[0].cname() or "" if i.ops[0].iscall else ""):
            (m1, e1), (m2, e2) = st.both(i.ops[0].ops[0]), st.both(i.ops[0].ops[1])
            m, e = addl(m1, m2), addl(e1, e2)
            if not (st.trust or st.below(e, W)):
                e = st.atom("[%s]" % show(m))
            st.val[id(i)] = (m, e)
            return
        if op == "select" and i.ty != "i1":
            c = i.ops[0]
            a = {name: 1}
            for o in i.ops[1:]:
                pass
            if c.kind == "inst" and c.op == "icmp" and {ana.expr(c.ops[0]), ana.expr(c.ops[1])} == {ana.expr(i.ops[1]), ana.expr(i.ops[2])}:
                p = c.pred
                big = p in ("ugt", "uge") and i.ops[1] is c.ops[0] or p in ("ult", "ule") and i.ops[1] is c.ops[1]
                small = p in ("ult", "ule") and i.ops[1] is c.ops[0] or p in ("ugt", "uge") and i.ops[1] is c.ops[1]
                for o in i.ops[1:]:
                    if big:
                        st.fact(sub(a, st.lin(o)))
                    elif small:
                        st.fact(sub(st.lin(o), a))
            st.val[id(i)] = (a, a)
            return
        a = "%s[%s]" % (op, ",".join(show(st.lin(o)) for o in i.ops)) if i.ops and op not in ("phi", "alloca", "landingpad") else name
        if w < 64:
            st.ubs.setdefault(a, M - 1)
        st.val[id(i)] = ({a: 1}, {a: 1})

    def negated(self, st, v, m):
        """y such that the value is 0-y modulo 2^64, for a y that occurs in a fact"""
        n = {k: -c for k, c in m.items()}
        key = "[%s]" % show({k: (c % W if k == "" else c) for k, c in n.items() if c})
        for f in st.facts:
            if key in f:
                return {key: 1}
        return None
