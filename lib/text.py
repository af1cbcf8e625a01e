"""Forward dataflow over characters and texts, kept separate for each way control can reach a point.

A small integer is a finite map from the possible values of one source (a character read, an argument, a cell a loop changes) to its own value, so that any
chain of tests and conversions of a character partitions the set of characters exactly. A text is a sequence of literal pieces, single characters and
pieces of which nothing is known. A loop is explored once from a state covering every iteration: each cell the loop changes is widened to all the
values that reach the loop's header, found by iterating to a fixed point.
"""
import re
from ana import succs
from buf import dnf
from ir import NEG
from prep import AnalysisBroken

MAXDOM = 300
BYTES = tuple(range(256))


def width(ty):
    m = re.match(r"i(\d+)$", ty or "")
    return int(m.group(1)) if m else 64


def sg(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def K(n):
    return ("k", n)


def tab(atom, f):
    return ("t", atom, tuple(sorted(f.items())))


def lit(b):
    return (("l", b),) if b else ()


def join(*segs):
    """concatenation, literals merged"""
    r = []
    for s in segs:
        for x in s:
            if x[0] == "l" and r and r[-1][0] == "l":
                r[-1] = ("l", r[-1][1] + x[1])
            elif x[0] != "l" or x[1]:
                r.append(x)
    return tuple(r)


def ctab(f):
    """predicate of the C library as a function of an unsigned value of some width"""
    def g(v, w):
        v = sg(v, w)
        return 1 if 0 <= v < 128 and f(v) else 0
    return g


CTYPE = {
    "isgraph": lambda c: 33 <= c <= 126, "isprint": lambda c: 32 <= c <= 126, "isspace": lambda c: 9 <= c <= 13 or c == 32, "iscntrl": lambda c: c < 32 or c == 127,
    "isalpha": lambda c: chr(c).isalpha(), "isdigit": lambda c: 48 <= c <= 57, "isalnum": lambda c: chr(c).isalnum(), "isupper": lambda c: 65 <= c <= 90, "islower": lambda c: 97 <= c <= 122,
    "ispunct": lambda c: 33 <= c <= 126 and not chr(c).isalnum(), "isblank": lambda c: c in (9, 32), "isxdigit": lambda c: chr(c) in "0123456789abcdefABCDEF"}


DONE = 1000000


class Restart(Exception):
    pass


class St:
    __slots__ = ("val", "mem", "strs", "dom", "eq", "ne", "conds", "ev", "fmt", "tag", "inloop", "known", "pend", "good", "seq", "hist", "done")

    def __init__(s):
        s.val, s.mem, s.strs, s.dom, s.eq, s.ne, s.conds = {}, {}, {}, {}, {}, {}, {}
        s.ev, s.fmt, s.tag, s.inloop, s.known, s.pend, s.good, s.seq, s.hist = (), {}, {}, {}, {}, (), True, 0, ()
        s.done = False          # the end of the input was met
    # loops are analysed separately before and after the end of the input

    def hid(s, h):
        return h.idx + (DONE if s.done else 0)

    def fork(s):
        r = St()
        for k in ("val", "mem", "strs", "dom", "eq", "ne", "conds", "fmt", "tag", "inloop", "known"):
            setattr(r, k, dict(getattr(s, k)))
        r.ev, r.pend, r.good, r.seq, r.hist, r.done = s.ev, s.pend, s.good, s.seq, s.hist, s.done
        return r

    # ---- numbers
    def norm(s, v):
        if v[0] == "t":
            d = s.dom[v[1]]
            f = {a: x for a, x in v[2] if a in d}
            if len(set(f.values())) == 1:
                return K(next(iter(f.values())))
            return tab(v[1], f)
        return v

    def image(s, v):
        """all the values a number can have, or None"""
        v = s.norm(v)
        return {v[1]} if v[0] == "k" else {x for _, x in v[2]} if v[0] == "t" else None

    def atom(s, name, dom, f=None):
        s.dom[name] = frozenset(dom)
        return tab(name, f or {a: a for a in dom})

    # ---- texts
    def text(s, segs):
        r = []
        for x in segs:
            if x[0] == "a" and x[1] in s.eq:
                r.append(("l", s.eq[x[1]]))
            elif x[0] == "t":
                d = s.dom[x[1]]
                f = {a: b for a, b in x[2] if a in d}
                if len(set(f.values())) == 1:
                    r.append(("l", next(iter(f.values()))))
                else:
                    r.append(("t", x[1], tuple(sorted(f.items()))))
            else:
                r.append(x)
        return join(r)

    def char(s, v):
        """a number as a piece of text"""
        v = s.norm(v)
        if v[0] == "k":
            return lit(bytes([v[1] & 255]))
        if v[0] == "t":
            return (("t", v[1], tuple((a, bytes([x & 255])) for a, x in v[2])),)
        return (("a", ("chr", v)),)

    def number(s, v, w, signed, fmt):
        """a formatted number as a piece of text"""
        wd, fill, base = fmt.get("w", 0), fmt.get("f", b" "), fmt.get("b", 10)

        def one(x):
            x = sg(x, w) if signed and base == 10 else x
            return (b"%d" % x if base == 10 else b"%x" % x if base == 16 else b"%o" % x).rjust(wd, fill)
        v = s.norm(v)
        if v[0] == "k":
            return lit(one(v[1]))
        if v[0] == "t":
            return (("t", v[1], tuple((a, one(x)) for a, x in v[2])),)
        return (("a", ("fmt", v, wd, fill, base)),)

    def content(s, key):
        if key not in s.strs:
            s.strs[key] = (("a", ("S", key)),)
        return s.text(s.strs[key])

    def cstr(s, p):
        """text a char pointer refers to"""
        if p[0] == "c":
            t = s.text(p[1])
            if p[2] == K(0):
                return t
            if p[2][0] == "k" and t and t[0][0] == "l" and len(t[0][1]) >= p[2][1]:
                return join(lit(t[0][1][p[2][1]:]), t[1:])
            return (("a", ("tail", t, p[2])),)
        if p[0] == "p":
            if (p[1], p[2]) in s.strs:
                return s.content((p[1], p[2]))
            return (("a", ("cstr", p)),)
        return (("a", ("cstr", p)),)


class Walk:
    def __init__(self, F, call=None, on_ret=None, on_back=None, on_throw=None, on_exc=None, on_call=None, init=None, limit=40000, on_mem=None, quiet=None, nonnull=(), volatile=False):
        """call(W, st, i, name) -> NotImplemented, or a value, or a list of (state, value); on_ret(st, inst, value); on_back(st, header);
        on_throw(st, inst); on_exc(st, inst): exceptions raised by callees (but those quiet(inst, name) excludes) are followed, and reported where they leave; on_call: notified of each call"""
        self.F, self.call, self.on_ret, self.on_back, self.on_throw, self.on_exc, self.on_call, self.init = F, call, on_ret, on_back, on_throw, on_exc, on_call, init
        self.limit, self.on_mem, self.quiet = limit, on_mem, quiet
        self.nonnull = nonnull      # arguments that are references
        self.volatile = volatile    # cells another thread may change are read afresh each time
        self.wide = {}              # (header, cell) -> set of values | True
        self.back, self.ways, self.grown = set(), 0, {}
        self.headers()
        for n in range(400):
            self.out, self.first, self.entry = [], {}, {}
            try:
                self.run()
                break
            except Restart:
                continue
        else:
            raise AnalysisBroken("no fixed point for the loops of " + F.dem)
        for f, a in self.out:
            f(*a)

    def headers(self):
        self.hdr = {}
        for b in self.F.blocks:
            for x in succs(b):
                if self.F.dominates(x, b):
                    self.hdr.setdefault(x, set())
                    self.back.add((id(b), id(x)))

    def report(self, f, *a):
        if f:
            self.out.append((f, a))

    # ---- values
    def v(self, st, o):
        k = o.kind
        if k == "const":
            return K(o.v)
        if k == "null":
            return ("p", "null", 0)
        if k == "inst" or k == "arg":
            if id(o) in st.val:
                return st.norm(st.val[id(o)])
            if k == "inst" and o.op == "alloca":
                return ("p", ("A", o.bb.idx, o.idx), 0)
            if k == "arg" and o.ty in ("i8", "i1"):
                d = BYTES if o.ty == "i8" else (0, 1)
                st.dom.setdefault(("arg", o.idx), frozenset(d))
                return st.norm(tab(("arg", o.idx), {x: x for x in d}))
            if k == "arg":
                return ("p", ("arg", o.idx), 0) if o.ty == "ptr" else ("u", ("arg", o.idx))
            return ("u", ("i", o.bb.idx, o.idx))
        if k == "global":
            if o.string is not None:
                return ("c", lit(o.string.encode("latin-1")), K(0))
            return ("p", ("g", o.name), 0)
        if k == "func":
            return ("p", ("f", o.dem), 0)
        if k == "cexpr" and o.op == "gep":
            p = self.v(st, o.ops[0])
            return self.shift(p, K(o.off or 0))
        if k == "cexpr" and o.ops:
            return self.v(st, o.ops[0])
        return ("u", ("?", repr(o)))

    def shift(self, p, n):
        if p[0] == "p":
            return ("p", p[1], p[2] + sg(n[1], 64)) if n[0] == "k" and p[2] is not None else ("p", p[1], None)
        if p[0] == "c":
            if n == K(0):
                return p
            if p[2][0] == "k" and n[0] == "k":
                return ("c", p[1], K((p[2][1] + n[1]) % (1 << 64)))
            return ("c", p[1], n if p[2] == K(0) else ("u", ("add", p[2], n)))
        return ("p", ("ptr", p, n), 0)

    def arith(self, st, op, a, b, w, wo=None):
        M = (1 << w) - 1

        def f(x, y):
            if op == "zext":
                return x
            if op == "sext":
                return sg(x, wo) & M
            if op == "trunc":
                return x & M
            if op == "add":
                return (x + y) & M
            if op == "sub":
                return (x - y) & M
            if op == "mul":
                return (x * y) & M
            if op == "and":
                return x & y
            if op == "or":
                return x | y
            if op == "xor":
                return x ^ y
            if op == "shl":
                return (x << min(y, 64)) & M
            if op == "lshr":
                return x >> min(y, 64)
            if op == "ashr":
                return (sg(x, w) >> min(y, 64)) & M
            if op in ("udiv", "urem"):
                return (x // y if op == "udiv" else x % y) if y else 0
            if op in ("sdiv", "srem"):
                x, y = sg(x, w), sg(y, w)
                if not y:
                    return 0
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return (q if op == "sdiv" else x - q * y) & M
            raise KeyError(op)
        return self.point(st, f, a, b)

    def point(self, st, f, a, b):
        """apply a function pointwise, or None"""
        if a[0] == "k" and b[0] == "k":
            return K(f(a[1], b[1]))
        if a[0] == "t" and b[0] == "k":
            return st.norm(tab(a[1], {k: f(x, b[1]) for k, x in a[2]}))
        if a[0] == "k" and b[0] == "t":
            return st.norm(tab(b[1], {k: f(a[1], x) for k, x in b[2]}))
        if a[0] == "t" and b[0] == "t" and a[1] == b[1]:
            d = dict(b[2])
            return st.norm(tab(a[1], {k: f(x, d[k]) for k, x in a[2]}))
        return None

    # ---- run
    def run(self):
        st = St()
        if self.init:
            self.init(self, st)
        work = [(self.F.blocks[0], None, st, 0)]
        self.ways = 0
        while work:
            b, prev, st, k0 = work.pop()
            self.ways += 1
            if self.ways > self.limit:
                raise AnalysisBroken("too many ways through " + self.F.dem)
            if not k0:
                if b in self.hdr and (id(prev), id(b)) in self.back and st.hid(b) in st.inloop:
                    self.again(st, b, prev)
                    continue
                new = {}
                for i in b.insts:
                    if i.op != "phi":
                        break
                    for v, pb in i.inc:
                        if pb is prev:
                            new[id(i)] = self.v(st, v)
                            if i.ty == "i1" and v.kind in ("inst", "arg") and new[id(i)][0] == "u":
                                new[id(i)] = ("i1", id(v), v)
                            break
                for k, v in new.items():
                    if v[0] == "i1":
                        v = self.v(st, v[2])
                    st.val[k] = v
                if b in self.hdr:
                    self.enter(st, b)
            dead = False
            for i in b.insts[k0:]:
                if i.op == "phi":
                    continue
                if i.op in ("select",) and i.ty != "i1":
                    c = self.v(st, i.ops[0])
                    for tr in (True, False):
                        for s2 in self.split(st.fork(), i.ops[0], tr):
                            s2.val[id(i)] = self.v(s2, i.ops[1 if tr else 2])
                            work.append((b, prev, s2, i.idx + 1))
                    dead = True
                    break
                if i.iscall and self.on_exc and not i.nounwind and not (i.cname() or "").startswith("llvm.") and not (self.quiet and self.quiet(i, i.cname() or "")):
                    if i.op == "invoke":
                        s2 = st.fork()
                        s2.tag["exc"] = i
                        work.append((i.unwind, b, s2, 0))
                    else:
                        self.report(self.on_exc, st.fork(), i)
                r = self.inst(st, i)
                if r is False:
                    dead = True
                    break
                if isinstance(r, list):
                    for s2, v in r:
                        s2.val[id(i)] = v
                        if i is b.term:
                            self.leave(b, s2, work)
                        else:
                            work.append((b, prev, s2, i.idx + 1))
                    dead = True
                    break
            if not dead:
                self.leave(b, st, work)

    def leave(self, b, st, work):
        t = b.term
        if t.op == "ret":
            self.report(self.on_ret, st, t, self.v(st, t.ops[0]) if t.ops else None)
        elif t.op == "resume":
            if self.on_exc:
                self.report(self.on_exc, st, st.tag.get("exc", t))
        elif t.op == "br" and t.ops:
            if t.succs[0] is t.succs[1]:
                work.append((t.succs[0], b, st, 0))
            else:
                for n, tr in ((t.succs[0], True), (t.succs[1], False)):
                    for s2 in self.split(st.fork(), t.ops[0], tr):
                        work.append((n, b, s2, 0))
        elif t.op == "switch":
            v = self.v(st, t.ops[0])
            rest = st.fork()
            live = True
            for cv, cb in t.cases:
                s2 = rest.fork() if live else None
                if s2 is not None and self.assume(s2, self.cmp(s2, "eq", self.v(s2, t.ops[0]), K(cv.v), cv.width), True):
                    work.append((cb, b, s2, 0))
                live = live and self.assume(rest, self.cmp(rest, "eq", self.v(rest, t.ops[0]), K(cv.v), cv.width), False)
            if live and t.succs[0] in succs(b):
                work.append((t.succs[0], b, rest, 0))
        elif t.op == "invoke":
            work.append((t.normal, b, st, 0))
        else:
            for n in succs(b):
                work.append((n, b, st.fork(), 0))

    # ---- loops
    def cells(self, st, h):
        r = {}
        for i in h.insts:
            if i.op != "phi":
                break
            r[("phi", i.idx)] = (st.val.get(id(i)), i)
        return r

    def enter(self, st, h):
        """first arrival: install what covers every iteration"""
        for i in h.insts:
            if i.op != "phi":
                break
            cell = ("phi", i.idx)
            if st.val.get(id(i)) is not None:
                self.entry.setdefault((st.hid(h), cell), set()).add(st.val[id(i)])
            if (st.hid(h), cell) in self.wide:
                st.val[id(i)] = self.widened(st, h, cell, st.val.get(id(i)), width(i.ty))
        for (hi, cell), vs in list(self.wide.items()):
            if hi != st.hid(h):
                continue
            if cell[0] == "mem":
                if cell[1] in st.mem:
                    self.entry.setdefault((st.hid(h), cell), set()).add(st.norm(st.mem[cell[1]]))
                st.mem[cell[1]] = self.widened(st, h, cell, st.mem.get(cell[1]), 64)
            elif cell[0] == "str":
                if cell[1] in st.strs:
                    self.first.setdefault(cell, set()).add(st.text(st.strs[cell[1]]))
                nm = ("L", st.hid(h), cell[1])
                st.tag[("entry", nm)] = st.text(st.strs[cell[1]]) if cell[1] in st.strs else (("a", ("S", cell[1])),)
                st.eq.pop(nm, None)
                st.ne.pop(nm, None)
                st.strs[cell[1]] = (("a", nm),)
            elif cell[0] == "ev":
                st.ev = st.ev + (("loop", st.hid(h)),)
            elif cell[0] == "pend":
                st.pend = ()
            elif cell[0] == "tag":
                st.tag[cell[1]] = self.widened(st, h, cell, st.tag.get(cell[1]), 64)
        st.inloop[st.hid(h)] = (dict(st.mem), dict(st.strs), {("phi", i.idx): st.val.get(id(i)) for i in h.insts if i.op == "phi"}, st.ev, dict(st.tag), st.pend)
        # facts about what only this iteration computes don't outlive it
        st.conds = {k: v for k, v in st.conds.items() if not mentions(k, st.hid(h), self)}

    def widened(self, st, h, cell, init, w):
        vs = self.wide[(st.hid(h), cell)]
        name = ("W", st.hid(h), cell)
        if vs is not True and init is not None:
            im = st.image(init)
            if im is None:
                vs = self.wide[(st.hid(h), cell)] = True
            else:
                vs |= im
        if vs is True or len(vs) > MAXDOM:
            return ("u", name)
        st.dom[name] = frozenset(vs)
        return st.norm(tab(name, {x: x for x in vs}))

    def again(self, st, h, prev):
        """a back edge: what it brings must be covered"""
        mem0, strs0, phi0, ev0, tag0, pend0 = st.inloop[st.hid(h)]
        changed = False
        for i in h.insts:
            if i.op != "phi":
                break
            nv = [self.v(st, v) for v, pb in i.inc if pb is prev][0]
            changed |= self.cover(st, h, ("phi", i.idx), phi0.get(("phi", i.idx)), nv)
        for k in set(mem0) | set(st.mem):
            if k[0] and isinstance(k[0], tuple) and k[0][0] == "A" and k not in mem0:
                continue            # a local first written inside the loop
            changed |= self.cover(st, h, ("mem", k), mem0.get(k), st.mem.get(k))
        for k in set(tag0) | set(st.tag):
            if tag0.get(k) != st.tag.get(k) and isinstance(k, str) and k.startswith("$"):
                changed |= self.cover(st, h, ("tag", k), tag0.get(k), st.tag.get(k))
        for k in set(strs0) | set(st.strs):
            a, b = strs0.get(k), st.strs.get(k)
            if a is None or b is None:
                if a is None and isinstance(k[0], tuple) and k[0][0] == "A":
                    continue
                a = a if a is not None else (("a", ("S", k)),)
                b = b if b is not None else (("a", ("S", k)),)
            if st.text(a) != st.text(b) and (st.hid(h), ("str", k)) not in self.wide:
                self.wide[(st.hid(h), ("str", k))] = True
                changed = True
        if st.ev != ev0 and (st.hid(h), ("ev",)) not in self.wide:
            self.wide[(st.hid(h), ("ev",))] = True
            changed = True
        if changed:
            raise Restart()
        self.report(self.on_back, st, h)

    def cover(self, st, h, cell, a, b):
        if a is None or b is None:
            if a is b:
                return False
            a = a if a is not None else ("u", ("M", cell[1]))
            b = b if b is not None else ("u", ("M", cell[1]))
        if st.norm(a) == st.norm(b):
            return False
        key = (st.hid(h), cell)
        vs = self.wide.get(key)
        if vs is True:
            return False
        im = st.image(b)
        if im is None or (cell[0] == "mem" and a[0] in ("p", "c", "u")):
            self.wide[key] = True
            return True
        if vs is None:
            vs = self.wide[key] = set()
        n = len(vs)
        vs |= im
        g = self.grown.setdefault(key, set())
        if len(vs) > n:
            g.add(len(vs))
            if len(g) > 12 or len(vs) > MAXDOM:
                self.wide[key] = True
            return True
        return False

    # ---- conditions
    def split(self, st, c, tr):
        """states in which condition c (an IR value) has that truth"""
        r = []
        for alt in dnf(c, tr):
            s2 = st.fork()
            if all(self.assume(s2, self.v(s2, x), t) for x, t in alt):
                r.append(s2)
        return r

    def assume(self, st, v, tr):
        v = st.norm(v)
        if v[0] == "k":
            return bool(v[1] & 1) == tr
        if v[0] == "t":
            keep = {a for a, x in v[2] if bool(x & 1) == tr} & st.dom[v[1]]
            if not keep:
                return False
            st.dom[v[1]] = frozenset(keep)
            return True
        if v[0] == "b":
            return self.predicate(st, v, tr)
        key = v
        if key in st.conds:
            return st.conds[key] == tr
        st.conds[key] = tr
        st.hist = st.hist + ((key, tr),)
        return True

    def predicate(self, st, v, tr):
        """("b", "eq", text, text), ("b", "not", b)"""
        if v[1] == "not":
            return self.assume(st, v[2], not tr)
        a, b = st.text(v[2]), st.text(v[3])
        d = self.equal(st, a, b)
        if d is not None:
            return d == tr
        if len(b) == 1 and b[0][0] == "a" and not (len(a) == 1 and a[0][0] == "a"):
            a, b = b, a
        lb = lit_of(b)
        if lb is not None:
            if len(a) == 1 and a[0][0] == "a":
                if tr:
                    if lb in st.ne.get(a[0][1], ()):
                        return False
                    st.eq[a[0][1]] = lb
                else:
                    st.ne[a[0][1]] = st.ne.get(a[0][1], frozenset()) | {lb}
                st.hist = st.hist + ((("b", "eq", a, b), tr),)
                return True
            if len(a) == 1 and a[0][0] == "t":
                keep = {k for k, x in a[0][2] if (x == lb) == tr}
                if not keep:
                    return False
                st.dom[a[0][1]] = st.dom[a[0][1]] & keep
                return bool(st.dom[a[0][1]])
        key = ("b", "eq", a, b)
        if key in st.conds:
            return st.conds[key] == tr
        st.conds[key] = tr
        st.hist = st.hist + ((key, tr),)
        return True

    def equal(self, st, a, b):
        """True, False or None"""
        if a == b:
            return True
        la, lb = lit_of(a), lit_of(b)
        if la is not None and lb is not None:
            return la == lb
        for x, y in ((a, lb), (b, la)):
            if y is None:
                continue
            lo = sum(len(s[1]) if s[0] == "l" else min(len(c) for _, c in s[2]) if s[0] == "t" else 0 for s in x)
            if lo > len(y):
                return False
            if all(s[0] != "a" for s in x):
                hi = sum(len(s[1]) if s[0] == "l" else max(len(c) for _, c in s[2]) for s in x)
                if hi < len(y):
                    return False
            if len(x) == 1 and x[0][0] == "a" and y in st.ne.get(x[0][1], ()):
                return False
            if x and x[0][0] == "l" and not y.startswith(x[0][1]) or x and x[-1][0] == "l" and not y.endswith(x[-1][1]):
                return False
        return None

    def cmp(self, st, p, a, b, w):
        def f(x, y):
            if p in ("slt", "sle", "sgt", "sge"):
                x, y = sg(x, w), sg(y, w)
            q = p[-2:] if p not in ("eq", "ne") else p
            return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[q])
        a, b = st.norm(a), st.norm(b)
        r = self.point(st, f, a, b)
        if r is not None:
            return r
        if b[0] == "n" and a[0] != "n":
            a, b, p = b, a, {"ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule"}.get(p, p)
        if a[0] == "n" and b[0] == "k":
            t = st.text(a[1])
            lo = sum(len(s[1]) if s[0] == "l" else min(len(c) for _, c in s[2]) if s[0] == "t" else 0 for s in t)
            hi = None if any(s[0] == "a" for s in t) else sum(len(s[1]) if s[0] == "l" else max(len(c) for _, c in s[2]) for s in t)
            if lo == hi:
                return K(f(lo, b[1]))
            if any(s[0] == "a" and b"" in st.ne.get(s[1], ()) for s in t):
                lo = max(lo, 1)
            n = b[1]
            if p in ("eq", "ne") and (n < lo or hi is not None and n > hi):
                return K(int(p == "ne"))
            if p == "ugt" and lo > n or p == "uge" and lo >= n:
                return K(1)
            if p == "ult" and lo >= n or p == "ule" and lo > n:
                return K(0)
            if (p, n) in (("eq", 0), ("ult", 1), ("ule", 0)):
                return ("b", "eq", t, ())
            if (p, n) in (("ne", 0), ("ugt", 0), ("uge", 1)):
                return ("b", "not", ("b", "eq", t, ()))
        if a[0] == "p" and b[0] == "p":
            if a == b and a[2] is not None:
                return K(int(p in ("eq", "ule", "uge")))
            for x, y in ((a, b), (b, a)):
                if y[1] == "null" and isinstance(x[1], tuple) and (x[1][0] in ("A", "g", "f") or x[1][0] == "arg" and x[1][1] in self.nonnull):
                    return K(int(p == "ne"))
        if {a[0], b[0]} == {"c", "p"} and ("p", "null", 0) in (a, b):
            return K(int(p == "ne"))
        if p in ("ne",) or p in ("ugt", "uge", "sgt", "sge") and False:
            return ("b", "not", ("u", ("cmp", NEG[p], a, b)))
        if p in ("ugt", "uge", "sgt", "sge"):
            return ("b", "not", ("u", ("cmp", NEG[p], a, b)))
        if p == "eq" and repr(b) < repr(a):
            a, b = b, a
        return ("u", ("cmp", p, a, b))

    # ---- memory
    def key(self, p):
        return (p[1], p[2]) if p[0] == "p" else ("?", p)

    def load(self, st, p, ty, i):
        if p[0] == "c":                 # a character of a text
            t = st.text(p[1])
            n = p[2]
            if n[0] == "k":
                pos = n[1]
                for s in t:
                    if s[0] == "l":
                        if pos < len(s[1]):
                            return K(s[1][pos])
                        pos -= len(s[1])
                    elif s[0] == "t" and all(len(c) == 1 for _, c in s[2]):
                        if pos == 0:
                            return st.norm(tab(s[1], {a: c[0] for a, c in s[2]}))
                        pos -= 1
                    else:
                        break
                else:
                    if pos == 0:
                        return K(0)
            nm = ("at", t, n)
            if nm not in st.dom:
                st.dom[nm] = frozenset(BYTES)
            return st.norm(tab(nm, {x: x for x in BYTES}))
        if p[0] == "p":
            k = self.key(p)
            if self.volatile and i is not None and i.volatile and ty in ("i8", "i1"):     # another thread may change it
                st.seq += 1
                nm = ("V", k, st.seq)
                st.dom[nm] = frozenset(BYTES if ty == "i8" else (0, 1))
                return st.norm(tab(nm, {x: x for x in st.dom[nm]}))
            if k in st.mem and k[1] is not None:
                return st.norm(st.mem[k])
            if ty == "ptr":
                return ("p", ("ld",) + k, 0)
            v = ("u", ("M", k))
            if ty in ("i8", "i1"):
                d = BYTES if ty == "i8" else (0, 1)
                nm = ("M", k)
                if nm not in st.dom:
                    st.dom[nm] = frozenset(d)
                v = tab(nm, {x: x for x in d})
            if k[1] is not None:
                st.mem[k] = v
            return st.norm(v)
        return ("u", ("load", p))

    def store(self, st, p, v):
        if p[0] == "p":
            st.mem[self.key(p)] = v

    # ---- instructions
    def inst(self, st, i):
        op = i.op
        if i.iscall:
            return self.docall(st, i)
        if op in ("br", "switch", "ret", "resume", "unreachable", "alloca", "landingpad"):
            return None
        if op == "store":
            p, v = self.v(st, i.ops[1]), self.v(st, i.ops[0])
            if self.on_mem:
                self.on_mem(st, i, p, v)
            self.store(st, p, v)
            return None
        if op == "load":
            if self.on_mem:
                self.on_mem(st, i, self.v(st, i.ops[0]), None)
            st.val[id(i)] = self.load(st, self.v(st, i.ops[0]), i.ty, i)
            return None
        if op == "gep":
            p = self.shift(self.v(st, i.ops[0]), K((i.off or 0) % (1 << 64)))
            for x, sc in i.var or ():
                n = self.v(st, x)
                p = self.shift(p, n if sc == 1 else K(n[1] * sc) if n[0] == "k" else ("u", ("mul", n, sc)))
            st.val[id(i)] = p
            return None
        w = width(i.ty)
        if op in ("bitcast", "freeze", "ptrtoint", "inttoptr"):
            st.val[id(i)] = self.v(st, i.ops[0])
            return None
        if op == "icmp":
            wo = next((width(o.ty) for o in i.ops if o.kind in ("inst", "arg")), 64)
            st.val[id(i)] = self.cmp(st, i.pred, self.v(st, i.ops[0]), self.v(st, i.ops[1]), wo)
            return None
        if op in ("zext", "sext", "trunc"):
            a = self.v(st, i.ops[0])
            wo = width(i.ops[0].ty) if i.ops[0].kind in ("inst", "arg") else 64
            if a[0] == "b" or a[0] == "u" and wo == 1:
                r = []
                for tr in (True, False):
                    s2 = st.fork()
                    if self.assume(s2, a, tr):
                        r.append((s2, K(int(tr) if op != "sext" else (1 << w) - 1 if tr else 0)))
                return r
            v = self.arith(st, op, a, K(0), w, wo)
            st.val[id(i)] = v if v is not None else a if a[0] == "n" and op != "trunc" else ("u", (op, w, a))
            return None
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            a, b = self.v(st, i.ops[0]), self.v(st, i.ops[1])
            if op == "xor" and w == 1 and b == K(1):
                st.val[id(i)] = ("b", "not", a) if a[0] in ("b", "u") else self.arith(st, op, a, b, w)
                return None
            v = self.arith(st, op, a, b, w)
            st.val[id(i)] = v if v is not None else ("u", (op, w, a, b))
            return None
        if op == "select":                                     # of conditions
            r = []
            for tr in (True, False):
                for s2 in self.split(st.fork(), i.ops[0], tr):
                    r.append((s2, self.v(s2, i.ops[1 if tr else 2])))
            return r
        if op == "extractvalue" or op == "insertvalue":
            st.val[id(i)] = ("u", ("i", i.bb.idx, i.idx))
            return None
        if i.ty != "void":
            st.val[id(i)] = ("u", (op, w) + tuple(self.v(st, o) for o in i.ops))
        return None

    def docall(self, st, i):
        n = i.cname() or ""
        if n.startswith(("llvm.dbg", "llvm.lifetime", "__cxa_allocate_exception", "__cxa_free_exception")):
            return None
        if self.on_call:
            self.on_call(self, st, i, n)
        if self.call:
            r = self.call(self, st, i, n)
            if r is not NotImplemented:
                return self.result(st, i, r)
        if n in ("__cxa_throw", "__cxa_rethrow") or n.startswith("std::__throw_"):
            self.report(self.on_throw, st, i)
            if i.op == "invoke" and self.on_exc:
                return False
            return False
        if n in ("__clang_call_terminate", "abort", "exit", "std::terminate()", "llvm.trap", "__assert_fail"):
            return False
        r = self.model(st, i, n)
        if r is NotImplemented:
            r = self.unknown(st, i, n)
        return self.result(st, i, r)

    def result(self, st, i, r):
        if r is False:
            return False
        if isinstance(r, list):
            return [(s2, v if v is not None else ("u", ("i", i.bb.idx, i.idx))) for s2, v in r]
        if r is not None:
            st.val[id(i)] = r
        return None

    def unknown(self, st, i, n):
        """anything reachable from a pointer that isn't passed as const may have changed"""
        pure = n.endswith(" const") or n.startswith("llvm.")
        st.seq += 1
        tok = (i.bb.idx, i.idx)
        const = param_const(n)
        for j, o in enumerate(i.ops):
            p = self.v(st, o)
            if p[0] != "p" or pure and j == 0 or const(j, len(i.ops)):
                continue
            for k in list(st.mem):
                if k[0] == p[1] and (p[2] is None or k[1] is None or k[1] >= p[2]):
                    del st.mem[k]
                    st.mem[k] = ("u", ("C", tok, k))
            for k in list(st.strs):
                if k[0] == p[1] and (p[2] is None or k[1] is None or k[1] >= p[2]):
                    st.strs[k] = (("a", ("C", tok, k)),)
            if (p[1], p[2]) not in st.strs:
                st.strs[(p[1], p[2])] = (("a", ("C", tok, (p[1], p[2]))),)
        if i.ty == "void":
            return None
        if i.ty == "ptr":
            return ("p", ("C", tok), 0)
        return ("u", ("C", tok, n) + tuple(self.v(st, o) for o in i.ops[:3] if o.kind != "other"))

    # ---- the library
    def str_arg(self, st, o, n=None):
        """text of a std::string reference"""
        p = self.v(st, o)
        return st.content(self.key(p))

    def model(self, st, i, n):
        if n in CTYPE or n.startswith("std::is") and n[5:].split("(")[0] in CTYPE and "locale" not in n:
            f = ctab(CTYPE[n if n in CTYPE else n[5:].split("(")[0]])
            r = self.point(st, lambda x, y: f(x, 32), self.v(st, i.ops[0]), K(0))
            return r if r is not None else ("u", (n, self.v(st, i.ops[0])))
        if n in ("toupper", "tolower"):
            g = (lambda c: c - 32 if 97 <= c <= 122 else c) if n == "toupper" else (lambda c: c + 32 if 65 <= c <= 90 else c)
            r = self.point(st, lambda x, y: g(x), self.v(st, i.ops[0]), K(0))
            return r if r is not None else ("u", (n, self.v(st, i.ops[0])))
        m = re.match(r"std::numeric_limits<((?:unsigned |signed )?\w+)>::(max|min)\(\)$", n)
        if m:
            w = width(i.ty)
            u = m.group(1).startswith("unsigned") or m.group(1) in ("bool",)
            return K(((1 << w) - 1 if u else (1 << (w - 1)) - 1) if m.group(2) == "max" else (0 if u else 1 << (w - 1)))
        if re.search(r"::~\w+\(\)$", n) or "__new_allocator" in n or re.match(r"std::allocator<char>::", n):
            return None if i.ty == "void" else ("u", ("i", i.bb.idx, i.idx))
        if re.search(r"&& std::(move|forward)<", n) or re.search(r"std::addressof<|std::__addressof<", n):
            return self.v(st, i.ops[0])
        if re.match(r"(std::string& |void )?std::string::", n):
            return self.string(st, i, n.split("std::string::", 1)[1] if n.startswith("std::string::") else re.sub(r"^\S+ std::string::", "", n))
        m = re.match(r"(?:bool|std::string) std::operator(==|!=|\+)<", n) or re.match(r"std::operator(==|!=|\+)<", n)
        if m and "std::string" in n or m and "basic_string" in n:
            k = 1 if m.group(1) == "+" else 0
            parts = params(n)
            ts = []
            for o, ty in zip(i.ops[k:], parts):
                v = self.v(st, o)
                ts.append(st.cstr(v) if "char const*" in ty else st.char(v) if ty == "char" else st.content(self.key(v)))
            if k:
                st.strs[self.key(self.v(st, i.ops[0]))] = join(*ts)
                return None
            r = ("b", "eq", ts[0], ts[1])
            d = self.equal(st, ts[0], ts[1])
            if d is not None:
                return K(int(d == (m.group(1) == "==")))
            return r if m.group(1) == "==" else ("b", "not", r)
        if re.match(r"(__isoc23_)?strto(l|ul|ll|ull)$", n):
            p = self.v(st, i.ops[0])
            e = self.v(st, i.ops[1])
            if e[0] == "p" and e[1] != "null":
                st.mem[self.key(e)] = ("u", ("end", i.bb.idx, i.idx))
            return ("u", ("strtol", p if p[0] != "c" else ("c", st.text(p[1]), p[2]), self.v(st, i.ops[2])))
        if n in ("strlen",):
            return ("n", st.cstr(self.v(st, i.ops[0])))
        if n == "strcmp":
            a, b = st.cstr(self.v(st, i.ops[0])), st.cstr(self.v(st, i.ops[1]))
            r = []
            for tr in (True, False):
                s2 = st.fork()
                if self.assume(s2, ("b", "eq", a, b), tr):
                    r.append((s2, K(0) if tr else ("u", ("strcmp", a, b))))
            return r
        r = self.instream(st, i, n)
        if r is NotImplemented:
            r = self.outstream(st, i, n)
        if r is not NotImplemented:
            return r
        m = re.match(r"(?:std::)?(?:__cxx11::)?to_string\((.*)\)", n)
        if m:
            st.strs[self.key(self.v(st, i.ops[0]))] = st.number(self.v(st, i.ops[1]), width(i.ops[1].ty) if i.ops[1].kind in ("inst", "arg") else i.ops[1].width, "unsigned" not in m.group(1), {})
            return None
        if n in ("snprintf", "sprintf"):
            k = 2 if n == "snprintf" else 1
            f = st.cstr(self.v(st, i.ops[k]))
            dst = self.key(self.v(st, i.ops[0]))
            st.strs[dst] = (("a", ("printf", i.bb.idx, i.idx)),)
            lf = lit_of(f)
            mm = lf is not None and re.match(rb"([^%]*)%(0?)(\d*)([dux])([^%]*)$", lf)
            if mm and len(i.ops) > k + 1:
                fm = {"w": int(mm.group(3) or 0), "f": b"0" if mm.group(2) else b" ", "b": 16 if mm.group(4) == b"x" else 10}
                o = i.ops[k + 1]
                st.strs[dst] = join(lit(mm.group(1)), st.number(self.v(st, o), 32, mm.group(4) == b"d", fm), lit(mm.group(5)))
            return ("u", ("i", i.bb.idx, i.idx))
        if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            p = self.v(st, i.ops[0])
            if p[0] == "p":
                for k in [k for k in st.mem if k[0] == p[1]]:
                    st.mem[k] = ("u", ("C", (i.bb.idx, i.idx), k))
            return None
        return NotImplemented

    def string(self, st, i, m):
        """member functions of std::string"""
        f = re.sub(r"^(basic_string|append|assign|replace|insert|compare|find)<.*", r"\1", m.split("(")[0])
        ps = params(m)
        k = self.key(self.v(st, i.ops[0]))

        def part(j):
            """text of the arguments from position j on"""
            ty = ps[j - 1] if j - 1 < len(ps) else ""
            v = self.v(st, i.ops[j])
            if ty in ("std::string const&", "std::string&&", "std::string&"):
                if len(ps) >= j + 2 and "unsigned long" in ps[j]:
                    return (("a", ("sub", st.content(self.key(v)), self.v(st, i.ops[j + 1]), self.v(st, i.ops[j + 2]) if len(i.ops) > j + 2 else None)),)
                return st.content(self.key(v))
            if ty == "char const*":
                if len(ps) >= j + 1 and ps[j] == "unsigned long":
                    n = self.v(st, i.ops[j + 1])
                    t = st.cstr(v)
                    l = lit_of(t)
                    if n[0] == "k" and l is not None:
                        return lit(l[:n[1]])
                    if n[0] == "n" and v[0] == "c" and v[2] == K(0) and st.text(n[1]) == st.text(v[1]):
                        return st.text(v[1])
                    return (("a", ("sub", t, K(0), n)),)
                return st.cstr(v)
            if ty == "char":
                return st.char(v)
            if ty == "unsigned long" and len(ps) > j and ps[j] == "char":
                n = self.v(st, v and i.ops[j])
                c = self.v(st, i.ops[j + 1])
                if n[0] == "k" and n[1] <= 64:
                    return join(*[st.char(c)] * n[1])
                return (("a", ("rep", n, c)),)
            if "iterator<" in ty and len(ps) > j and "iterator<" in ps[j]:
                w = self.v(st, i.ops[j + 1])
                if v[0] == "c" and w[0] == "c" and st.text(v[1]) == st.text(w[1]) and v[2] == K(0) and w[2][0] == "n" and st.text(w[2][1]) == st.text(v[1]):
                    return st.text(v[1])
            if ty.startswith("std::initializer_list"):
                return (("a", ("il", i.bb.idx, i.idx)),)
            return (("a", ("i", i.bb.idx, i.idx)),)
        if f == "basic_string":
            st.strs[k] = part(1) if ps and not ps[0].startswith("std::allocator") else ()
            if ps and ps[0] == "std::string&&":
                st.strs[self.key(self.v(st, i.ops[1]))] = ()
            return None
        if f in ("operator=", "assign"):
            t = part(1)
            if ps and ps[0] == "std::string&&":
                st.strs[self.key(self.v(st, i.ops[1]))] = ()
            st.strs[k] = t
            return self.v(st, i.ops[0])
        if f in ("operator+=", "append", "push_back"):
            st.strs[k] = join(st.content(k), part(1))
            return self.v(st, i.ops[0]) if i.ty != "void" else None
        if f == "clear":
            st.strs[k] = ()
            return None
        if f == "empty":
            return self.cmp(st, "eq", ("n", st.content(k)), K(0), 64)
        if f in ("size", "length"):
            return ("n", st.content(k))
        if f in ("c_str", "data"):
            return ("c", st.content(k), K(0))
        if f in ("operator[]", "at"):
            return ("c", st.content(k), self.v(st, i.ops[1]))
        if f in ("begin", "cbegin"):
            return ("c", st.content(k), K(0))
        if f in ("end", "cend"):
            return ("c", st.content(k), ("n", st.content(k)))
        if f in ("front", "back"):
            t = st.content(k)
            if f == "back" and t and t[-1][0] == "l":
                return ("c", lit(t[-1][1][-1:]), K(0))
            return ("c", t, K(0) if f == "front" else ("u", "last"))
        if f == "swap":
            k2 = self.key(self.v(st, i.ops[1]))
            st.strs[k], st.strs[k2] = st.content(k2), st.content(k)
            return None
        if f == "substr":
            k2 = self.key(self.v(st, i.ops[1]))
            a, b = self.v(st, i.ops[2]), self.v(st, i.ops[3])
            t = st.content(k2)
            if a == K(0) and b == K((1 << 64) - 1):
                st.strs[k] = t
            else:
                l = lit_of(t)
                if l is not None and a[0] == "k" and b[0] == "k":
                    st.strs[k] = lit(l[a[1]:a[1] + b[1]])
                else:
                    st.strs[k] = (("a", ("sub", t, a, b)),)
            return None
        if f in ("reserve", "shrink_to_fit"):
            return None
        if f in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "compare", "begin", "end", "cbegin", "cend", "capacity", "max_size"):
            if f == "compare" and len(ps) == 1:
                r = []
                for tr in (True, False):
                    s2 = st.fork()
                    if self.assume(s2, ("b", "eq", st.content(k), part(1)), tr):
                        r.append((s2, K(0) if tr else ("u", ("compare", st.content(k), part(1)))))
                return r
            args = tuple(self.v(st, o) if not (p == "std::string const&") else st.content(self.key(self.v(st, o))) for o, p in zip(i.ops[1:], ps + [""] * 9))
            v = ("u", (f, st.content(k)) + args)
            return v if i.ty != "ptr" else ("p", v[1], 0)
        if f in ("pop_back", "erase", "resize", "insert", "replace"):
            st.strs[k] = (("a", (f, i.bb.idx, i.idx, st.content(k))),)
            return ("u", ("i", i.bb.idx, i.idx)) if i.ty != "void" else None
        return NotImplemented

    # input: one stream
    def got(self, st, i):
        """states after trying to read one character: (state, value or None)"""
        r = []
        s2 = st.fork()
        if s2.pend:
            v = s2.pend[-1]
            s2.pend = s2.pend[:-1]
            s2.good = True
            s2.ev = s2.ev + (("reget", v),)
            return [(s2, v)]
        st.seq = s2.seq = st.seq + 1
        nm = ("in", s2.seq)
        v = s2.atom(nm, BYTES)
        s2.good = True
        s2.ev = s2.ev + (("get", nm),)
        if not s2.done:
            r.append((s2, v))
        s3 = st.fork()
        s3.good = False
        s3.done = True
        s3.ev = s3.ev + (("eof", i.bb.idx),)
        r.append((s3, None))
        return r

    def instream(self, st, i, n):
        if n == "std::istream::get(char&)":
            r = []
            for s2, v in self.got(st, i):
                if v is not None:
                    self.store(s2, self.v(s2, i.ops[1]), v)
                r.append((s2, self.v(s2, i.ops[0])))
            return r
        if n in ("std::istream::get()", "fgetc", "getc", "getchar", "_IO_getc"):
            r = []
            for s2, v in self.got(st, i):
                r.append((s2, K(0xffffffff) if v is None else v))
            return r
        if n == "std::istream::peek()":
            r = []
            for s2, v in self.got(st, i):
                if v is not None:
                    s2.pend = s2.pend + (v,)
                    if s2.ev[-1][0] == "get":
                        s2.ev = s2.ev[:-1] + (("peek", s2.ev[-1][1]),)
                    else:
                        s2.ev = s2.ev[:-1]
                r.append((s2, K(0xffffffff) if v is None else v))
            return r
        if n == "std::istream::putback(char)" or n == "ungetc":
            v = self.v(st, i.ops[1 if n != "ungetc" else 0])
            if n == "ungetc":
                v = self.arith(st, "trunc", v, K(0), 8) or v
            st.pend = st.pend + (v,)
            st.ev = st.ev + (("unget", v),)
            return self.v(st, i.ops[0]) if n != "ungetc" else v
        if re.match(r"std::basic_ios<.*>::(good|operator bool|operator void\*)\(\) const", n) and self.instate(n, i, st):
            return K(int(st.good))
        if re.match(r"std::basic_ios<.*>::(fail|eof|bad|operator!)\(\) const", n) and self.instate(n, i, st):
            return K(int(not st.good))
        if n == "feof":
            return K(int(not st.good))
        return NotImplemented

    def instate(self, n, i, st):
        return any(e[0] in ("get", "eof", "reget", "loop") for e in st.ev)

    # output: a stream is the text written to it
    def skey(self, st, o):
        p = self.v(st, o)
        return (p[1], 0) if p[0] == "p" else self.key(p)

    def put(self, st, k, t):
        st.strs[k] = join(st.content(k), t)
        f = dict(st.fmt.get(k, {}))
        f.pop("w", None)
        st.fmt[k] = f

    def outstream(self, st, i, n):
        m = re.match(r"std::basic_ostringstream<.*?>::(basic_ostringstream|str)\((.*)\)( const)?", n) or re.match(r"std::(?:ostringstream|stringstream)::(\w+)\((.*)\)( const)?", n) or \
            re.match(r"std::basic_stringstream<.*?>::(basic_stringstream|str)\((.*)\)( const)?", n)
        if m:
            if m.group(1) == "str":
                if m.group(3):
                    st.strs[self.key(self.v(st, i.ops[0]))] = st.content(self.skey(st, i.ops[1]))
                else:
                    st.strs[self.skey(st, i.ops[0])] = self.str_arg(st, i.ops[1])
                return None
            k = self.skey(st, i.ops[0])
            st.strs[k] = ()
            st.fmt[k] = {}
            return None
        if n.startswith("std::setw(") or "std::setfill<" in n:
            v = self.v(st, i.ops[0])
            return v
        m = re.match(r"(?:std::basic_ostream<.*?>|std::ostream)& std::operator<< ?<.*>\((?:std::basic_ostream<.*?>|std::ostream)&, (.*)\)$", n)
        if m:
            ty = m.group(1)
            k = self.skey(st, i.ops[0])
            v = self.v(st, i.ops[1])
            if "_Setw" in ty:
                st.fmt[k] = dict(st.fmt.get(k, {}), w=v[1] if v[0] == "k" else 0)
            elif "_Setfill" in ty:
                st.fmt[k] = dict(st.fmt.get(k, {}), f=bytes([v[1]]) if v[0] == "k" else b"?")
            else:
                w = st.fmt.get(k, {}).get("w", 0)
                t = st.cstr(v) if "char const*" in ty else st.char(v) if ty in ("char", "unsigned char", "signed char") else st.content(self.key(v))
                l = lit_of(t)
                if w and l is not None:
                    t = lit(l.rjust(w, st.fmt[k].get("f", b" ")))
                elif w:
                    t = join((("a", ("pad", w)),), t)
                self.put(st, k, t)
            return self.v(st, i.ops[0])
        m = re.match(r"std::ostream::operator<<\((.*)\)$", n)
        if m:
            ty = m.group(1)
            k = self.skey(st, i.ops[0])
            v = self.v(st, i.ops[1])
            if "(*)" in ty:
                nm = v[1][1] if v[0] == "p" and isinstance(v[1], tuple) and v[1][0] == "f" else ""
                b = {"std::hex": 16, "std::dec": 10, "std::oct": 8}.get(nm.split("(")[0])
                if b:
                    st.fmt[k] = dict(st.fmt.get(k, {}), b=b)
                elif "endl" in nm:
                    self.put(st, k, lit(b"\n"))
            elif ty in ("float", "double", "long double") or "*" in ty:
                self.put(st, k, (("a", ("num", ty)),))
            else:
                o = i.ops[1]
                w = o.width if o.kind == "const" else width(getattr(o, "ty", "i64"))
                self.put(st, k, st.number(v, w, "unsigned" not in ty and ty != "bool", st.fmt.get(k, {})))
            return self.v(st, i.ops[0])
        if n == "std::ostream::put(char)":
            self.put(st, self.skey(st, i.ops[0]), st.char(self.v(st, i.ops[1])))
            return self.v(st, i.ops[0])
        if n == "std::ostream::write(char const*, long)":
            p, c = self.v(st, i.ops[1]), self.v(st, i.ops[2])
            t = st.cstr(p)
            if not (c[0] == "n" and st.text(c[1]) == t):
                l = lit_of(t)
                t = lit(l[:c[1]]) if l is not None and c[0] == "k" else (("a", ("sub", t, K(0), c)),)
            self.put(st, self.skey(st, i.ops[0]), t)
            return self.v(st, i.ops[0])
        m = re.match(r"std::ios_base::width\(long\)|std::basic_ios<.*>::fill\(char\)", n)
        if m:
            k = self.skey(st, i.ops[0])
            v = self.v(st, i.ops[1])
            st.fmt[k] = dict(st.fmt.get(k, {}), **({"w": v[1] if v[0] == "k" else 0} if "width" in n else {"f": bytes([v[1]]) if v[0] == "k" else b"?"}))
            return ("u", ("i", i.bb.idx, i.idx))
        return NotImplemented


def lit_of(t):
    if not t:
        return b""
    if len(t) == 1 and t[0][0] == "l":
        return t[0][1]
    return None


def params(n):
    """parameter types of a demangled name"""
    n = re.sub(r"( const)?$", "", n)
    d, j = 0, None
    for j in range(len(n) - 1, -1, -1):
        if n[j] == ")":
            d += 1
        elif n[j] == "(":
            d -= 1
            if not d:
                break
    s, r, d = n[j + 1:-1], [], 0
    cur = ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and not d:
            r.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        r.append(cur.strip())
    return r


def param_const(n):
    """whether the j'th argument is passed as a pointer or reference to const"""
    ps = params(n) if n.endswith((")", " const")) else []

    def f(j, total):
        k = j - (total - len(ps))
        return 0 <= k < len(ps) and bool(re.search(r"const[&*]$", ps[k]))
    return f


def mentions(v, h, W):
    """whether a condition mentions a value computed by an instruction inside loop h: such conditions are about one iteration only"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] in ("i", "L", "W") and v[1] == h:
            return True
        return any(mentions(x, h, W) for x in v)
    return False


def show(t):
    r = []
    for s in t:
        if s[0] == "l":
            r.append(repr(s[1])[1:])
        elif s[0] == "t":
            r.append("<%s|%d>" % (s[1], len(s[2])))
        else:
            r.append("{%s}" % (s[1],))
    return " ".join(r)
