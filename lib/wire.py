"""Wire-event automata of serialisation functions (path sensitive in validity flags).

The words of the automaton of a function are the sequences of items it moves through the
buffer on its normally returning paths: scalars by size and signedness, raw blocks by size,
calls that move whole sub-objects, and, for flags a branch depends on, whether the flag was
zero.  Two directions of one type agree on the wire iff their languages are equal.
"""
import re
import ana
from ana import strip, succs, linear, NFA, expr

BUF = re.compile(r"^virtual classdesc::(?:pack_t|xdr_pack)::(append|popoff|packraw|unpackraw)\(")
KIND = {"bool": "i1", "char": "i1", "signed char": "i1", "unsigned char": "u1", "wchar_t": "u4", "short": "i2",
        "unsigned short": "u2", "int": "i4", "unsigned int": "u4", "long": "i8", "unsigned long": "u8", "long long": "i8",
        "unsigned long long": "u8", "float": "f4", "double": "f8", "long double": "f16"}
PURECALL = re.compile(r"::(size|length|data|c_str|begin|end|cbegin|cend|empty|capacity|get|operator\*|operator->|operator\[\]|at|front|back|max_size|count|find|lock|operator bool|expired|first|second|use_count|_M_ptr)\(")


def bufop(i):
    if not i.iscall:
        return None
    n = i.cname()
    m = n and BUF.match(n)
    return m.group(1) if m else None


def field_store(call, base, off):
    """value last stored to base+off before the call (dominating straight line), else None"""
    return ana.reaching_store(call, base, off)


def scalar(call):
    """(value pointer, size, filter kind) of an append/popoff call"""
    b, off, var = strip(call.ops[1])
    val = ana.reaching_store(call, b, off)
    size = ana.reaching_store(call, b, off + 8)
    flt = ana.reaching_store(call, b, off + 16)
    fk = None
    if flt is not None and flt.kind == "inst" and flt.iscall:
        m = re.search(r"XDR_filter<(.*)>\(", flt.cname() or "")
        if m:
            fk = KIND.get(m.group(1), m.group(1))
    sz = size.s if size is not None and size.kind == "const" else None
    return val, sz, fk


def normname(n):
    """name of a call that moves a sub-object, the same for both directions"""
    v = n.startswith("virtual ")
    n = re.sub(r"^virtual ", "", n)
    base = n.split("(")[0]
    if v:
        m = re.search(r"::(\w+)$", base) or re.search(r"slot (\d+)", n)
        return "virtual " + re.sub(r"^unpack", "pack", m.group(1) if m else base)
    n = re.sub(r"^[\w: ]+ (?=\w+::)", "", n) if n.startswith(("void ", "bool ")) else n
    n = re.sub(r"\bunpack", "pack", n)
    n = re.sub(r"\bconst\b", "", n)
    n = re.sub(r"[&\s]", "", n)
    n = re.sub(r"\(classdesc::pack_t,std::string,", "(", n)
    return n


def rawsize(v):
    """canonical size of a raw block: constant or k*n(+c)"""
    l = linear(v)
    c = l.get("", 0)
    ats = {k: x for k, x in l.items() if k}
    if not ats:
        return str(c)
    if len(ats) == 1:
        k, x = next(iter(ats.items()))
        return "%d*n%s" % (x, "" if not c else "%+d" % c)
    return "expr(%s)" % ",".join("%d" % x for x in sorted(ats.values()))


class Flags:
    """zero/nonzero abstraction of the conditions of one function"""

    def __init__(self, F):
        self.F = F
        self.slots = set()
        for i in F.insts():
            if i.op == "br" and i.ops or i.op == "switch":
                self._scan(i.ops[0], 6)

    def _scan(self, v, d):
        if d == 0 or v.kind != "inst":
            return
        if v.op == "load":
            b, o, var = strip(v.ops[0])
            if b.kind in ("inst",) and b.op == "alloca" and not var:
                self.slots.add((id(b), o))
            return
        if v.op in ("icmp",):
            if v.ops[1].kind in ("const", "null") and (v.ops[1].kind == "null" or v.ops[1].s == 0):
                self._scan(v.ops[0], d - 1)
            return
        if v.op in ("zext", "sext", "trunc", "freeze", "xor", "and", "or", "select", "ptrtoint"):
            for o in v.ops:
                self._scan(o, d - 1)

    def slot(self, p):
        b, o, var = strip(p)
        if var:
            return None
        return ("m", id(b), o)

    def tracked(self, p):
        b, o, var = strip(p)
        return not var and (id(b), o) in self.slots

    def nz(self, v, env, d=8):
        """True/False if known, ('k', key, polarity) if it is a trackable condition"""
        k = v.kind
        if k == "const":
            return v.v != 0
        if k == "null":
            return False
        if k in ("global", "func"):
            return True
        if k != "inst" or d == 0:
            return ("k", ("v", id(v)), True)
        if v.op in ("zext", "sext", "trunc", "freeze", "bitcast", "ptrtoint", "inttoptr"):
            return self.nz(v.ops[0], env, d - 1)
        if v.op == "icmp" and v.pred in ("eq", "ne", "ugt") and (v.ops[1].kind == "null" or v.ops[1].kind == "const" and v.ops[1].s == 0):
            r = self.nz(v.ops[0], env, d - 1)
            if v.pred in ("ne", "ugt"):
                return r
            return self.neg(r)
        if v.op == "xor" and v.ops[1].kind == "const" and v.ty == "i1":
            return self.neg(self.nz(v.ops[0], env, d - 1))
        if v.op == "and" and v.ops[1].kind == "const" and v.ops[1].s & 1 and v.ops[0].kind == "inst" and v.ops[0].op == "load":
            return self.nz(v.ops[0], env, d - 1)
        if v.op == "add" and v.ops[1].kind == "const" and v.ops[1].s > 0:
            return True
        if v.op == "load":
            s = self.slot(v.ops[0])
            key = s if s else ("v", id(v))
        elif v.op == "call" and PURECALL.search(v.cname() or "") or v.op == "invoke" and PURECALL.search(v.cname() or ""):
            key = ("c", re.sub(r" const$", "", v.cname()), tuple(expr(o) for o in v.ops))
        else:
            key = ("v", id(v))
        e = env.get(key)
        if e is not None:
            if isinstance(e, bool):
                return e
            # alias to another condition
            r = env.get(e[1])
            if isinstance(r, bool):
                return r == e[2]
            return e
        return ("k", key, True)

    @staticmethod
    def neg(r):
        if isinstance(r, bool):
            return not r
        return (r[0], r[1], not r[2])


def build(F, events, bufarg=None, limit=6000):
    """path-sensitive NFA. events(inst)-> list of labels; label ('scalar', text, slotptr, direction) or text"""
    fl = Flags(F)
    A = NFA()
    start = {}
    work = []

    def at(b, env):
        env = tuple(sorted(env.items(), key=repr))
        if (b, env) not in start:
            start[(b, env)] = A.state()
            work.append((b, dict(env)))
        return start[(b, env)]

    def enter(frm, to, env):
        e = dict(env)
        phis = []
        for i in to.insts:
            if i.op != "phi":
                break
            for v, pb in i.inc:
                if pb is frm:
                    phis.append((i, fl.nz(v, env)))
        for i, r in phis:
            if isinstance(r, bool):
                e[("v", id(i))] = r
            elif r[1] != ("v", id(i)):
                x = env.get(r[1])
                if isinstance(x, bool):
                    e[("v", id(i))] = (x == r[2])
                else:
                    e.pop(("v", id(i)), None)
        return at(to, e)
    A.start = at(F.blocks[0], {})
    while work:
        if len(start) > limit:
            return None
        b, env = work.pop()
        cur = [(start[(b, tuple(sorted(env.items(), key=repr)))], env)]
        for i in b.insts:
            if i.op == "phi":
                continue
            nxt = []
            lab = events(i)
            for (s, e) in cur:
                if ("v", id(i)) in e:
                    e = dict(e)
                    del e[("v", id(i))]
                if i.op == "store":
                    bs, o, var = strip(i.ops[1])
                    k = ("m", id(bs), o)
                    e = dict(e)
                    if var:
                        for x in [x for x in e if x[0] == "m" and x[1] == id(bs)]:
                            del e[x]
                    else:
                        r = fl.nz(i.ops[0], e)
                        e.pop(k, None)
                        if isinstance(r, bool):
                            e[k] = r
                        elif bs.kind == "inst" and bs.op == "alloca" and r[1] != k:
                            e[k] = r
                elif i.iscall and not lab:
                    n = i.cname() or ""
                    if not PURECALL.search(n) and not n.startswith("llvm.") and "XDR_filter<" not in n and not n.startswith("std::allocator"):
                        kill = {id(strip(a)[0]) for a in i.ops}
                        dead = [x for x in e if x[0] == "c" or x[0] == "m" and x[1] in kill]
                        if dead:
                            e = dict(e)
                            for x in dead:
                                del e[x]
                if lab:
                    for l in lab:
                        n = A.state()
                        if isinstance(l, tuple):
                            _, text, p, d = l
                            A.tr.setdefault(s, []).append((text, n))
                            A.src.setdefault(text, i)
                            z, nzs = A.state(), A.state()
                            A.tr.setdefault(n, []).append(("=0", z))
                            A.tr.setdefault(n, []).append(("!0", nzs))
                            r = None
                            if p is not None and fl.tracked(p) or (p is not None and d == "out" and fl.slot(p) in e):
                                if d == "in":
                                    e0, e1 = dict(e), dict(e)
                                    e0[fl.slot(p)] = False
                                    e1[fl.slot(p)] = True
                                    nxt.append((z, e0))
                                    nxt.append((nzs, e1))
                                    s = None
                                    break
                                r = e.get(fl.slot(p))
                                if isinstance(r, tuple) and isinstance(e.get(r[1]), bool):
                                    r = (e[r[1]] == r[2])
                                if r is True:
                                    s = nzs
                                elif r is False:
                                    s = z
                                elif isinstance(r, tuple):
                                    e0, e1 = dict(e), dict(e)
                                    e0[r[1]] = not r[2]
                                    e1[r[1]] = r[2]
                                    nxt.append((z, e0))
                                    nxt.append((nzs, e1))
                                    s = None
                                    break
                                else:
                                    r = None
                            if r is None:
                                j = A.state()
                                A.eps.setdefault(z, []).append(j)
                                A.eps.setdefault(nzs, []).append(j)
                                s = j
                        else:
                            A.tr.setdefault(s, []).append((l, n))
                            A.src.setdefault(l, i)
                            s = n
                if s is not None:
                    nxt.append((s, e))
            cur = nxt
        t = b.term
        for (s, e) in cur:
            if t.op == "ret":
                A.final.add(s)
            elif t.op == "br" and t.ops and t.succs[0] is not t.succs[1]:
                r = fl.nz(t.ops[0], e)
                case = flagcase(t.ops[0], bufarg)
                for k in (0, 1):
                    if isinstance(r, bool):
                        if r != (k == 0):
                            continue
                        e2 = e
                    else:
                        e2 = dict(e)
                        e2[r[1]] = ((k == 0) == r[2])
                    s2 = s
                    if case and case[1] == (k == 0):
                        s2 = A.state()
                        A.tr.setdefault(s, []).append(("case %d" % case[0], s2))
                        A.src.setdefault("case %d" % case[0], t)
                    A.eps.setdefault(s2, []).append(enter(b, t.succs[k], e2))
            elif t.op == "switch":
                case = bufarg is not None and t.ops[0].kind == "inst" and t.ops[0].op == "load" and strip(t.ops[0].ops[0])[0] is bufarg
                for cv, cb in t.cases:
                    s2 = s
                    if case:
                        s2 = A.state()
                        A.tr.setdefault(s, []).append(("case %d" % cv.s, s2))
                    A.eps.setdefault(s2, []).append(enter(b, cb, e))
                cbs = t.succs[0]
                A.eps.setdefault(s, []).append(enter(b, cbs, e))
            else:
                for n in succs(b):
                    A.eps.setdefault(s, []).append(enter(b, n, e))
    return A


def flagcase(c, bufarg):
    """(constant, polarity) of a comparison of a buffer flag with a constant"""
    if bufarg is None or c.kind != "inst" or c.op != "icmp" or c.pred not in ("eq", "ne") or c.ops[1].kind != "const":
        return None
    v = c.ops[0]
    if v.kind == "inst" and v.op == "load" and v.ty == "i32" and strip(v.ops[0])[0] is bufarg:
        return c.ops[1].s, c.pred == "eq"
    return None


def wire_events(F, xdr):
    """event labelling of a pack/unpack function"""
    bufarg = F.args[0] if F.args else None

    def ev(i):
        if not i.iscall:
            return None
        op = bufop(i)
        if op in ("append", "popoff"):
            val, sz, fk = scalar(i)
            lab = "s%s" % (sz if sz is not None else "?") + (":" + fk if xdr and fk else "")
            return [("scalar", lab, val, "out" if op == "append" else "in")]
        if op in ("packraw", "unpackraw"):
            return ["raw[%s]" % rawsize(i.ops[2])]
        n = i.cname() or ""
        if n.startswith("std::") or n.startswith("llvm.") or n.startswith("virtual classdesc::pack_t::"):
            return None
        if bufarg is not None and any(strip(a) == (bufarg, 0, []) for a in i.ops):
            if re.search(r"(classdesc::)?pack_t::(pos|size|data|realloc|resize|clear)|operator bool", n):
                return None
            return ["call " + normname(n)]
        return None
    return ev, bufarg
