#!/usr/bin/env python3
"""C23: random initialisation stays in the range of each type."""
import os, re, struct, sys
from fractions import Fraction as Fr
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree
import core, ir, ana, loops

RULE = ("interval dataflow with exact rounding over the random initialisers (compiled to LLVM IR from the working tree), from the interval of the random source to every conversion to an integer (within the type's range), "
        "every stored bool (0 or 1), character (printable), floating point number (finite) and every index into an enumeration's table (below its size); every number is written on every way, every element of an array once")
BITS = {"float": 24, "double": 53, "x86_fp80": 64}
EMAX = {"float": 128, "double": 1024, "x86_fp80": 16384}
ONE = Fr(1) - Fr(1, 2 ** 53)        # the largest double below 1


def biggest(ty):
    return (Fr(2) - Fr(1, 2 ** (BITS[ty] - 1))) * Fr(2) ** (EMAX[ty] - 1)


def rnd(x, ty):
    """x rounded to the nearest number of the type (ties to even), or None beyond its range"""
    if x == 0:
        return x
    s, x = (-1, -x) if x < 0 else (1, x)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if x < Fr(2) ** e:
        e -= 1
    q = Fr(2) ** max(e - BITS[ty] + 1, -EMAX[ty] + 2 - BITS[ty] + 1)
    n = x / q
    f = n.numerator // n.denominator
    r = n - f
    if r > Fr(1, 2) or r == Fr(1, 2) and f % 2:
        f += 1
    y = f * q
    return None if y > biggest(ty) else s * y


def fpconst(t):
    """value of a printed floating point constant"""
    ty, v = t.split(" ", 1)
    if v.startswith("0xK"):
        n = int(v[3:], 16)
        e, m = n >> 64 & 0x7fff, n & (1 << 64) - 1
        return (-1 if n >> 79 else 1) * Fr(m) * Fr(2) ** (e - 16383 - 63) if e != 0x7fff else None
    if v.startswith("0x"):
        f = struct.unpack(">d", struct.pack(">Q", int(v, 16)))[0]
        return Fr(f) if f == f and abs(f) != float("inf") else None
    return Fr(float(v))


class Ranges:
    """(lo, hi) of numbers; ("below", key): a whole number below the size of that table; None if not known"""
    def __init__(s, C, src):
        s.C, s.src, s.memo = C, src, {}

    def of(s, v):
        k = id(v)
        if k not in s.memo:
            s.memo[k] = None
            s.memo[k] = s.calc(v)
        return s.memo[k]

    def calc(s, v):
        if v.kind == "const":
            return (Fr(v.s), Fr(v.s))
        if v.kind == "other" and v.sub == "fp":
            x = fpconst(v.text)
            return (x, x) if x is not None else None
        if v.kind != "inst":
            return None
        o = v.op
        if v.iscall:
            n = v.cname() or ""
            if n.startswith("virtual classdesc::random_init_t slot ") and v.ty == "double" or re.match(r"classdesc::random_init_t::rand\(\)", n):
                return (Fr(0), ONE)
            if n == "rand":
                return s.src
            if re.search(r"(map<.*>::size|EnumKeys<.*>::size)\(\) const$", n):
                return ("size", ident(v.ops[0]))
            if n.startswith(("llvm.fmuladd", "llvm.fma")):          # fused or not
                q = [s.of(o) for o in v.ops[:3]]
                if any(x is None or isinstance(x[0], str) for x in q):
                    return None
                c = [x * y for x in q[0] for y in q[1]]
                m = (min(c), max(c))
                f = s.rounded((m[0] + q[2][0], m[1] + q[2][1]), v.ty)
                m = s.rounded(m, v.ty)
                g = m and s.rounded((m[0] + q[2][0], m[1] + q[2][1]), v.ty)
                return (min(f[0], g[0]), max(f[1], g[1])) if f and g else None
            m = re.search(r"std::numeric_limits<([a-z0-9_ ]*)>::(max|min|lowest)\(\)$", n)
            if m:
                return limit(v.ty, m.group(1), m.group(2))
            return None
        if o in ("freeze", "bitcast"):
            return s.of(v.ops[0])
        if o == "phi":
            r = None
            for x, b in v.inc:
                y = s.under(x, [ana.cmp_of(*q[:2]) for q in s.edge(b, v.bb)]) or s.of(x)
                if y is None or y[0] in ("size", "share"):
                    return None
                if y[0] == "below":
                    if r is not None and r != y:
                        return None
                    r = y
                    continue
                if r is not None and r[0] == "below":
                    return None
                r = y if r is None else (min(r[0], y[0]), max(r[1], y[1]))
            return r
        if o == "select":
            a, b = (s.under(x, [ana.cmp_of(*q[:2]) for q in ana.flat([(v.ops[0], k == 0, None)])]) or s.of(x) for k, x in enumerate(v.ops[1:3]))
            if a is None or b is None or isinstance(a[0], str) or isinstance(b[0], str):
                return a if a == b else None
            return (min(a[0], b[0]), max(a[1], b[1]))
        if o in ("fcmp", "icmp"):
            return (Fr(0), Fr(1))
        a = s.of(v.ops[0]) if v.ops else None
        if o == "zext":
            if v.ops[0].ty == "i1":
                return (Fr(0), Fr(1))
            return a if a is not None and (isinstance(a[0], str) or a[0] >= 0) else None
        if o == "sext":
            return a
        if o == "trunc":
            if a is None or isinstance(a[0], str):
                return a
            w = int(v.ty[1:])
            return a if -2 ** (w - 1) <= a[0] and a[1] < 2 ** w else None
        if a is None:
            return None
        if o in ("uitofp", "sitofp"):
            if a[0] == "size":
                return a
            if o == "uitofp" and a[0] < 0:
                if a[0] != a[1]:
                    return None
                w = int(v.ops[0].ty[1:]) if hasattr(v.ops[0], "ty") else v.ops[0].width
                a = (a[0] + 2 ** w,) * 2
            return s.rounded(a, v.ty)
        if o in ("fpext", "fptrunc"):
            return s.rounded(a, v.ty)
        if o in ("fptosi", "fptoui"):
            if a[0] == "share":
                return ("below", a[1])
            if isinstance(a[0], str):
                return None
            return (trunc(a[0]), trunc(a[1]))
        b = s.of(v.ops[1]) if len(v.ops) > 1 else None
        if b is None:
            return None
        if o == "fmul" and {a[0], b[0]} >= {"size"}:
            z, r = (a, b) if a[0] == "size" else (b, a)
            # n*r, r<1 a double: rounding never reaches n
            return ("share", z[1]) if not isinstance(r[0], str) and 0 <= r[0] and r[1] <= ONE else None
        if a[0] == "size" and o in ("add", "sub") and b[0] == b[1] == (1 if o == "sub" else -1):
            return ("below", a[1])          # a table has at least one element
        if isinstance(a[0], str) or isinstance(b[0], str):
            return None
        if o in ("fmul", "fadd", "fsub", "fdiv"):
            if o == "fdiv" and b[0] <= 0 <= b[1]:
                return None
            f = {"fmul": lambda x, y: x * y, "fadd": lambda x, y: x + y, "fsub": lambda x, y: x - y, "fdiv": lambda x, y: x / y}[o]
            c = [f(x, y) for x in a for y in b]
            return s.rounded((min(c), max(c)), v.ty)
        if o in ("add", "sub", "mul"):
            f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[o]
            c = [f(x, y) for x in a for y in b]
            r = (min(c), max(c))
            w = int(v.ty[1:])
            return r if -2 ** (w - 1) <= r[0] and r[1] < 2 ** (w - 1) else None
        return None

    def edge(s, frm, to):
        t = frm.term
        g = ana.guards(frm.fn if hasattr(frm, "fn") else to.insts[0].F, frm)
        if t.op == "br" and t.ops and t.succs[0] is not t.succs[1]:
            g = g + ana.flat([(t.ops[0], t.succs[0] is to, t)])
        return g

    def under(s, v, cs):
        """a whole number compared with the size of a table"""
        for c in cs:
            if c is None:
                continue
            for p, x, y in (c, (ir.SWAP[c[0]],) + tuple(c[1:][::-1])):
                if p in ("ult", "slt") and wide(x) is wide(v):
                    z, a = s.of(y), s.of(v)
                    if z is not None and z[0] == "size" and (p == "ult" or a is not None and (a[0] == "below" or not isinstance(a[0], str) and a[0] >= 0)):
                        return ("below", z[1])
        return None

    def rounded(s, a, ty):
        if ty not in BITS or isinstance(a[0], str):
            return None
        r = (rnd(a[0], ty), rnd(a[1], ty))
        return r if None not in r else None


UNSIGNED = ("bool", "char16_t", "char32_t", "char8_t")


def limit(ty, cxx, f):
    """std::numeric_limits"""
    if ty in BITS:
        x = biggest(ty) if f == "max" else -biggest(ty) if f == "lowest" else Fr(2) ** (2 - EMAX[ty])
    else:
        w = 1 if cxx == "bool" else int(ty[1:])
        uns = cxx.startswith("unsigned") or cxx in UNSIGNED
        x = Fr((2 ** w if uns else 2 ** (w - 1)) - 1 if f == "max" else 0 if uns else -2 ** (w - 1))
    return (x, x)


def trunc(x):
    n = abs(x.numerator) // x.denominator
    return Fr(n if x >= 0 else -n)


def ident(v):
    b, o, var = ana.strip(v)
    return repr(b) if not var else None


def tablekey(k):
    """the enumeration a table belongs to"""
    m = re.search(r"enum_keysData<(.*)>::keys(Data)?", k or "")
    return m.group(1) if m else None


def conversions(C, F, R):
    name = F.dem.split("(")[0]
    for i in F.insts():
        if i.op in ("fptosi", "fptoui"):
            C.saw("conversions to integers")
            w = int(i.ty[1:])
            a = R.of(i.ops[0])
            lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if i.op == "fptosi" else (0, 2 ** w - 1)
            ok = a is not None and (a[0] == "share" or not isinstance(a[0], str) and lo <= trunc(a[0]) and trunc(a[1]) <= hi)
            C.ob("in-range", name, ok, core.where(i), "the number converted to an integer of %d bits %s" % (w, "may be out of its range" if a is None or isinstance(a[0], str) else "reaches %.20g" % float(a[1])))


def written(F, R, x):
    """[(instruction, value)] that write the object at x"""
    r = []
    for i in F.insts():
        if i.op == "store" and ana.strip(i.ops[1])[0] is x:
            r.append((i, i.ops[0]))
        elif i.iscall and re.search(r"basic_istream<.*>::operator>>|istream::operator>>|operator>> ?<", i.cname() or "") and i.ops and ana.strip(i.ops[-1])[0] is x:
            r.append((i, None))
        elif i.iscall and re.search(r"istream.*operator>>", i.cname() or "") and ana.strip(i.ops[-1])[0] is x:
            r.append((i, None))
    return r


def always(F, ws):
    """no way from the start to a return avoids all of them"""
    bl = {i.bb for i, v in ws}
    seen, work = set(), [F.blocks[0]]
    while work:
        b = work.pop()
        if b in seen or b in bl:
            continue
        seen.add(b)
        if b.term.op == "ret":
            return False
        work += ana.succs(b)
    return True


def number(C, F, R):
    name = F.dem.split("(")[0]
    x = F.args[1]
    kind = name[len("w_num_"):]
    ws = written(F, R, x)
    C.ob("written", name, ws and always(F, ws), core.where(F), "the number is not set on every way")
    for i, v in ws:
        C.saw("numbers set")
        if v is None:
            continue
        leaf(C, name, kind, i, v, R)
    for i in F.insts():
        if i.iscall and re.search(r"ostream.*operator<<|ostream::operator<<|_M_insert", i.cname() or "") and len(i.ops) > 1:
            v = i.ops[1]
            ty = getattr(v, "ty", None)
            if ty in BITS:
                C.saw("numbers written as text")
                a = R.of(v)
                ok = a is not None and not isinstance(a[0], str)
                C.ob("finite", name, ok and a[0] >= 0, core.where(i), "the number may exceed the largest of its type")
                p = 6
                for c in F.calls(r"ios_base::precision\("):
                    p = c.ops[1].s if len(c.ops) > 1 and c.ops[1].kind == "const" else None
                want = {"float": "float", "double": "double", "x86_fp80": "longdouble"}.get(ty, ty)
                own = {"float": "float", "double": "double", "longdouble": "x86_fp80"}.get(kind, ty)
                C.ob("finite", name, ok and p is not None and digits(a[1], p) <= biggest(own), core.where(i), "the number written with %s digits may read as more than the largest of its type" % p)


def digits(x, p):
    """x rounded to p decimal digits"""
    if x == 0 or p < 1:
        return x
    e = 0
    while Fr(10) ** (e + 1) <= x:
        e += 1
    q = Fr(10) ** (e - p + 1)
    n = x / q
    f = n.numerator // n.denominator
    return (f + (n - f >= Fr(1, 2))) * q


RANGE = {"bool": (0, 1), "char": (32, 126), "wchar_t": (32, 126)}


def leaf(C, name, kind, i, v, R):
    a = R.of(v)
    lo, hi = RANGE.get(kind, (0, None))
    ok = a is not None and not isinstance(a[0], str) and a[0] >= lo and (hi is None or a[1] <= hi)
    C.ob("value", name, ok, core.where(i), "the value set %s, beyond what a %s is given" % ("is not bounded" if a is None or isinstance(a[0], str) else "reaches %.20g" % float(a[1]), kind))


def enums(C, F, R):
    """the value given to an enumeration is that of an element of its table"""
    name = F.dem.split("(")[0]
    n = 0
    for i in F.insts():
        if i.op != "load":
            continue
        b, o, var = ana.strip(i.ops[0])
        if b.kind == "global" and tablekey(ir.demangle(b.name)) and ir.demangle(b.name).endswith("keysData"):
            n += 1
            C.saw("enumerators chosen")
            key = tablekey(ir.demangle(b.name))
            ok = o == 8 and i.ty == "i32" and len(var) == 1 and var[0][1] == 16
            if ok:
                a = R.of(var[0][0])
                size = len(b.init.ops) if getattr(b, "init", None) is not None and hasattr(b.init, "ops") else 0
                ok = a is not None and (a[0] == "below" and own(a[1]) == key or not isinstance(a[0], str) and 0 <= a[0] and a[1] < size)
            C.ob("enumerator", name, ok, core.where(i), "the element taken from the enumeration's table need not be one of its enumerators")
    for i in F.calls(r"^(std::)?(_Rb_tree.*iterator.*std::next<|.*std::advance<)|std::(advance|next)<"):
        n += 1
        C.saw("enumerators chosen")
        a = R.of(i.ops[-1]) if len(i.ops) > 1 else None
        C.ob("enumerator", name, a is not None and a[0] == "below", core.where(i), "the element taken from the enumeration's table need not be one of its enumerators")
    return n


def own(k):
    m = re.search(r"@(\S+)", k or "")
    return tablekey(k) or (tablekey(ir.demangle(m.group(1))) if m else None)


def arrays(C, M, F, R):
    """every element of every array member is set"""
    want = {}
    t = M.globals["w_extents"].init.ops
    for k in range(0, len(t), 2):
        want[t[k].s] = t[k + 1].s
    seen = {}
    for c in F.calls(r"classdesc::is_array"):
        ops = list(c.ops)
        G = M.funcs.get(c.callee) if isinstance(c.callee, str) else c.callee
        G = G if getattr(G, "blocks", None) else None
        p = [k for k, o in enumerate(ops) if ana.strip(o)[0] is F.args[1]]
        if not p or G is None:
            C.bad("array", F.dem.split("(")[0], core.where(c), "the array is not handled by an initialiser of the library")
            continue
        p = p[0]
        off = ana.strip(ops[p])[1]
        nd = ops[p + 1]
        ext = ops[p + 2:]
        C.saw("array members")
        n = 1
        for e in ext:
            n *= e.s if e.kind == "const" else 0
        C.ob("extent", "member at %d" % off, nd.kind == "const" and nd.s == len(ext) and n == want.get(off), core.where(c), "the extents given do not cover the array")
        seen[off] = G
        widths = {e.width for e in ext[1:] if e.kind == "const"}
        array(C, G, p, R, widths)
    C.ob("array", F.dem.split("(")[0], set(seen) == set(want), core.where(F), "an array member is not initialised")


DONE = set()


def array(C, G, p, R, widths):
    name = G.dem.split("(")[0]
    if (G.dem, G) in DONE:
        return
    DONE.add((G.dem, G))
    a, nd, n0 = G.args[p], G.args[p + 1], G.args[p + 2]
    L = G.loops()
    elem = mult = None
    for h, body in (L.items() if isinstance(L, dict) else L):
        ex = loops.loop_exits(G, h, body)
        t = loops.trips(G, h, body, ex[0]) if len(ex) == 1 else None
        st = [i for b in body for i in b.insts if i.op == "store" and within(i.ops[1], a, body) or i.iscall and any(o.kind == "inst" and within(o, a, body) for o in i.ops)]
        if st:
            elem = (h, body, ex, t, st)
        elif any(i.op == "mul" for b in body for i in b.insts):
            mult = (h, body, ex, t)
    C.saw("array initialisers", G.dem)
    if elem is None:
        C.bad("array", name, core.where(G), "no element of the array is set")
        return
    h, body, ex, t, st = elem
    n = None
    where = core.where(h.insts[0])
    for i in st:
        ptrs = [i.ops[1]] if i.op == "store" else [o for o in i.ops if o.kind == "inst" and within(o, a, body)]
        for q in ptrs:
            m = covered(G, a, q, h, body, ex)
            if m is None:
                C.bad("array", name, core.where(i), "the elements set are not one after the other from the first to the last")
            n = m or n
    C.ob("array", name, n is not None and product(G, n, n0, nd, mult, widths), where, "the number of elements is not the product of the extents")
    # the store is on every way round
    bl = {i.bb for i in st}
    w, seen, ok = [h], set(), True
    first = True
    while w:
        b = w.pop()
        if b in seen or b in bl:
            continue
        seen.add(b)
        for s in ana.succs(b):
            if s is h:
                ok = False
            elif s in body:
                w.append(s)
    C.ob("array", name, ok, core.where(h.insts[0]), "an element can be left out")


def within(q, a, body):
    """a pointer into the array"""
    w = walker(q, body)
    return ana.strip(q)[0] is a or w is not None and ana.strip(w[1])[0] is a


def walker(q, body):
    """the pointer is stepped through the loop: (where it starts, step in bytes, offset from the step)"""
    b, o, var = ana.strip(q)
    if b.kind != "inst" or b.op != "phi" or b.bb not in body or var:
        return None
    ini = [x for x, p in b.inc if p not in body]
    upd = [ana.strip(x) for x, p in b.inc if p in body]
    if len(ini) != 1 or not upd or any(x[0] is not b or x[2] for x in upd) or len({x[1] for x in upd}) != 1:
        return None
    return b, ini[0], upd[0][1], o


def covered(G, a, q, h, body, ex):
    """the number of elements from the first that the loop goes through, or None"""
    if len(ex) != 1:
        return None
    b, s = ex[0]
    if b.term.op != "br" or not b.term.ops:
        return None
    c = ana.cmp_of(b.term.ops[0], b.term.succs[0] is s)
    if c is None:
        return None
    w = walker(q, body)
    if w is not None:
        x, ini, step, o = w
        y, oo, var = ana.strip(ini)
        if y is not a or oo or var or o or c[0] not in ("eq", "uge", "ule"):
            return None
        for u, v in ((c[1], c[2]), (c[2], c[1])):
            e, eo, ev = ana.strip(v)
            z = walker(u, body)
            # at the top of the loop before the element, or after it and its step
            if z and z[0] is x and z[3] == 0 and e is a and eo == 0 and len(ev) == 1 and ev[0][1] == step and (b is h or not G.dominates(h, b)):
                return ev[0][0]
        return None
    y, o, var = ana.strip(q)
    if y is not a or len(var) != 1:
        return None
    ind = loops.induction(var[0][0], body)
    t = loops.trips(G, h, body, ex[0])
    if ind is None or t is None:
        return None
    bound = None
    for x in (c[1], c[2]):
        k = loops.induction(x, body)
        if k is None:
            bound = x
        elif k[0] is not ind[0]:
            return None
    if ind[2] == 1:
        ok = o == 0 and ind[1].kind == "const" and ind[1].s + ind[3] == 0 and bound is not None and t == {**ana.linear(bound), "": 0}
        return bound if ok else None
    if ind[2] == -1:
        n = ind[1]
        ok = o + ind[3] * var[0][1] == -var[0][1] and {k: v for k, v in t.items() if v} == {k: v for k, v in ana.linear(n).items() if v}
        return n if ok else None
    return None


def product(G, bound, n0, nd, mult, widths):
    """n0 times one extent of the right type for each further dimension"""
    v = bound
    while v.kind == "inst" and v.op in ("zext", "sext", "trunc", "freeze"):
        v = v.ops[0]
    if v is n0:
        return mult is None and False
    if v.kind != "inst" or v.op != "phi" or mult is None:
        return False
    h, body, ex, t = mult
    if v.bb is not h:
        ins = [x for x, b in v.inc]
        v = next((x for x in ins if x.kind == "inst" and x.op == "phi" and x.bb is h), v)
    ini = [x for x, b in v.inc if b not in body]
    upd = [x for x, b in v.inc if b in body]
    if not all(x is n0 for x in ini) or not upd:
        return False
    for u in upd:
        if u.kind != "inst" or u.op != "mul" or v not in u.ops:
            return False
        e = [x for x in u.ops if x is not v]
        if len(e) != 1:
            return False
        e = e[0]
        while e.kind == "inst" and e.op in ("zext", "sext", "freeze"):
            e = e.ops[0]
        if e.kind != "inst" or e.op not in ("load", "va_arg", "vaarg") or widths and {int(e.ty[1:])} != widths:
            return False
    if t is None:
        return False
    key = [k for k in t if k]
    return len(key) == 1 and t[key[0]] == 1 and t.get("", 0) == -1


INDEX = r"(std::string|basic_string<.*>|vector<.*>|deque<.*>)::(operator\[\]|at)\(unsigned long\)"
SIZE = r"::(size|length)\(\) const$"
POST = r"iterator<.*::operator\+\+\(int\)$"
DEREF, NEXT, DIFF = r"iterator<.*::operator\*\(\) const$", r"iterator<.*::operator\+\+\((int)?\)$", r"operator(!=|==) ?<|operator(!=|==)\("


def touches(F, loc):
    """blocks where the element at loc is given a value"""
    return {i.bb for i, v in written(F, None, loc)}


def wide(v):
    while v.kind == "inst" and v.op in ("zext", "sext", "freeze"):
        v = v.ops[0]
    return v


def every_trip(h, body, bl):
    """no way round the loop avoids the blocks"""
    if h in bl:
        return True
    w, seen = [h], set()
    while w:
        b = w.pop()
        for s in ana.succs(b):
            if s is h:
                return False
            if s in body and s not in bl and s not in seen:
                seen.add(s)
                w.append(s)
    return True


def elements(C, F):
    """elements taken from containers exist, and none is left out"""
    name = F.dem.split("(")[0]
    L = F.loops()
    L = list(L.items() if isinstance(L, dict) else L)
    for c in F.calls(INDEX):
        C.saw("elements of containers")
        o, x = ana.strip(c.ops[0]), c.ops[1]
        sz = lambda y: y.kind == "inst" and y.iscall and re.search(SIZE, y.cname() or "") and ana.strip(y.ops[0]) == o
        same = [r.ops[1] for r in F.calls(r"::resize\(unsigned long(, [^)]*)?\)$") if ana.strip(r.ops[0]) == o and F.dominates(r.bb, c.bb)]
        if len(same) == 1:
            sz0 = sz
            sz = lambda y: sz0(y) or any(wide(y) is wide(z) for z in same)
        g = [ana.cmp_of(k, t) for k, t, b in ana.guards(F, c.bb)]
        ok = any(q and (q[0] in ("ult", "ne") and q[1] is x and sz(q[2]) or q[0] in ("ugt", "ne") and q[2] is x and sz(q[1])) for q in g)
        C.ob("element", name, ok, core.where(c), "the element is taken at a place that may be beyond the last")
        inn = [(h, b) for h, b in L if c.bb in b]
        h, body = min(inn, key=lambda z: len(z[1])) if inn else (None, ())
        ind = loops.induction(x, body) if inn else None
        C.ob("element", name, ind is not None and ind[1].kind == "const" and ind[1].s == 0 and ind[2] == 1 and ind[3] == 0, core.where(c), "the elements set are not one after the other from the first")
        C.ob("element", name, inn and every_trip(h, body, touches(F, c)), core.where(c), "an element can be left out")
        ex = loops.loop_exits(F, h, body) if inn else ()
        ok = bool(ex)
        for b, s in ex:
            q = ana.cmp_of(b.term.ops[0], b.term.succs[0] is s) if b.term.op == "br" and b.term.ops else None
            ok = ok and q and (q[0] in ("uge", "eq") and q[1] is x and sz(q[2]) or q[0] in ("ule", "eq") and q[2] is x and sz(q[1]))
        C.ob("element", name, ok, core.where(c), "the elements may not all be set")
    its = {}
    for c in F.calls(DEREF):
        its.setdefault(id(ana.strip(c.ops[0])[0]), (ana.strip(c.ops[0])[0], []))[1].append(c)
    own = {id(ana.strip(o)[0]) for i in F.calls(DIFF) for o in i.ops}
    for it, cs in its.values():
        if id(it) not in own:
            held = [i for i in F.calls(POST) if any(ana.strip(o)[0] is it for o in i.ops[:1]) or any(x.op == "store" and ana.strip(x.ops[0])[0] is i and ana.strip(x.ops[1])[0] is it for x in F.insts())]
            its2 = [ana.strip(o)[0] for i in held for o in i.ops[:2] if id(ana.strip(o)[0]) in own]
            if its2:
                C.saw("elements of containers")
                steps(C, F, name, its2[0], [])
                continue
        C.saw("elements of containers")
        steps(C, F, name, it, cs)
    for c in F.calls(r"(set|multiset|map|multimap)<.*>::insert|enable_if<.*> ?\(?.*::insert|::(push_back|insert)\("):
        v = ana.strip(c.ops[1])[0] if len(c.ops) > 1 else None
        if v is None or v.kind != "inst" or v.op != "alloca":
            continue
        C.saw("elements inserted")
        bl = touches(F, v) | {i.bb for i in F.insts() if i.iscall and i.ops and ana.strip(i.ops[0])[0] is v and re.search(r"pair.*C[12]|::pair\(|::(\w+)\(\)$", i.cname() or "")}
        w, seen, ok = [c.bb], set(), True
        while w and ok:
            b = w.pop()
            if b in bl:
                continue
            if b is F.blocks[0]:
                ok = False
            for p in b.preds:
                if p is c.bb and p not in bl:
                    ok = False
                elif p not in seen:
                    seen.add(p)
                    w.append(p)
        C.ob("element", name, ok, core.where(c), "what is inserted may not have a value")


def steps(C, F, name, it, cs):
    """a walk of an iterator: tested before it is used, every element set before the next"""
    tests = set()
    copies = set()
    for i in F.insts():
        if i.iscall and re.search(DIFF, i.cname() or "") and any(ana.strip(o)[0] is it for o in i.ops):
            tests.add(i)
        if i.iscall and re.search(POST, i.cname() or "") and any(ana.strip(o)[0] is it for o in i.ops[:2]):
            copies |= {id(ana.strip(o)[0]) for o in i.ops[:1] if ana.strip(o)[0] is not it} | {id(ana.strip(x.ops[1])[0]) for x in F.insts() if x.op == "store" and ana.strip(x.ops[0])[0] is i}
    if any(ana.strip(k.ops[0])[0] is not it for k in cs):
        return
    cs = cs + [k for k in F.calls(DEREF) if id(ana.strip(k.ops[0])[0]) in copies]
    wr = set()
    for c in cs:
        wr |= {id(i) for i, v in written(F, None, c)}
    work, seen = [(F.blocks[0], "?")], set()
    while work:
        b, s = work.pop()
        if (b, s) in seen:
            continue
        seen.add((b, s))
        for i in b.insts:
            if i in cs:
                C.ob("element", name, s in (("ok", "done") if ana.strip(i.ops[0])[0] is it else ("held", "?")), core.where(i), "an element may be taken beyond the last")
            elif id(i) in wr:
                s = {"ok": "done", "held": "?"}.get(s, s)
            elif i.iscall and re.search(NEXT, i.cname() or "") and any(ana.strip(o)[0] is it for o in i.ops[:2]):
                C.ob("element", name, s == "done" or s == "ok" and re.search(POST, i.cname()), core.where(i), "an element can be left out")
                s = "held" if s == "ok" else "?"
        t = b.term
        c = t.ops[0] if t.op == "br" and t.ops else None
        if c is not None and c in tests:
            C.ob("element", name, s != "held", core.where(c), "an element can be left out")
            n = "!=" in (c.cname() or "")
            work += [(x, "ok" if (k == 0) == n else "end") for k, x in enumerate(t.succs)]
        else:
            work += [(x, s) for x in ana.succs(b)]


def members(C, M, F, R):
    """every plain member is set, within its type"""
    name = F.dem.split("(")[0]
    t = M.globals[name + "_members"].init.ops
    kinds = {0: "bool", 1: "int", 2: "char", 3: "enum", 4: "double"}
    for k in range(0, len(t), 2):
        off, kind = t[k].s, kinds[t[k + 1].s]
        ws = [(i, v) for i, v in written(F, R, F.args[1]) if ana.strip(i.ops[1] if i.op == "store" else i.ops[-1])[1:] == (off, [])]
        C.saw("plain members")
        C.ob("written", "%s+%d" % (name, off), ws and always(F, ws), core.where(F), "the member is not set on every way")
        for i, v in ws:
            if v is not None and kind != "enum":
                leaf(C, name, kind, i, v, R)


def smart(C, F):
    """the pointer is given a new object, which is initialised"""
    name = F.dem.split("(")[0]
    news = list(F.calls(r"^operator new\("))
    C.saw("smart pointers")
    C.ob("given-object", name, bool(news), core.where(F), "the pointer is not given an object")
    C.ob("given-object", name, any(True for c in F.calls(r"virtual classdesc::random_init_t slot|classdesc::random_init|access_random_init")), core.where(F), "the object is not initialised")


def run():
    C = core.Check("C23", RULE, trusted=("a user's random source returns numbers in [0,1)", "std::rand returns 0 to RAND_MAX", "containers and streams behave as the standard says"))
    T = Tree()
    T.descriptor("w_rand.h", "w_rand.cd", ("-nodef -typeName", "random_init"))
    stds = ("c++98", "c++17") + (("c++11", "c++20") if C.thorough else ())
    bcs = T.compile_many([(("w_rand.cc",), dict(std=s, defs=("TR1", "HAVE_LONGLONG"), extra=("-flto", "-fwhole-program-vtables"))) for s in stds])
    for std, bc in zip(stds, bcs):
        DONE.clear()
        M = ir.load(bc, T, inline=lambda d, f, n: not f.startswith("/usr") and f != "", roots=lambda d, f, n: d.startswith("w_"))
        R = Ranges(C, (Fr(0), Fr(2 ** 31 - 1)))
        for F in M.defs():
            n = F.dem.split("(")[0]
            if not n.startswith("w_") and "random_init" not in n:
                continue
            conversions(C, F, R)
            if enums(C, F, R) == 0 and n == "w_enum":
                C.bad("enumerator", n, core.where(F), "no enumerator is chosen")
            if not n.startswith("w_"):
                continue
            C.saw("entry points", n)
            elements(C, F)
            if n == "w_rand":
                for b in F.blocks:
                    if b.term.op == "ret":
                        a = R.of(b.term.ops[0])
                        C.ob("source", n, a is not None and not isinstance(a[0], str) and 0 <= a[0] and a[1] <= ONE, core.where(b.term), "the random source can return %s, outside [0,1)" % ("anything" if a is None or isinstance(a[0], str) else "%.20g" % float(a[1])))
            elif n.startswith("w_num_"):
                number(C, F, R)
            elif n == "w_arrays":
                arrays(C, M, F, R)
            elif n in ("w_members", "w_pair"):
                members(C, M, F, R)
            elif n in ("w_shared", "w_unique"):
                smart(C, F)
    C.floor("entry points", 23)
    C.floor("conversions to integers", 25 * len(stds))
    C.floor("numbers set", 16 * len(stds))
    C.floor("enumerators chosen", 3 * len(stds))
    C.floor("array members", 6 * len(stds))
    C.floor("elements of containers", 6 * len(stds))
    C.floor("plain members", 7 * len(stds))
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C23", RULE)
