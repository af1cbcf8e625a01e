#!/usr/bin/env python3
"""C20: enumerators are converted to their own names and back."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree
import core, ir, text, cont, ana, loops

RULE = ("dataflow over the enumerator tables (compiled to LLVM IR from the working tree): the constructor enters every element of the data under its name and under its value, each conversion looks up its own "
        "argument in the map of its kind and uses what it found only where it was found, and a constant otherwise; the table the processor generates for each enumeration of the witness pairs every enumerator's name "
        "with its own value, compared constant by constant with the compiler's")
SECOND = {"text": 32, "num": 8}       # offset of the mapped value in an element


def want(C, ok, where, why, rule, name):
    C.ob(rule, name, ok, where, why)


# ---- tables
def table(g):
    """[(name, value)] of a constant array of EnumKey"""
    i = g.init
    if i is None or i.kind != "other" or i.sub not in ("agg", "zero"):
        return None
    r = []
    for e in i.ops if hasattr(i, "ops") else ():
        if e.kind != "other" or len(e.ops) != 2:
            if e.kind == "other" and e.sub == "zero":
                r.append((None, 0))
                continue
            return None
        s, v = e.ops
        t = getattr(s, "string", None)
        r.append((t, v.s if v.kind == "const" else None))
    return r


def named(g):
    i = g.init
    return getattr(i, "string", None) if i is not None else None


def tables(C, M):
    G = {g.name: g for g in M.globals.values()}
    dem = {}
    for n, g in G.items():
        m = re.match(r"classdesc::\(anonymous namespace\)::enum_keysData<(.*)>::(keysData|keys)$", ir.demangle(n))
        if m:
            dem[(m.group(1), m.group(2))] = g
    for (T, what), g in sorted(dem.items()):
        if what == "keys":
            C.saw("maps")
            C.ob("defined", T, not g.decl, "classdesc.cc", "the maps of the enumeration are used but never defined")
    made = {}
    for F in M.defs():
        for c in F.calls(r"EnumKeys<.*>::EnumKeys\(classdesc::EnumKey const\*, int\)"):
            if c.ops[0].kind == "global":
                made.setdefault(c.ops[0].name, []).append(c)
    for n, g in G.items():
        m = re.match(r"want_type_(\d+)$", n)
        if not m:
            continue
        T = named(g)
        C.saw("enumerations", T)
        exp = table(G["want_" + m.group(1)])
        for k in exp:
            C.saw("enumerators")
        t = dem.get((T, "keysData"))
        got = table(t) if t is not None else None
        if t is None or got is None:
            C.bad("table", T, "classdesc.cc", "no table of constants is generated for the enumeration")
            continue
        for k in exp:
            C.ob("own-value", T, k in got, "classdesc.cc", "the generated table does not pair enumerator %s with its value" % k[0])
        for k in got:
            C.ob("only-enumerators", T, k in exp, "classdesc.cc", "the generated table holds %s=%s, which is no enumerator" % k)
        C.ob("once", T, len(got) == len(set(got)), "classdesc.cc", "an enumerator is entered twice")
        k = dem.get((T, "keys"))
        cs = made.get(k.name, []) if k is not None else []
        C.ob("whole", T, len(cs) == 1 and cs[0].ops[1] is t and cs[0].ops[2].kind == "const" and cs[0].ops[2].s == len(got), core.where(cs[0]) if cs else "classdesc.cc",
             "the maps of the enumeration are not made from all of its own table")


# ---- constructor
def atom(v):
    while v.kind == "inst" and v.op in ("zext", "sext", "trunc", "freeze", "bitcast"):
        v = v.ops[0]
    return v


def lin(v, at=None, d=12):
    """address or number as {atom: coefficient}; phis are replaced by at"""
    if v.kind == "const":
        return {None: v.s}
    if v.kind == "null":
        return {None: 0}
    v = atom(v)
    if at and v in at:
        return dict(at[v])
    if v.kind == "inst" and d:
        if v.op == "gep":
            r = lin(v.ops[0], at, d - 1)
            add(r, {None: v.off}, 1)
            for x, k in v.var:
                add(r, lin(x, at, d - 1), k)
            return r
        if v.op in ("add", "sub"):
            r = lin(v.ops[0], at, d - 1)
            add(r, lin(v.ops[1], at, d - 1), 1 if v.op == "add" else -1)
            return r
        if v.op == "mul" and v.ops[1].kind == "const":
            r = {}
            add(r, lin(v.ops[0], at, d - 1), v.ops[1].s)
            return r
        if v.op == "shl" and v.ops[1].kind == "const":
            r = {}
            add(r, lin(v.ops[0], at, d - 1), 1 << v.ops[1].s)
            return r
    return {v: 1}


def add(r, x, k):
    for a, c in x.items():
        r[a] = r.get(a, 0) + c * k
        if not r[a]:
            del r[a]


def ctor(C, F):
    name = "EnumKeys constructor"
    H = {}
    for b in F.blocks:
        for x in ana.succs(b):
            if F.dominates(x, b):
                H.setdefault(x, []).append(b)
    if len(H) != 1:
        # a library algorithm or no loop at all: every element must be entered some other way
        C.bad("every-element", name, core.where(F), "no single loop over the data")
        return
    h, latches = list(H.items())[0]
    body = {h}
    work = list(latches)
    while work:
        b = work.pop()
        if b not in body:
            body.add(b)
            work += [p for p in F.blocks if b in ana.succs(p)]
    exits = [(b, s) for b in body for s in ana.succs(b) if s not in body]
    data, size = F.args[1], F.args[2]
    C.ob("every-element", name, len(exits) == 1, core.where(F), "the loop over the data can be left early")
    # one variable that counts elements
    ok, why = False, "the loop does not count through the data"
    for p in h.insts:
        if p.op != "phi":
            break
        ini = [lin(v) for v, b in p.inc if b not in body]
        steps = []
        for v, b in p.inc:
            if b in body:
                s = lin(v)
                add(s, {p: 1}, -1)
                steps.append(s)
        if len(ini) != 1 or any(set(s) != {None} for s in steps) or len({s[None] for s in steps}) != 1 or not exits:
            continue
        st = steps[0][None]
        c = exits[0][0].term.ops[0] if exits[0][0].term.ops else None
        if c is None or c.kind != "inst" or c.op != "icmp":
            continue
        stay = exits[0][0].term.succs[0] in body
        pred = c.pred if stay else ir.NEG[c.pred]
        a, b = lin(c.ops[0]), lin(c.ops[1])
        if b.get(p) and not a.get(p):
            a, b, pred = b, a, ir.SWAP[pred]
        # pointers and counts: addresses of the elements used in the body
        addrs = []
        for bb in body:
            for i in bb.insts:
                for o in (i.ops if i.iscall else i.ops[:1] if i.op == "load" else ()):
                    e = lin(o) if o.kind == "inst" and (o.ty == "ptr") else {}
                    if e.get(data) == 1 or e.get(p):
                        addrs.append((o, e))
        k = 16 // st if st and 16 % st == 0 else None
        if k is None or a.get(p) != 1 or pred not in ("ult", "slt", "ne"):
            continue
        good = bool(addrs)
        kinds = set()
        for i, e in addrs:
            f = lin(i, {p: ini[0]})              # address in the first iteration
            add(f, {data: 1}, -1)
            kinds.add(f.get(None, 0))
            good = good and set(f) <= {None} and e.get(p, 0) * st == 16
        # last: the variable at which the loop stops addresses data+16*size
        stop = dict(b)
        add(stop, a, -1)
        add(stop, {p: 1}, 1)                             # p at the end
        end = None
        for i, e in addrs:
            end = lin(i, {p: stop})
            add(end, {None: dict(kinds_of(addrs, p, ini[0], data)).get(i, 0)}, -1)
            add(end, {data: 1, size: 16}, -1)
            good = good and not end
        if good and kinds == {0, 8}:
            ok = True
        else:
            why = "the loop does not visit every element of the data"
    C.ob("every-element", name, ok, core.where(h.insts[0]), why)
    # each iteration enters the element in both maps
    backs, outs = [], []
    text.Walk(F, call=cont.model, on_back=lambda s, h: backs.append(s), on_ret=lambda s, i, v: outs.append(s))
    kinds = {}
    C.ob("entered", name, backs, core.where(F), "no way round the loop")
    for s in backs:
        new = s.ev[max([j for j, e in enumerate(s.ev) if e[0] == "loop"], default=-1) + 1:]
        by = [(m, k, None) for t, m, k in [e for e in new if e[0] == "mapindex"]] + [(m, k, v) for t, m, k, v in [e for e in new if e[0] == "mapinsert"]]
        tx = [(m, k[1], v) for m, k, v in by if k[0] == "text"]
        nm = [(m, k, v) for m, k, v in by if k[0] != "text"]
        C.saw("ways round the loop")
        if len(tx) != 1 or len(nm) != 1:
            C.bad("entered", name, core.where(F), "an element is not entered once under its name and once under its value")
            continue
        (m1, k1, v1), (m2, k2, v2) = tx[0], nm[0]
        if v1 is None:
            v1 = s.mem.get((("mapelt", m1, ("text", k1)), 0))
        if v2 is None:
            v2 = s.strs.get((("mapelt", m2, k2), 0))
        elif v2[0] == "text":
            v2 = v2[1]
        C.ob("pairs", name, v1 is not None and cont.core(v1) == cont.core(k2), core.where(F), "the value entered under the name is not the value the name is entered under")
        C.ob("pairs", name, v2 is not None and s.text(v2) == s.text(k1) and len(k1) == 1 and k1[0][0] == "a" and k1[0][1][0] == "cstr", core.where(F), "the name entered under the value is not the element's name")
        kinds[("text", m1[2])] = kinds[("num", m2[2])] = True
    return kinds


def kinds_of(addrs, p, ini, data):
    for i, e in addrs:
        f = lin(i, {p: ini})
        add(f, {data: 1}, -1)
        yield i, f.get(None, 0)


# ---- conversions
def parts(v):
    if isinstance(v, tuple):
        if v and v[0] in ("find", "mapelt", "count", "lower_bound", "upper_bound", "begin"):
            yield v
        for x in v:
            yield from parts(x)


class Conv:
    """name: (kind of the key, key given, where the result is)"""
    def __init__(s, kind, key, res, table=None):
        s.kind, s.key, s.res, s.table = kind, key, res, table


CONV = {"w_value": Conv("text", ("arg", 1), "ret", ("arg", 0)), "w_name_int": Conv("num", ("arg", 2), "text", ("arg", 1)), "w_name": Conv("num", ("arg", 2), "text", ("arg", 1)),
        "w_key_value": Conv("text", ("arg", 0), "ret"), "w_key_name": Conv("num", ("arg", 1), "text"), "w_to_string": Conv("num", ("arg", 1), "text"), "w_stream": Conv("num", ("arg", 1), "out"),
        "w_handle_string": Conv("num", ("ref", 1), "text"), "w_handle_set_string": Conv("text", ("arg", 1), "ref"), "w_handle_out": Conv("num", ("ref", 1), "out"), "w_handle_in": Conv("text", "read", "ref1")}


def mine(key, k, kind):
    """is it the key given"""
    if kind == "text":
        if k[0] != "text" or len(k[1]) != 1 or k[1][0][0] != "a":
            return False
        a = k[1][0][1]
        return a == ("S", (key, 0)) if key != "read" else a[0] == "C"
    k = plain(k)
    return k == (("u", key) if key[0] == "arg" else ("u", ("M", (("arg", key[1]), 0))))


def plain(v):
    """without conversions that keep the value of the enumeration (signed, or of int)"""
    while v[0] == "u" and isinstance(v[1], tuple) and v[1][0] == "sext":
        v = v[1][2]
    return v


def lookups(C, F, base, W):
    name = F.dem.split("(")[0]
    c = CONV[name]
    ways = []
    text.Walk(F, call=cont.model, on_ret=lambda s, i, v: ways.append((s, v)))
    n = found = 0
    for s, v in ways:
        n += 1
        C.saw("ways through conversions")
        if c.res == "ret":
            r = s.norm(v)
        elif c.res in ("ref", "ref1"):
            r = s.mem.get((("arg", 1 if c.res == "ref1" else 0), 0))
        else:
            r = ("text", s.text(s.strs.get((("arg", 0), 0), ())))
            if c.res == "out":
                was = ("a", ("S", (("arg", 0), 0)))
                C.ob("whole-name", name, r[1][:1] == (was,), core.where(F), "the stream does not receive the name after what it held")
                r = ("text", r[1][1:])
        # what the table says on this way
        hit = None
        for rel, a, b, tr in cont.facts(s):
            if rel != "eq":
                continue
            for x, y in ((a, b), (b, a)):
                if x[0] == "p" and x[1][0] == "find" and y == cont.term("end", x[1][1]) and good(x[1], c, base):
                    hit = not tr
                if x[0] == "u" and x[1][:1] == ("count",) and y == ("k", 0) and good(x[1], c, base):
                    hit = not tr
        for e in s.ev:
            if e[0] == "deref":
                ok = e[1][0] == "p" and e[1][1][0] == "find" and hit is True
                C.ob("found", name, ok, core.where(F), "an element is used that was not found")
            elif e[0] == "mapindex":
                C.ob("found", name, hit is True, core.where(F), "looking up an unknown name or value adds it")
            elif e[0] == "mapat":
                hit = True
        use = list(parts(r)) if r is not None else []
        if hit is True:
            found += 1
            ok = bool(use) and all(good(p, c, base) for p in use) and exactly(r, c)
            C.ob("own-element", name, ok, core.where(F), "the result is not what the table holds for the %s given" % ("name" if c.kind == "text" else "value"))
        else:
            const = r is not None and (r[0] == "k" or r[0] == "text" and all(x[0] == "l" for x in r[1]))
            C.ob("defined", name, const and hit is False, core.where(F), "an unknown %s does not give a constant result" % ("name" if c.kind == "text" else "value"))
    C.ob("own-element", name, found, core.where(F), "no way through it uses an element of the table")


def exactly(r, c):
    """the mapped part of the element and nothing else"""
    if c.kind == "text":
        while r[0] == "u" and isinstance(r[1], tuple) and r[1][0] in ("trunc", "sext", "ashr"):
            if r[1][0] == "ashr":           # the narrower value's sign, written as two shifts
                x, k = r[1][2:]
                if x[0] != "u" or x[1][0] != "shl" or x[1][3] != k:
                    return False
                r = x[1][2]
            else:
                r = r[1][2]
        return r[0] == "u" and r[1][0] == "M" and (r[1][1][1] == 32 and r[1][1][0][0] == "at" or r[1][1][1] == 0 and r[1][1][0][0] == "mapelt")
    if len(r[1]) != 1 or r[1][0][0] != "a" or r[1][0][1][0] != "S":
        return False
    b, o = r[1][0][1][1]
    return b[0] == "at" and o == 8 or b[0] == "mapelt" and o == 0


def good(p, c, base):
    """a lookup of the key given in the map of its kind"""
    m = p[1]
    if m[0] != "p" or m[2] != base[c.kind]:
        return False
    if c.table and m[1] != c.table or not c.table and m[1][0] != "g":
        return False
    return mine(c.key, p[2], c.kind)


def has(C, F, base):
    name = F.dem.split("(")[0]
    kind = "num" if name == "w_has_value" else "text"
    c = Conv(kind, ("arg", 1), "ret", ("arg", 0))
    ways = []
    text.Walk(F, call=cont.model, on_ret=lambda s, i, v: ways.append((s, v)))
    for s, v in ways:
        C.saw("ways through conversions")
        v = s.norm(v)
        truth = True
        while v[0] == "b" and v[1] == "not":
            v, truth = v[2], not truth
        ok = False
        if v[0] == "k":
            for rel, a, b, tr in cont.facts(s):
                for x, y in ((a, b), (b, a)):
                    if rel == "eq" and (x[0] == "p" and x[1][0] == "find" and y == cont.term("end", x[1][1]) or x[0] == "u" and x[1][:1] == ("count",) and y == ("k", 0)) and good(x[1], c, base):
                        ok = ((v[1] & 1 != 0) == truth) == (not tr)
        elif v[0] == "u" and v[1][0] == "cmp" and v[1][1] == "eq":
            for x, y in (v[1][2:], v[1][:1:-1]):
                if (x[0] == "u" and x[1][:1] == ("count",) and y == ("k", 0) or x[0] == "p" and x[1][0] == "find" and y == cont.term("end", x[1][1])) and good(x[1], c, base):
                    ok = not truth
        elif v[0] == "u" and v[1][:1] == ("count",):
            ok = good(v[1], c, base)
        C.ob("has", name, ok, core.where(F), "the answer is not whether the table holds the %s" % ("value" if kind == "num" else "name"))
    C.ob("has", name, ways, core.where(F), "no way through it returns")


def handle(C, F):
    """conversions between a handle and what it refers to"""
    name = F.dem.split("(")[0]
    ways = []
    text.Walk(F, call=cont.model, on_ret=lambda s, i, v: ways.append((s, v)))
    for s, v in ways:
        C.saw("ways through conversions")
        if name == "w_handle_int":
            ok = plain(s.norm(v)) == ("u", ("M", (("arg", 0), 0)))
        else:
            ok = cont.core(s.mem.get((("arg", 0), 0), ("u", None))) == ("u", ("arg", 1))
        C.ob("same-value", name, ok, core.where(F), "the handle does not pass the value through")
    C.ob("same-value", name, ways, core.where(F), "no way through it returns")


def run():
    C = core.Check("C20", RULE, trusted=("std::map behaves as the standard says", "enumerator values fit an int"))
    T = Tree()
    for x in ("", "11"):
        T.descriptor("w_enum%s.h" % x, "w_enum%s.cd" % x, ("-nodef -typeName", "pack unpack xml_pack xml_unpack"))
    stds = ("c++98", "c++17") + (("c++11", "c++20") if C.thorough else ())
    bcs = T.compile_many([(("w_enum.cc",), dict(std=s, defs=("TR1", "HAVE_LONGLONG"))) for s in stds])
    for std, bc in zip(stds, bcs):
        M = ir.load(bc, T)
        tables(C, M)
        M = ir.load(bc, T, inline=lambda d, f, n: not f.startswith("/usr") and f != "", roots=lambda d, f, n: d.startswith("w_") and not d.startswith("w_use"))
        fs = {F.dem.split("(")[0]: F for F in M.defs() if F.dem.startswith("w_")}
        kinds = ctor(C, fs["w_ctor"])
        base = {k: o for k, o in kinds or ()}
        base.setdefault("text", 0)
        base.setdefault("num", 48)
        for n, F in sorted(fs.items()):
            C.saw("entry points", n)
            if n in CONV:
                lookups(C, F, base, None)
            elif n.startswith("w_has_"):
                has(C, F, base)
            elif n.startswith("w_handle"):
                handle(C, F)
    C.floor("entry points", 15)
    C.floor("enumerations", 21)
    C.floor("enumerators", 60)
    C.floor("ways through conversions", 24 * len(stds))
    C.floor("ways round the loop", len(stds))
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C20", RULE)
