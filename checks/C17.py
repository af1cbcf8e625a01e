#!/usr/bin/env python3
"""C17: type numbers and type names are looked up, validated and only then used."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree
import core, ir, text, cont, ana

RULE = ("dataflow over lookups (compiled to LLVM IR from the working tree): an element of a registry is addressed only where the identifier is known to be within its bounds or the search is known to have "
        "succeeded, an object is used only where its address is known not to be null, and every normal way out of a lookup has used the element found for that identifier")
BASIC = re.compile(r"(un)?pack(raw)?<(bool|char|int|unsigned|long|short|float|double)[^<>]*>\(|^classdesc::operator(<<|>>)|pack_t::(un)?packraw|pack_t::(pack_t|~pack_t)")
IDENT = {"w_create": ("arg", 0), "w_factory": ("arg", 1), "w_nfactory": ("arg", 1), "w_table": ("arg", 1)}


def ident(v, a):
    """is that value the identifier given"""
    v = cont.core(v) if v[0] != "text" else v
    if v == ("u", a) or v[0] == "p" and v[1] == a and v[2] == 0:
        return True
    if v[0] == "t" and v[1] == a:
        return True
    return v[0] == "text" and v[1] == (("a", ("S", (a, 0))),)


def parts(v):
    """all lookups a value was obtained through"""
    if isinstance(v, tuple):
        if v and v[0] in ("elt", "find", "mapelt", "lower_bound", "upper_bound", "begin"):
            yield v
        for x in v:
            yield from parts(x)


def walk(F):
    paths = []
    seen = {}

    def call(W, st, i, n):
        k = len(st.ev)
        r = cont.model(W, st, i, n)
        for e in st.ev[k:]:
            seen[e] = i
        return r
    text.Walk(F, call=call, on_ret=lambda s, i, v: paths.append(("ret", s, i, s.norm(v) if v is not None and v[0] != "text" else v)), on_throw=lambda s, i: paths.append(("throw", s, i, None)))
    return paths, seen


def prefix(s, k):
    """the facts known when an event with k entries of history was recorded"""
    class P:
        hist = s.hist[:k]
    return P


def safe(C, F, paths, seen):
    """each use is validated"""
    name = F.dem.split("(")[0]
    for k, s, x, v in paths:
        C.saw("ways through lookups")
        sizes = {}
        for e in s.ev:
            w = core.where(seen[e]) if e in seen else core.where(F)
            if e[0] == "resize":
                sizes[e[1]] = cont.core(e[2])
            elif e[0] == "index":
                C.saw("elements addressed")
                p = prefix(s, e[3])
                ok = cont.inside(p, e[2], lambda t: t == ("u", ("size", e[1])), low=not name.startswith("w_register"))
                z = sizes.get(e[1])
                if not ok and z is not None:
                    (zb, zc), (b, c) = cont.off(z), cont.off(e[2])
                    ok = zb == b and c < zc
                C.ob("in-bounds", name, ok, w, "an element is addressed that need not exist")
            elif e[0] == "deref":
                C.saw("iterators followed")
                it = e[1]
                ok = it[0] == "p" and it[1][0] == "find" and any(r == "eq" and not tr and {a, b} == {it, cont.term("end", it[1][1])} for r, a, b, tr in cont.facts(s))
                ok = ok or it[0] == "p" and it[1][0] == "find" and any(r == "eq" and not tr and any(y[0] == "u" and y[1][:1] == ("count",) and y[1][1:] == it[1][1:] for y in (a, b)) for r, a, b, tr in cont.facts(s))
                C.ob("found", name, ok, w, "an element is used that was not found")
            elif e[0] == "mapindex":
                ok = any(r == "eq" and not tr and any(y[0] == "u" and y[1] == ("count",) + e[1:] for y in (a, b)) for r, a, b, tr in cont.facts(s)) or \
                    any(r == "eq" and not tr and any(y == cont.term("find", *e[1:]) for y in (a, b)) for r, a, b, tr in cont.facts(s))
                C.ob("found", name, ok, w, "looking up an unknown identifier adds it")
            elif e[0] == "vcall":
                C.saw("objects used")
                # what a registry holds was put there by a registration, which is given an object
                held = e[1][0] == "p" and isinstance(e[1][1], tuple) and e[1][1][0] == "ld" and (e[1][1][1][:1] in (("at",), ("mapelt",)) or name.startswith("w_register") and e[1][1][1] == ("arg", 0))
                C.ob("not-null", name, held or cont.nonnull(s, e[1]), w, "an object is used whose address may be null: %s" % (e[1][1][0] if isinstance(e[1][1], tuple) else e[1][1]))


def validated(C, F, paths):
    """the object that is read into was made for the identifier read, or has it"""
    name = F.dem.split("(")[0]
    n = 0
    for k, s, x, v in paths:
        if k != "ret":
            continue
        use = [j for j, e in enumerate(s.ev) if e[0] == "vcall" and e[5] == "void" and e[6] > 1 and "pack_t" not in e[2]]
        if not use:
            continue
        n += 1
        C.saw("objects read")
        known = any(e[0] in ("index", "at", "deref", "mapat", "reset") for e in s.ev[:use[-1]])
        for r, a, b, tr in cont.facts(s):
            if r == "eq" and tr and any(y[0] == "u" and y[1][:1] == ("vc",) for y in (cont.core(a), cont.core(b))):
                known = True
        C.ob("validated", name, known, core.where(F), "an object is read although the identifier was not looked up nor compared with its own")
    C.ob("validated", name, n, core.where(F), "no way through it reads an object")


def lookup(C, F, paths):
    a = IDENT[F.dem.split("(")[0]]
    n = 0
    for k, s, x, v in paths:
        if k != "ret":
            continue
        n += 1
        l = [p for p in parts(v) if p[0] in ("elt", "find", "mapelt")]
        C.ob("own-element", F.dem.split("(")[0], l and all(ident(p[2], a) for p in l), core.where(x), "the result need not come from the element found for the identifier")
    C.ob("own-element", F.dem.split("(")[0], n, core.where(F), "no way through it returns")
    C.ob("reported", F.dem.split("(")[0], any(k == "throw" for k, *r in paths) or any(e[0] in ("at", "mapat") for k, s, x, v in paths for e in s.ev), core.where(F), "an unknown identifier is never reported")


def run():
    C = core.Check("C17", RULE, trusted=("standard containers behave as the standard says", "a user's create() reports unknown types itself", "registered prototypes are not removed"))
    T = Tree()
    stds = ("c++98", "c++17") + (("c++11", "c++20") if C.thorough else ())
    bcs = T.compile_many([(("w_obj.cc",), dict(std=s, defs=("TR1", "HAVE_LONGLONG"), extra=("-flto", "-fwhole-program-vtables"))) for s in stds])
    for std, bc in zip(stds, bcs):
        M = ir.load(bc, T, inline=lambda d, f, n: not f.startswith("/usr") and f != "" and not BASIC.search(d), roots=lambda d, f, n: d.startswith("w_"))
        for F in M.defs():
            if not F.dem.startswith("w_"):
                continue
            C.saw("entry points", F.dem)
            paths, seen = walk(F)
            safe(C, F, paths, seen)
            if F.dem.split("(")[0] in IDENT:
                lookup(C, F, paths)
            if F.dem.startswith("w_unpack"):
                validated(C, F, paths)
    C.floor("entry points", 10 * len(stds))
    C.floor("elements addressed", 4 * len(stds))
    C.floor("iterators followed", 2 * len(stds))
    C.floor("objects used", 5 * len(stds))
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C17", RULE)
