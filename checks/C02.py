#!/usr/bin/env python3
"""C02: unpacking replaces the previous contents of the target."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree
import core, ir, ana
from ana import strip, fname, succs

RULE = ("must-dataflow over every unpack instantiation: on every normal path the target container or pointer is emptied or assigned, "
        "and that happens before, and never after, the first element is added")
KILL = {"clear", "resize", "operator=", "assign", "swap", "reset", "move", "_M_reset"}
INSERT = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "emplace_hint", "append", "operator+=", "merge", "splice"}
# target kinds whose whole value must be replaced on every normal path
TOPS = {"pack": "vint vstring vvshort vuser vbool list deque set multiset map mapss mmap string wstring shint shuser uptr aptr shpoly shobj "
                "tree graph poly s_string s_vecint b_vecint b_list b_set b_vvec ref".split(),
        "xml": "vint vstring vvshort vuser list deque set multiset map mapss mmap shdouble shuser shpoly uptr".split()}


def key(v):
    b, o, var = strip(v)
    if var:
        return None
    if b.kind == "inst" and b.op == "alloca":
        return None
    return (id(b), o)


def classify(i, store_keys):
    """(kind, key) of an instruction: 'kill' | 'zero' | 'sized' | 'insert'"""
    if i.op == "store":
        k = key(i.ops[1])
        if k not in store_keys:
            return None
        return ("restore" if old_value(i.ops[0], k) else "kill", k)
    if not i.iscall:
        return None
    n = fname(i.cname())
    if n == "swap" and len(i.ops) > 1 and key(i.ops[1]) is not None and key(i.ops[0]) is None:
        return ("kill", key(i.ops[1]))
    if n == "erase" and len(i.ops) > 2:
        return ("kill", key(i.ops[0])) if key(i.ops[0]) is not None else None
    if n in KILL:
        if not i.ops:
            return None
        k = key(i.ops[0])
        if k is None:
            return None
        if n == "resize" and len(i.ops) > 1:
            if i.ops[1].kind == "const" and i.ops[1].s == 0:
                return ("kill", k)
            return ("sized", k)
        return ("kill", k)
    if n in INSERT:
        for a in i.ops[:2]:
            k = key(a)
            if k is not None:
                return ("insert", k)
    return None


def old_value(v, k, d=5):
    """may v be the value the target held before"""
    if d == 0 or v.kind != "inst":
        return False
    if v.op == "load":
        if key(v.ops[0]) == k:
            # a value loaded back after this function stored a new one is not old
            b, o, _ = strip(v.ops[0])
            return ana.reaching_store(v, b, o) is None
        b, o, var = strip(v.ops[0])
        if b.kind == "inst" and b.op == "alloca" and not var:
            st = ana.reaching_store(v, b, o)
            if st is None:      # exchanged with the target
                return any(u.iscall and fname(u.cname()) in ("swap", "exchange", "iter_swap") and any(key(a) == k for a in u.ops) for u in ana.derived(b))
            return old_value(st, k, d - 1)
        return False
    if v.op == "phi":
        return any(old_value(x, k, d - 1) for x, _ in v.inc)
    if v.op in ("select",):
        return any(old_value(x, k, d - 1) for x in v.ops[1:])
    return False


def fname_t(n):
    return (n or "").split("(")[0]


def deferred(i, T):
    """the target's address is queued in static storage for later completion"""
    if i.iscall and fname(i.cname()) in ("push_back", "emplace_back") and i.ops and strip(i.ops[0])[0].kind == "global":
        for a in i.ops[1:]:
            b = strip(a)[0]
            if b is T:
                return True
            if b.kind == "inst" and b.op == "alloca":
                st = ana.reaching_store(i, b, 0)
                if st is not None and strip(st)[0] is T:
                    return True
    return False


def points_from(i, T):
    """the object called on is the one T points to (its own unpack replaces its contents)"""
    for a in i.ops:
        b = strip(a)[0]
        if b.kind == "inst" and b.op == "load" and strip(b.ops[0])[0] is T:
            return True
    return False


def nonempty_local(F):
    """calls x.empty() on a local container constructed with at least one element and never shrunk: known false"""
    r = set()
    for i in F.calls():
        if fname(i.cname()) != "empty" or not i.ops:
            continue
        b, o, v = strip(i.ops[0])
        if b.kind != "inst" or b.op != "alloca":
            continue
        ctors = [u for u in ana.derived(b) if u.iscall and fname(u.cname()) in ("vector", "basic_string") and u.ops and strip(u.ops[0])[0] is b]
        others = [u for u in ana.derived(b) if u.iscall and fname(u.cname()) in ("clear", "resize", "erase", "pop_back", "swap", "operator=", "assign")]
        if len(ctors) == 1 and not others and len(ctors[0].ops) > 1:
            l = ana.linear(ctors[0].ops[1])
            if l.get("", 0) >= 1 and all(c >= 0 for c in l.values()):
                r.add(id(i))
    return r


def edges(F, known_false):
    def e(b):
        t = b.term
        if t.op == "br" and t.ops and t.ops[0].kind == "inst":
            c, neg = t.ops[0], False
            while c.kind == "inst" and c.op in ("xor",) and c.ops[1].kind == "const":
                c, neg = c.ops[0], not neg
            if id(c) in known_false:
                return [t.succs[0] if neg else t.succs[1]]
        return succs(b)
    return e


def analyse(C, name, F, T, top, pointer):
    store_keys = {(id(T), 0)} if pointer else set()
    ev = {}
    for i in F.insts():
        if deferred(i, T) or pointer and i.iscall and (i.cname() or "").startswith("virtual") and fname(i.cname()) in ("unpack", "xml_unpack") and points_from(i, T):
            c = ("kill", (id(T), 0))
        else:
            c = classify(i, store_keys)
        if c is None and i.iscall and "unpack_graph" in fname_t(i.cname()) and any(key(a) == (id(T), 0) for a in i.ops):
            c = ("kill", (id(T), 0))      # analysed as a function of its own
        if c and c[1] and c[1][0] == id(T):
            ev[id(i)] = c
    E = edges(F, nonempty_local(F))
    order = [b for b in F.blocks]
    TOPK = None
    inn = {b: TOPK for b in order}
    inn[F.blocks[0]] = (frozenset(), frozenset())
    work = [F.blocks[0]]
    bad = {}

    def transfer(b, st, report=False):
        killed, sized = set(st[0]), set(st[1])
        for i in b.insts:
            c = ev.get(id(i))
            if not c:
                continue
            k = c[1]
            if c[0] == "kill":
                killed.add(k)
                sized.discard(k)
            elif c[0] == "restore":
                killed.discard(k)
            elif c[0] == "sized":
                if report and name.startswith("xml "):
                    # elements kept by a resize are only overwritten where the text has them
                    C.ob("emptied-before-resize", name, k in killed, core.where(i), "old elements are kept and only overwritten where the text mentions them")
                killed.add(k)
                sized.add(k)
            elif c[0] == "insert" and report:
                C.saw("insertions", "%s: %s" % (name, fname(i.cname())))
                C.ob("emptied-before-insert", name, k in killed, core.where(i), "an element is added to the target while its previous contents may still be there")
                if k in sized:
                    C.bad("emptied-before-insert", name, core.where(i), "elements are added to a target already resized to hold them")
        return frozenset(killed), frozenset(sized)
    while work:
        b = work.pop()
        out = transfer(b, inn[b])
        for s in E(b):
            n = out if inn[s] is None else (inn[s][0] & out[0], inn[s][1] | out[1])
            if n != inn[s]:
                inn[s] = n
                work.append(s)
    inserted = [i for i in F.insts() if ev.get(id(i), ("",))[0] == "insert"]
    for b in order:
        if inn[b] is None:
            continue
        out = transfer(b, inn[b], True)
        if b.term.op == "ret" and top:
            C.saw("targets", name)
            C.ob("replaced", name, (id(T), 0) in out[0], core.where(last_loc(b)), "a normal path leaves the previous contents of the target in place")
    # emptied again after elements were added
    for i in inserted:
        k = ev[id(i)][1]
        if k[0] not in {id(a) for a in F.args}:
            continue
        reach = ana.fwd(F, i.bb)
        after = set()
        for s in succs(i.bb):
            after |= ana.fwd(F, s)
        for j in F.insts():
            c = ev.get(id(j))
            if c and c[0] in ("kill", "sized") and c[1] == k and (j.bb in after or j.bb is i.bb and j.idx > i.idx):
                C.bad("not-emptied-after-insert", name, core.where(j), "the target is emptied again after elements were added")


def last_loc(b):
    for i in reversed(b.insts):
        if i.loc:
            return i
    return b.fn


def run():
    C = core.Check("C02", RULE, trusted=("standard containers: clear/resize/operator=/assign/swap/reset discard previous contents",
                                         "a deferred graph node is completed by the restart loop (C07)"))
    T = Tree()
    T.descriptor("wtypes.h", "wtypes-pack.cd", ("-nodef -onbase", "pack unpack"))
    T.descriptor("wtypes.h", "wtypes-xml.cd", ("-nodef -typeName -onbase -respect_private", "xml_pack xml_unpack xsd_generate"))
    stds = ("c++98", "c++11", "c++17") + (("c++20",) if C.thorough else ())
    jobs = [(w, s) for w in ("w_pack.cc", "w_xml.cc") for s in stds]
    bcs = T.compile_many([((w,), dict(std=s, defs=("TR1", "HAVE_LONGLONG", "XDR_PACK"), extra=("-flto", "-fwhole-program-vtables"))) for w, s in jobs])
    for (w, s), bc in zip(jobs, bcs):
        M = ir.load(bc, T, inline=lambda d, f, n: (not f.startswith("/usr")) and f != "", roots=lambda d, f, n: d.startswith("w_"))
        kind = "pack" if "pack" in w else "xml"
        for F in M.defs():
            n = F.dem.split("(")[0]
            if not n.startswith("w_u_"):
                continue
            t = n[4:]
            C.saw("functions", "%s %s (%s)" % (kind, t, s))
            if not F.args:
                continue
            X = F.args[-1]
            analyse(C, "%s %s" % (kind, t), F, X, t in TOPS[kind], t in ("tree", "graph", "ptr", "poly", "ref"))
        for F in M.defs():
            if re.search(r"classdesc::unpack_graph<", F.dem.split("(")[0]) and len(F.args) == 2:
                C.saw("functions", F.dem)
                analyse(C, "graph node " + re.sub(r"\(.*", "", F.dem), F, F.args[1], True, True)
    C.floor("functions", 120)
    C.floor("targets", 70)
    C.floor("insertions", 40)
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C02", RULE)
