#!/usr/bin/env python3
"""C01: binary packing and unpacking of every supported type agree on the wire."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree
import core, ir, ana, wire, loops
from ana import strip

RULE = ("wire-event automata of pack and unpack (compiled to LLVM IR from the working tree, library helpers inlined) "
        "must accept the same language; counts written equal sizes, loops move exactly the count read, every value read reaches the target")
BLACK_SINK = re.compile(r"::(push_front|emplace_front)\(")
ELEM = {"string": 1, "wstring": 4, "s_string": 1, "b_vecint": 4, "b_vvec": 8}


def event_inst(ev, i):
    return bool(ev(i))


def check_loops(C, name, F, ev, side, arr=None):
    """every iteration moves an element; the loop leaves only through its counting condition; trip count = count"""
    for h, body in F.loops():
        evs = [i for b in body for i in b.insts if ev(i)]
        inner = [b2 for h2, b2 in F.loops() if h2 is not h and h2 in body]
        own = [i for i in evs if not any(i.bb in b2 for b2 in inner)]
        if not evs:
            continue
        C.saw("transfer loops", "%s line %s" % (name, core.where(h.term)))
        # (a) a cycle through the header without any transfer
        evb = {i.bb for i in evs}
        if h not in evb:
            seen, st, bad = set(), [s for s in succs_in(h, body)], False
            while st:
                b = st.pop()
                if b is h:
                    bad = True
                    break
                if b in seen or b in evb:
                    continue
                seen.add(b)
                st += succs_in(b, body)
            C.ob("every-iteration-transfers", name + ":" + side, not bad, core.where(evs[0]),
                 "an iteration of the element loop can complete without transferring an element")
        # (b) exits
        ex = loops.loop_exits(F, h, body)
        tl = []
        for e in ex:
            t = loops.trips(F, h, body, e)
            if t is not None:
                tl.append((e, t))
        if side == "unpack":
            slots = read_slots(F, ev)
            good = False
            for e, t in tl:
                at = {k: c for k, c in t.items() if k}
                if not at and arr is not None and t.get("", 0) == arr:
                    good = True
                    continue
                src = list(at)
                if any(k.startswith("phi@") for k in src):
                    # starts where an earlier loop stopped: leaves when the running index meets the count
                    pos = [k for k in src if not k.startswith("phi@")]
                    ok = len(pos) == 1 and at[pos[0]] == 1 and t.get("", 0) == 0
                    good = True
                    C.ob("trip-count", name + ":" + side, ok, core.where(e[0].term), "element loop ends at %s where n is the count read" % fmt(t))
                    continue
                ok = once(t)
                if not ok:
                    # the rest of what an earlier loop moved part of
                    ok = any(once(plus(t, t2)) for h2, b2 in F.loops() if h2 is not h and F.dominates(h2, h)
                             for e2 in loops.loop_exits(F, h2, b2) for t2 in [loops.trips(F, h2, b2, e2)] if t2 is not None)
                good = True
                C.ob("trip-count", name + ":" + side, ok, core.where(e[0].term),
                     "element loop runs %s times where n is the count read" % fmt(t))
            if not good and not ex:
                C.bad("trip-count", name + ":" + side, core.where(h.term), "element loop never ends normally")
        for e in ex:
            c = e[0].term
            if c.op == "br" and c.ops and side == "unpack" and loops.trips(F, h, body, e) is None:
                # another way out: must still depend on the count (unrecognised form) -- a test of a transferred element is a truncation
                if depends_on_element(c.ops[0], own, body):
                    C.bad("early-exit", name + ":" + side, core.where(c), "the element loop can stop on the value of an element")


def once(t):
    at = [k for k in t if k and t[k]]
    return len(at) == 1 and t[at[0]] == 1 and t.get("", 0) == 0


def plus(a, b):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + c
    return r


def succs_in(b, body):
    return [s for s in ana.succs(b) if s in body]


def fmt(t):
    s = "+".join(("n" if c == 1 else "%d*n" % c) for k, c in t.items() if k) or ""
    c = t.get("", 0)
    return (s + ("%+d" % c if c else "")) or str(c)


def read_slots(F, ev):
    r = set()
    for i in F.insts():
        if wire.bufop(i) == "popoff":
            v, sz, fk = wire.scalar(i)
            if v is not None:
                b, o, var = strip(v)
                r.add((id(b), o))
    return r


def depends_on_element(c, own, body, d=6):
    dst = set()
    for i in own:
        if wire.bufop(i) == "popoff":
            v, sz, fk = wire.scalar(i)
            if v is not None:
                b, o, var = strip(v)
                if b.kind == "inst" and b.op == "alloca":
                    dst.add(id(b))

    def walk(v, d):
        if d == 0 or v.kind != "inst":
            return False
        if v.op == "load" and id(strip(v.ops[0])[0]) in dst:
            return True
        return any(walk(o, d - 1) for o in v.ops if o is not None)
    return walk(c, d)


def check_counts(C, name, F, ev):
    """pack side: a container count written is exactly size(); raw blocks hold size() elements of that container"""
    cnt = []
    for i in F.insts():
        op = wire.bufop(i)
        if op == "append":
            v, sz, fk = wire.scalar(i)
            if v is None:
                continue
            b, o, var = strip(v)
            if b.kind == "inst" and b.op == "alloca":
                st = ana.reaching_store(i, b, o)
                if st is not None:
                    l = ana.linear(st)
                    src = [k for k in l if re.search(r"::(size|length)\((?!@)", k)]
                    if src:
                        ok = len([k for k in l if k]) == 1 and l[src[0]] == 1 and l.get("", 0) == 0
                        C.ob("count-written", name, ok, core.where(i), "count written is %s, not the number of elements" % l)
                        cnt.append(src[0])
        elif op == "packraw" and wire.rawsize(i.ops[2]) != "0":
            l = ana.linear(i.ops[2])
            src = [k for k in l if re.search(r"::(size|length)\((?!@)", k)]
            if src:
                k = ELEM.get(name)
                if k:
                    C.ob("raw-extent", name, len([x for x in l if x]) == 1 and l[src[0]] == k and l.get("", 0) == 0, core.where(i),
                         "raw block is %s bytes, expected %d*size" % (wire.rawsize(i.ops[2]), k))
            elif name in ELEM and [k for k in l if k]:
                C.bad("raw-extent", name, core.where(i), "raw block is %s bytes, which isn't computed from the number of elements" % wire.rawsize(i.ops[2]))


TERMINATED = re.compile(r"\bstd::find<|^(std::)?mem(r?)chr\b|^(std::)?(strlen|wcslen|strcpy|wcscpy|strdup|strncpy|char_traits<\w+>::length)(\(|$)|(basic_string<.*>|std::w?string)::(basic_string<?|operator=|operator\+=|assign|append|w?string)[^(]*\((char|wchar_t) const\*(, std::allocator[^)]*)?\)")


def check_terminated(C, name, F):
    """contents of strings are never measured by looking for a terminator: the character may be part of the value"""
    for i in F.insts():
        if i.iscall and TERMINATED.search(i.cname() or ""):
            a = i.ops[1] if re.search(r"string(<.*>)?::", i.cname()) else i.ops[0]
            lit = strip(a)[0].kind not in ("inst", "arg")
            C.saw("terminated strings", name)
            C.ob("whole-value", name, lit, core.where(i), "%s stops at the first null character of the value" % i.cname())


def check_flow(C, name, F, ev):
    """unpack side: each value read into a local is used afterwards"""
    for i in F.insts():
        op = wire.bufop(i)
        if op == "popoff":
            v, sz, fk = wire.scalar(i)
        elif op == "unpackraw":
            v = i.ops[1]
        else:
            continue
        if v is None:
            continue
        b, o, var = strip(v)
        if not (b.kind == "inst" and b.op == "alloca"):
            C.ob("flows-to-target", name, True, core.where(i))
            continue
        reach = ana.fwd(F, i.bb)
        used = False
        for u in uses(b):
            if u is i or u.op == "store" and strip(u.ops[1])[0] is b:
                continue
            if u.op == "store" and u.ops[0] is not b and strip(u.ops[0])[0] is b:
                continue          # basic_type.val = &local
            if u.iscall and passive(u, b):
                continue
            if u.op in ("load",) or u.iscall or u.op in ("gep",):
                if (u.bb in reach and u.bb is not i.bb) or (u.bb is i.bb and u.idx > i.idx):
                    used = True
                    if u.iscall and BLACK_SINK.search(u.cname() or ""):
                        C.bad("element-order", name, core.where(u), "elements are added at the front of the sequence")
        if name == "array" and not used:
            # a fixed-size target keeps what fits: elements read in a loop of their own, after the one filling it, are surplus
            lp = [b for h, b in F.loops() if i.bb in b]
            fill = [j for j in F.insts() if wire.bufop(j) == "popoff" and not any(j.bb in b for b in lp) and getattr(strip(wire.scalar(j)[0])[0], "op", "")  != "alloca"]
            if lp and fill:
                C.saw("surplus reads", name)
                continue
        C.ob("flows-to-target", name, used, core.where(i), "a value read from the buffer is dropped")


def passive(u, b):
    """a call that cannot carry b's value anywhere: lifetime, size queries, b's own construction"""
    n = ana.fname(u.cname() or "")
    if n.startswith("~") or n in ("size", "empty", "length", "capacity", "allocator", "XDR_filter") or (u.cname() or "").startswith("llvm."):
        return True
    cls = (u.cname() or "").split("(")[0]
    if strip(u.ops[0])[0] is b and re.search(r"(^|::)%s(<.*>)?::%s$" % (re.escape(n), re.escape(n)), cls):
        return True     # constructor of b itself
    return False


def uses(b):
    out, st, seen = [], [b], set()
    while st:
        x = st.pop()
        for u in x.users:
            if id(u) in seen:
                continue
            seen.add(id(u))
            out.append(u)
            if u.op == "gep":
                st.append(u)
    return out


def direct(F, ev):
    """(offset,size) of scalars moved straight to/from fields of the object"""
    r = []
    for i in F.insts():
        if wire.bufop(i) in ("append", "popoff"):
            v, sz, fk = wire.scalar(i)
            if v is not None:
                b, o, var = strip(v)
                if b.kind == "arg" and b.idx == 1 and not var:
                    r.append((o, sz))
    return r


def with_offsets(ev):
    def f(i):
        l = ev(i)
        if not l:
            return l
        if wire.bufop(i) in ("append", "popoff"):
            v, sz, fk = wire.scalar(i)
            if v is not None:
                b, o, var = strip(v)
                if b.kind == "arg" and b.idx == 1 and not var:
                    return ["%s@%d" % (l[0][1], o)]
            return [l[0][1]]
        return l
    return f


def compare(C, rule, name, P, U, xdr, arr=False):
    evp, bp = wire.wire_events(P, xdr)
    evu, bu = wire.wire_events(U, xdr)
    A, B = wire.build(P, evp, bp), wire.build(U, evu, bu)
    if A is None or B is None:
        A, B = ana.automaton(P, flatl(evp)), ana.automaton(U, flatl(evu))
        C.notes.append("%s: flag-insensitive" % name)
    r = ana.compare(A, B, ("=0", "!0") if arr else ())
    C.saw("automaton pairs", "%s: %s" % (name, "; ".join(ana.language(A, 8)[:2])))
    C.saw("wire events", None)
    why = ""
    w = None
    if r:
        word, side = r
        why = "after [%s] only %s %s '%s'" % (" ".join(word[:-1][-10:]), "packing" if side == "first" else "unpacking",
                                              "can end at" if word[-1] == "<end>" else "moves", word[-1])
        w = (A if side == "first" else B).src.get(word[-1])
        if w is None:
            w = U
    C.ob(rule, name, r is None, core.where(w) if w is not None else core.where(U), why)
    if r is None:
        dp, du = direct(P, evp), direct(U, evu)
        if sorted(dp) == sorted(du) and len(dp) > 1:
            r = ana.compare(ana.automaton(P, with_offsets(evp)), ana.automaton(U, with_offsets(evu)))
            C.ob("field-order", name, r is None, core.where(U), "fields are read back in a different order than written: %s" % (r and " ".join(r[0][-6:])))
    return evp, evu


def flatl(ev):
    def f(i):
        l = ev(i)
        return [x[1] if isinstance(x, tuple) else x for x in l] if l else None
    return f


def array_fn(C, name, F):
    """the dimension loop runs dims-1 times and multiplies into the element count; elements 0..count-1 are moved"""
    prod = None
    for h, body in F.loops():
        evs = [i for b in body for i in b.insts if wire.bufop(i) or (i.iscall and strip(i.ops[0])[0] is F.args[0] if i.iscall and i.ops else False)]
        ts = [t for t in (loops.trips(F, h, body, e) for e in loops.loop_exits(F, h, body)) if t is not None]
        muls = [i for b in body for i in b.insts if i.op == "mul"]
        if muls and not any(wire.bufop(i) for i in evs):
            C.saw("dimension loops", name)
            for t in ts:
                ok = t == {"arg3": 1, "": -1}
                C.ob("array-dimensions", name, ok, core.where(h.term), "the extra-dimension loop runs %s times instead of dims-1" % {("dims" if k == "arg3" else k): v for k, v in t.items()})
    return prod


def run():
    C = core.Check("C01", RULE, trusted=("clang's lowering of the sources to IR", "std:: containers behave as specified",
                                         "user-supplied pack/unpack virtuals of polymorphic classes are inverse to each other"))
    T = Tree()
    T.descriptor("wtypes.h", "wtypes-pack.cd", ("-nodef -onbase", "pack unpack"))
    stds = ("c++98", "c++11", "c++17") + (("c++20",) if C.thorough else ())
    jobs = []
    for std in stds:
        for xdr in (True, False):
            if not xdr and std != "c++11" and not C.thorough:
                continue
            jobs.append((std, xdr))
    bcs = T.compile_many([(("w_pack.cc",), dict(std=s, defs=("TR1", "HAVE_LONGLONG") + (("XDR_PACK",) if x else ()),
                                                  extra=("-flto", "-fwhole-program-vtables"))) for s, x in jobs])
    inl = lambda d, f, n: (not f.startswith("/usr")) and f != ""
    for (std, xdr), bc in zip(jobs, bcs):
        M = ir.load(bc, T, inline=inl, roots=lambda d, f, n: d.startswith("w_"))
        fs = {f.dem.split("(")[0]: f for f in M.defs() if f.dem.startswith("w_")}
        tag = "" if xdr else "/noxdr"
        done = set()
        for n, P in sorted(fs.items()):
            if not n.startswith("w_p_"):
                continue
            t = n[4:]
            C.saw("types", "%s (%s%s)" % (t, std, tag))
            arr = 3 if t == "array" else None
            evp, _ = wire.wire_events(P, xdr)
            check_counts(C, t, P, evp)
            check_terminated(C, t, P)
            check_loops(C, t, P, evp, "pack", arr)
            for pre, r in (("w_u_", "wire-symmetry"), ("w_c_", "wire-symmetry-const")):
                U = fs.get(pre + t)
                if U is None:
                    continue
                _, evu = compare(C, r, t, P, U, xdr, arr is not None)
                check_loops(C, t + ("" if pre == "w_u_" else " const"), U, evu, "unpack", arr)
                if pre == "w_u_":
                    check_flow(C, t, U, evu)
                    check_terminated(C, t, U)
        # functions left as calls (variadic arrays, recursive graph functions)
        for F in M.defs():
            b = F.dem.split("(")[0]
            if F.dem.startswith("w_") or not re.search(r"classdesc::pack(_graph)?(<|$)", b):
                continue
            key = wire.normname(F.dem)
            G = [g for g in M.defs() if "unpack" in g.dem.split("(")[0] and wire.normname(g.dem) == key]
            if not G:
                C.bad("wire-symmetry", key, core.where(F), "no unpack counterpart")
                continue
            for g in G:
                compare(C, "wire-symmetry" if g.dem.count("const") == F.dem.count("const") else "wire-symmetry-const", key, F, g, xdr)
            if "is_array" in F.dem:
                for f in [F] + G:
                    if f in done:
                        continue
                    done.add(f)
                    array_fn(C, f.dem, f)
                    ev, _ = wire.wire_events(f, xdr)
                    arrayloop(C, f, ev)
    C.floor("types", 150)
    C.floor("automaton pairs", 250)
    C.floor("transfer loops", 40)
    return C.finish()


def arrayloop(C, F, ev):
    for h, body in F.loops():
        evs = [i for b in body for i in b.insts if ev(i)]
        if not evs:
            continue
        ex = loops.loop_exits(F, h, body)
        for e in ex:
            t = loops.trips(F, h, body, e)
            if t is None:
                continue
            ok = len(t) - ("" in t) == 1 and t.get("", 0) == 0 and all(c == 1 for k, c in t.items() if k)
            C.ob("trip-count", F.dem, ok, core.where(e[0].term), "the element loop runs %s times" % fmt(t))


if __name__ == "__main__":
    core.main(run, "C01", RULE)
