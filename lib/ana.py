"""Dataflow helpers over the normal form of ir.py."""
import re
from ir import NEG, SWAP


def strip(v):
    """(base, constant offset, variable parts) of a pointer"""
    off, var = 0, []
    seen = 0
    while seen < 200:
        seen += 1
        if v.kind == "inst" and v.op == "gep":
            off += v.off
            var += v.var
            v = v.ops[0]
        elif v.kind == "cexpr" and v.op == "gep":
            off += v.off
            v = v.ops[0]
        elif v.kind == "inst" and v.op in ("bitcast", "addrspacecast", "freeze"):
            v = v.ops[0]
        else:
            break
    return v, off, var


PURE = re.compile(r"::(size|length|data|c_str|begin|end|cbegin|cend|empty|capacity|get|operator\*|operator->|operator\[\]|at|front|back|max_size|count|find)\(")


def succs(b):
    """successors without exceptional edges; nothing after a call that cannot return"""
    t = b.term
    if t.op == "invoke":
        return [t.normal]
    if t.op in ("unreachable", "resume"):
        return []
    return b.succs


def holders(base, depth=4):
    """(base plus the allocas its address was stored into, did it escape elsewhere)"""
    hold, wild = [base], False
    if base.kind != "inst" or base.op != "alloca":
        return hold, False
    for _ in range(depth):
        new = []
        for x in hold:
            for u in derived(x):
                if u.op == "store" and strip(u.ops[0])[0] is x:
                    t = strip(u.ops[1])[0]
                    if t.kind == "inst" and t.op == "alloca":
                        if t not in hold and t not in new:
                            new.append(t)
                    else:
                        wild = True
        if not new:
            break
        hold += new
    return hold, wild


def derived(b):
    """users of a pointer, looking through geps"""
    out, st, seen = [], [b], set()
    while st:
        x = st.pop()
        for u in x.users:
            if id(u) in seen:
                continue
            seen.add(id(u))
            out.append(u)
            if u.op in ("gep", "bitcast"):
                st.append(u)
    return out


def reaching_store(inst, base, off, limit=400):
    """value stored to base+off on the straight line of code before inst, or None"""
    b, k = inst.bb, inst.idx - 1
    seen = set()
    n = 0
    hold, wild = holders(base)
    while True:
        while k >= 0:
            i = b.insts[k]
            n += 1
            if n > limit:
                return None
            if i.op == "store":
                sb, so, sv = strip(i.ops[1])
                if sb is base and so == off and not sv:
                    return i.ops[0]
                if sb is base and sv:
                    return None
            elif i.iscall and i is not inst:
                if (i.cname() or "").endswith(") const") or (i.cname() or "").startswith("llvm."):
                    k -= 1
                    continue
                if wild and not fname(i.cname()).startswith("~"):
                    return None
                for a in i.ops:
                    if strip(a)[0] in hold:
                        return None
            k -= 1
        p = [x for x in b.preds if b in succs(x)]
        if len(p) != 1 or p[0] in seen:
            return None
        b = p[0]
        seen.add(b)
        k = len(b.insts) - 1


def expr(v, depth=6):
    """canonical text of a value"""
    if v is None:
        return "?"
    if v.kind in ("const",):
        return str(v.s)
    if v.kind == "null":
        return "null"
    if v.kind == "arg":
        return "arg%d" % v.idx
    if v.kind == "global":
        return repr(v)
    if v.kind == "func":
        return "&" + v.dem
    if v.kind == "cexpr":
        if v.op == "gep":
            return "(%s+%d)" % (expr(v.ops[0], depth - 1), v.off)
        return "%s(%s)" % (v.op, ",".join(expr(o, depth - 1) for o in v.ops))
    if v.kind != "inst":
        return repr(v)
    if depth <= 0:
        return "..."
    if v.op == "gep":
        s = expr(v.ops[0], depth - 1)
        if v.off:
            s += "+%d" % v.off
        for o, sc in v.var:
            s += "+%d*%s" % (sc, expr(o, depth - 1))
        return "(%s)" % s
    if v.op == "load":
        a = v.ops[0]
        b, o, var = strip(a)
        if b.kind == "inst" and b.op == "alloca" and not var:
            st = reaching_store(v, b, o)
            if st is not None:
                return expr(st, depth - 1)
        return "*" + expr(a, depth - 1)
    if v.op == "alloca":
        return "%" + (v.name or "tmp") + "@%d" % id(v)
    if v.iscall:
        n = v.cname() or "indirect"
        n = re.sub(r"\(.*", "", re.sub(r"<[^()]*>", "<>", n))
        return "%s(%s)" % (n, ",".join(expr(o, depth - 1) for o in v.ops))
    if v.op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
        return expr(v.ops[0], depth)
    if v.op == "phi":
        return "phi@%d" % id(v)
    if v.op == "icmp":
        return "(%s %s %s)" % (expr(v.ops[0], depth - 1), v.pred, expr(v.ops[1], depth - 1))
    ops = [expr(o, depth - 1) for o in v.ops]
    if v.op in ("add", "mul", "and", "or", "xor"):
        ops.sort()
    return "%s(%s)" % (v.op, ",".join(ops))


def linear(v, depth=8):
    """v as {atom:coef} plus constant under key ''; atoms are canonical texts (wrap-around ignored)"""
    if v.kind == "const":
        return {"": v.s}
    if v.kind == "inst":
        if v.op in ("zext", "sext", "trunc", "bitcast", "freeze"):
            return linear(v.ops[0], depth)
        if v.op in ("add", "sub") and depth:
            a, b = linear(v.ops[0], depth - 1), linear(v.ops[1], depth - 1)
            r = dict(a)
            for k, c in b.items():
                r[k] = r.get(k, 0) + (c if v.op == "add" else -c)
            return {k: c for k, c in r.items() if c or k == ""}
        if v.op == "mul" and v.ops[1].kind == "const":
            return {k: c * v.ops[1].s for k, c in linear(v.ops[0], depth - 1).items()}
        if v.op == "shl" and v.ops[1].kind == "const":
            return {k: c << v.ops[1].s for k, c in linear(v.ops[0], depth - 1).items()}
        if v.op == "load":
            b, o, var = strip(v.ops[0])
            if b.kind == "inst" and b.op == "alloca" and not var:
                st = reaching_store(v, b, o)
                if st is not None:
                    return linear(st, depth - 1)
    return {expr(v): 1}


# ---------------------------------------------------------------------------
# control dependence / guards

def fwd(F, start, stop=None, edges=succs):
    """blocks reachable from block `start` (inclusive) along `edges`"""
    seen = {start}
    st = [start]
    while st:
        b = st.pop()
        if stop and b in stop:
            continue
        for n in edges(b):
            if n not in seen:
                seen.add(n)
                st.append(n)
    return seen


def can_return(F, b, avoid=()):
    """can a normal return be reached from b (inclusive) without entering `avoid`"""
    seen = {b}
    st = [b]
    while st:
        x = st.pop()
        if x in avoid:
            continue
        if x.term.op == "ret":
            return True
        for n in succs(x):
            if n not in seen:
                seen.add(n)
                st.append(n)
    return False


def edge_dominates(F, frm, to, bb):
    """every path entry->bb uses the edge frm->to"""
    if not F.dominates(to, bb):
        return False
    return all(p is frm or F.dominates(to, p) for p in to.preds)


def guards(F, bb):
    """conditions known true on entry to bb: list of (icmp-or-value, truth, branch inst)"""
    res = []
    d = F.idom()
    b = bb
    if b not in d:
        return res
    while True:
        p = d[b]
        if p is b:
            break
        t = p.term
        if t.op == "br" and t.ops:
            for k in (0, 1):
                if t.succs[0] is not t.succs[1] and edge_dominates(F, p, t.succs[k], bb):
                    res.append((t.ops[0], k == 0, t))
        elif t.op == "switch":
            for cv, cb in t.cases:
                if edge_dominates(F, p, cb, bb) and sum(1 for _, x in t.cases if x is cb) == 1:
                    res.append((t.ops[0], cv, t))
        b = p
    return flat(res)


def flat(gs):
    """expand and/or/xor-not/select forms of branch conditions"""
    out = []
    work = list(gs)
    while work:
        c, tr, t = work.pop()
        if c.kind == "inst" and tr in (True, False):
            if c.op == "and" and tr or c.op == "or" and not tr:
                work += [(o, tr, t) for o in c.ops]
                continue
            if c.op == "select" and c.ops[0].kind == "inst":
                # a && b : select a, b, false      a || b : select a, true, b
                if tr and c.ops[2].kind == "const" and c.ops[2].v == 0:
                    work += [(c.ops[0], True, t), (c.ops[1], True, t)]
                    continue
                if not tr and c.ops[1].kind == "const" and c.ops[1].v == 1:
                    work += [(c.ops[0], False, t), (c.ops[2], False, t)]
                    continue
            if c.op == "xor" and len(c.ops) == 2 and c.ops[1].kind == "const" and c.ops[1].v == 1:
                work.append((c.ops[0], not tr, t))
                continue
        out.append((c, tr, t))
    return out


def cmp_of(c, truth):
    """(pred, a, b) of a guard that is an icmp, with polarity applied"""
    if c.kind == "inst" and c.op == "icmp" and truth in (True, False):
        p = c.pred if truth else NEG[c.pred]
        return p, c.ops[0], c.ops[1]
    return None


# ---------------------------------------------------------------------------
# event automata

class NFA:
    def __init__(self):
        self.n = 0
        self.eps, self.tr, self.final = {}, {}, set()
        self.src = {}

    def state(self):
        self.n += 1
        return self.n - 1


def automaton(F, label, entry=None):
    """NFA over event labels of the normal (non-exceptional) paths of F. label(inst)->None | label | list"""
    A = NFA()
    start = {b: A.state() for b in F.blocks}
    A.start = start[entry or F.blocks[0]]
    for b in F.blocks:
        cur = start[b]
        dead = False
        for i in b.insts:
            l = label(i)
            if l is None:
                continue
            for x in (l if isinstance(l, list) else [l]):
                n = A.state()
                A.tr.setdefault(cur, []).append((x, n))
                A.src.setdefault(x, i)
                cur = n
        if b.term.op == "ret":
            A.final.add(cur)
        for s in succs(b):
            A.eps.setdefault(cur, []).append(start[s])
    return A


def closure(A, S):
    S = set(S)
    st = list(S)
    while st:
        x = st.pop()
        for n in A.eps.get(x, ()):
            if n not in S:
                S.add(n)
                st.append(n)
    return frozenset(S)


def live(A):
    """states from which a final state is reachable"""
    rev = {}
    for s, l in A.eps.items():
        for t in l:
            rev.setdefault(t, []).append(s)
    for s, l in A.tr.items():
        for _, t in l:
            rev.setdefault(t, []).append(s)
    L = set(A.final)
    st = list(L)
    while st:
        x = st.pop()
        for p in rev.get(x, ()):
            if p not in L:
                L.add(p)
                st.append(p)
    return L


def step(A, S, x):
    return closure(A, [t for s in S for (l, t) in A.tr.get(s, ()) if l == x])


def compare(A, B, free=()):
    """None if the languages are equal, else (word, side that accepts it / can continue).
    Labels in `free` may be present on the second side only (value ranges the first side excludes)."""
    LA, LB = live(A), live(B)
    a0, b0 = closure(A, [A.start]) & LA, closure(B, [B.start]) & LB
    seen = {(a0, b0)}
    q = [(a0, b0, ())]
    while q:
        a, b, w = q.pop(0)
        fa, fb = bool(a & A.final), bool(b & B.final)
        if fa != fb:
            return w + ("<end>",), "first" if fa else "second"
        la = {l for s in a for (l, t) in A.tr.get(s, ()) if t in LA}
        lb = {l for s in b for (l, t) in B.tr.get(s, ()) if t in LB}
        if la - lb:
            return w + (sorted(la - lb)[0],), "first"
        if (lb - la) - set(free):
            return w + (sorted((lb - la) - set(free))[0],), "second"
        for l in sorted(la):
            na, nb = step(A, a, l) & LA, step(B, b, l) & LB
            if not na and not nb:
                continue
            if (na, nb) not in seen:
                seen.add((na, nb))
                q.append((na, nb, w + (l,)))
                if len(seen) > 20000:
                    return None
    return None


def language(A, maxlen=8):
    """a short printable description: some shortest words"""
    res = []
    L = live(A)
    q = [(closure(A, [A.start]) & L, ())]
    seen = set()
    while q and len(res) < 4:
        s, w = q.pop(0)
        if s & A.final:
            res.append(" ".join(w))
        if len(w) < maxlen:
            for l in sorted({l for x in s for (l, t) in A.tr.get(x, ()) if t in L}):
                n = step(A, s, l) & L
                if n and (n, len(w)) not in seen:
                    seen.add((n, len(w)))
                    q.append((n, w + (l,)))
    return res


def fname(dem):
    """own name of a function: the last component before the parameter list ('push_back', '~list', 'list')"""
    if not dem:
        return ""
    s = re.sub(r"^virtual ", "", dem)
    out, d = [], 0
    s = s.replace("operator<<", "operator@ll").replace("operator>>", "operator@gg").replace("operator<", "operator@l").replace("operator>", "operator@g").replace("operator->", "operator@a").replace("operator()", "operator@c").replace("(anonymous namespace)", "anon")
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            if ch == "(":
                break
            out.append(ch)
    n = "".join(out)
    n = n.split("::")[-1].strip()
    if "operator" not in n:
        n = n.split(" ")[-1]
    return n


# ---------------------------------------------------------------------------
# path exploration with a finite abstract state

def explore(F, init, step, refine, start=None, stop=None, limit=20000):
    """all (block, state) reachable along normal edges. step(inst, state)->state | None (path ends);
    refine(condition, truth, state)->state | None (infeasible). Returns [(ret inst, state)]"""
    from buf import dnf
    out = []
    seen = set()
    work = [(start or F.blocks[0], 0, init)]
    if start is not None and not hasattr(start, "insts"):
        work = [(start.bb, start.idx + 1, init)]
    while work:
        b, k, st = work.pop()
        if (b, k, st) in seen:
            continue
        seen.add((b, k, st))
        if len(seen) > limit:
            return None
        dead = False
        for i in b.insts[k:]:
            if stop is not None and stop(i, st):
                out.append((i, st))
                dead = True
                break
            st = step(i, st)
            if st is None:
                dead = True
                break
        if dead:
            continue
        t = b.term
        if t.op == "ret":
            out.append((t, st))
        elif t.op == "br" and t.ops and t.succs[0] is not t.succs[1]:
            for n, tr in ((t.succs[0], True), (t.succs[1], False)):
                for alt in dnf(t.ops[0], tr):
                    s2 = st
                    for c, v in alt:
                        s2 = refine(c, v, s2)
                        if s2 is None:
                            break
                    if s2 is not None:
                        work.append((n, 0, s2))
        else:
            for n in succs(b):
                work.append((n, 0, st))
    return out
