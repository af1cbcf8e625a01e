"""Counting loops: trip counts and exits over the normal form."""
from ana import strip, linear, cmp_of, expr, succs, reaching_store
from ir import SWAP, NEG


def loop_exits(F, h, body):
    """normal edges leaving the loop: (block, succ, can reach a return)"""
    import ana
    r = []
    for b in body:
        for s in succs(b):
            if s not in body and ana.can_return(F, s):
                r.append((b, s))
    return r


def induction(v, body):
    """(phi, init, step) if v is an affine induction variable of the loop (possibly after its increment)"""
    post = 0
    x = v
    while x.kind == "inst" and x.op in ("zext", "sext", "trunc", "freeze"):
        x = x.ops[0]
    if x.kind == "inst" and x.op in ("add", "sub") and x.ops[1].kind == "const" and x.ops[0].kind == "inst" and x.ops[0].op == "phi":
        post = x.ops[1].s if x.op == "add" else -x.ops[1].s
        x = x.ops[0]
    if not (x.kind == "inst" and x.op == "phi" and x.bb in body):
        return None
    init = step = None
    for val, pb in x.inc:
        if pb in body:
            st = None
            if val.kind == "inst" and val.op in ("add", "sub") and val.ops[0] is x and val.ops[1].kind == "const":
                st = val.ops[1].s if val.op == "add" else -val.ops[1].s
            if st is None or (step is not None and step != st):
                return None
            step = st
        else:
            if init is not None and init is not val:
                return None
            init = val
    if init is None or step is None:
        return None
    return x, init, step, post


def sub(a, b):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) - c
    return {k: c for k, c in r.items() if c}


def trips(F, h, body, exit_edge):
    """linear form of the number of complete iterations before leaving through exit_edge, or None.
    Only loops controlled by one affine variable against a loop-invariant bound are recognised."""
    b, s = exit_edge
    t = b.term
    if t.op != "br" or not t.ops:
        return None
    truth_exit = (t.succs[0] is s)
    c = t.ops[0]
    if not (c.kind == "inst" and c.op == "icmp"):
        return None
    pred = c.pred if truth_exit else NEG[c.pred]     # condition under which we leave
    lhs, rhs = c.ops
    ind = induction(lhs, body)
    bound = rhs
    if ind is None:
        ind = induction(rhs, body)
        bound = lhs
        pred = SWAP[pred]
    if ind is None:
        return None
    if bound.kind == "inst" and bound.bb in body and bound.op not in ("load",) and not bound.iscall:
        x = bound
        while x.kind == "inst" and x.op in ("zext", "sext", "trunc"):
            x = x.ops[0]
        if x.kind == "inst" and x.bb in body and x.op != "load":
            return None
    phi, init, step, post = ind
    # leave when (i0 + k*step + post) pred bound, k = iterations completed before the test
    I, B = linear(init), linear(bound)
    d = sub(B, I)
    d[""] = d.get("", 0) - post
    if step == 1:
        n = d
    elif step == -1:
        n = {k: -c for k, c in d.items()}
        pred = SWAP[pred]
    else:
        return None
    # leave when k pred n
    if pred in ("eq", "uge", "sge"):
        k = dict(n)
    elif pred in ("ugt", "sgt"):
        k = dict(n)
        k[""] = k.get("", 0) + 1
    elif pred == "ule" and step == -1 or pred == "sle":
        return None
    else:
        return None
    return {a: c for a, c in k.items() if c or a == ""}


def first_in_loop(F, h, body, blk):
    """does blk execute before the test in block `exit` in each iteration (do-while form)"""
    return F.dominates(blk, h)
