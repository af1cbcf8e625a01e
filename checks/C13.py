#!/usr/bin/env python3
"""C13: function-object calls bind every argument to the right parameter."""
import os, re, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree
import core, ir, ana

RULE = ("for every number of arguments, the traits (as constants) against the signature they are asked about, and dataflow over the call wrappers (compiled to LLVM IR from the working tree, "
        "with a distinct type for every argument): the only call is of the wrapped function, on the wrapped object, its k-th operand is the k-th argument and what it returns is returned; arguments are taken from and put into buffers in order")


def joined(n, f, sep=","):
    return sep.join(f(k) for k in range(1, n + 1))


def witness(n, std, unrolled):
    """the wrappers and traits for functions of n arguments"""
    T = joined(n, lambda k: "E%d" % k)
    D = joined(n, lambda k: "E%d a%d" % (k, k))
    A = joined(n, lambda k: "a%d" % k)
    I = joined(n, lambda k: "int")
    c = lambda x: "," + x if x else ""
    ne = [""] + (["noexcept"] if std in ("c++17", "c++20") else [])
    o = []
    traits = []

    def sig(name, ty, **kw):
        f = "%s_%d" % (name, n)
        o.append("typedef %s;" % ty.replace("@", f))
        for t, w in kw.items():
            if t == "args":
                continue
            e = {"arity": "(long)Arity<%s>::value" % f, "V": "(long)Arity<%s>::V" % f, "ret": "is_same<Return<%s>::T,Ret>::value" % f, "cls": "is_same<ClassOf<%s>::T,Obj>::value" % f, "rettype": "is_same<Return<%s>::type,Ret>::value" % f,
                 "member": "is_member_function_ptr<%s>::value" % f, "const": "is_const_method<%s>::value" % f,
                 "nonmember": "is_nonmember_function_ptr<%s>::value" % f, "function": "functional::is_function<%s>::value" % f,
                 "acceptable": "AllArgs<%s,is_rvalue>::value" % f}.get(t)
            traits.append((name, t, e, w))
        if kw.get("args"):
            for k in range(1, n + 1):
                traits.append((name, "argument %d" % k, "(is_same<functional::Arg<%s,%d>::T,E%d>::value && is_same<functional::Arg<%s,%d>::type,E%d>::value)" % (f, k, k, f, k, k), 1))
    for x in ne:
        s = "x" if x else ""
        sig("fp" + s, "Ret (*@)(%s) %s" % (T, x), arity=n, V=n, ret=1, rettype=1, member=0, const=0, nonmember=1, function=1, acceptable=1, args=n)
        sig("mp" + s, "Ret (Obj::*@)(%s) %s" % (T, x), arity=n, V=n, ret=1, rettype=1, cls=1, member=1, const=0, nonmember=0, function=1, acceptable=1, args=n)
        sig("cp" + s, "Ret (Obj::*@)(%s) const %s" % (T, x), arity=n, V=n, ret=1, rettype=1, cls=1, member=1, const=1, nonmember=0, function=1, acceptable=1, args=n)
        if not x:
            sig("sp" + s, "Ret (*Obj::*@)(%s) %s" % (T, x), arity=n, V=n, ret=1, rettype=1, cls=1, member=0, nonmember=1, function=1)
        sig("bm" + s, "bound_method<Obj,mp%s_%d> @" % (s, n), arity=n, V=n, ret=1, args=n)
        sig("bc" + s, "bound_method<const Obj,cp%s_%d> @" % (s, n), arity=n, V=n, ret=1, args=n)
        if not unrolled:
            sig("rf" + s, "Ret @(%s) %s" % (T, x), arity=n, V=n, ret=1, args=n)
            if not x:
                sig("sf" + s, "std::function<Ret(%s)> @" % T, arity=n, V=n, ret=1, args=n)
        # void, and plain integers
        for q, R in (("v", "void"), ("l", "long")):
            for k, form in (("f", "(*%s)(%s) %s"), ("m", "(Obj::*%s)(%s) %s"), ("c", "(Obj::*%s)(%s) const %s")):
                o.append("typedef %s %s;" % (R, form % ("%s%s%s_%d" % (k, q, s, n), T, x)))
        o.append("typedef long (*fi%s_%d)(%s) %s;" % (s, n, I, x))
        o.append("typedef void (*fj%s_%d)(%s) %s;" % (s, n, I, x))
    for i, (name, t, e, w) in enumerate(traits):
        traits[i] = (name, t, w)
        o.append("extern const long w_trait_%d_%d; const long w_trait_%d_%d=%s;" % (n, i, n, i, e))
    for x in ne:
        s = "x" if x else ""
        for q, R, ret in (("l", "long", "return "), ("v", "void", "")):
            o.append("%s w_bound_m%s%s_%d(Obj& o, m%s%s_%d m%s) {%sbindMethod(o,m)(%s);}" % (R, q, s, n, q, s, n, c(D), ret, A))
            o.append("%s w_bound_c%s%s_%d(Obj& o, c%s%s_%d m%s) {%sbindMethod(o,m)(%s);}" % (R, q, s, n, q, s, n, c(D), ret, A))
            o.append("%s w_constbound_c%s%s_%d(const Obj& o, c%s%s_%d m%s) {%sbindMethod(o,m)(%s);}" % (R, q, s, n, q, s, n, c(D), ret, A))
            if q == "l" or not unrolled:
                o.append("%s w_refused_%s%s_%d(const Obj& o, m%s%s_%d m%s) {%sbindMethod(o,m)(%s);}" % (R, q, s, n, q, s, n, c(D), ret, A))
            o.append("%s w_rebound_%s%s_%d(Obj& p, Obj& o, m%s%s_%d m%s) {bound_method<Obj,m%s%s_%d> b(p,m); b.rebind(o); %sb(%s);}" % (R, q, s, n, q, s, n, c(D), q, s, n, ret, A))
            o.append("%s w_call_f%s%s_%d(Buf& b, f%s%s_%d f) {%scallOnBuffer(b,f);}" % (R, q, s, n, q, s, n, ret))
            o.append("%s w_callbound_%s%s_%d(Buf& b, Obj& o, m%s%s_%d m) {%scallOnBuffer(b,bindMethod(o,m));}" % (R, q, s, n, q, s, n, ret))
            o.append("%s w_functor_%s%s_%d(PackFunctor<Buf>& b, f%s%s_%d f) {%sb.call(f);}" % (R, q, s, n, q, s, n, ret))
        o.append("void w_apply_i%s_%d(long* r, fi%s_%d f, const Vec& a) {apply(r,f,a);}" % (s, n, s, n))
        o.append("void w_apply_j%s_%d(fj%s_%d f, Vec& a) {apply((void*)0,f,a);}" % (s, n, s, n))
    if not unrolled and n:
        # a method that keeps what it is given cannot be called with values
        for k in (1, n):
            L = joined(n, lambda j: "E%d%s" % (j, "&" if j == k else ""))
            o.append("typedef Ret (Obj::*rr%d_%d)(%s); Ret w_refused_r%d_%d(Obj& o, rr%d_%d m%s) {return bindMethod(o,m)(%s);}" % (k, n, L, k, n, k, n, c(D), A))
            if n == 1:
                break
        # arguments given as constant references, and strings
        L = joined(n, lambda j: "const E%d&" % j)
        o.append("typedef long (*cr_%d)(%s); long w_call_cr_%d(Buf& b, cr_%d f) {return callOnBuffer(b,f);}" % (n, L, n, n))
        o.append("void w_pack_%d(PackFunctor<Buf>& p%s) {p.pack<fp_%d>(%s);}" % (n, c(D), n, A))
        o.append("void w_packown_%d(PackFunctor<Buf>& p%s) {p.pack(%s);}" % (n, c(D), A))
    return o, traits


def source(v, k=12):
    """where a value comes from, through copies"""
    while v.kind == "inst" and k:
        k -= 1
        if v.op in ("zext", "sext", "trunc", "freeze", "bitcast"):
            v = v.ops[0]
            continue
        if v.op == "load":
            b, o, var = ana.strip(v.ops[0])
            if b.kind == "inst" and b.op == "alloca" and not var:
                d = ana.reaching_store(v, b, o)
                if d is not None and d.kind in ("inst", "arg", "const") if hasattr(d, "kind") else False:
                    v = d
                    continue
        break
    return v


def calls(F):
    """calls of anything but the library's own helpers and what LLVM needs"""
    return [i for i in F.insts() if i.iscall and not (i.cname() or "").startswith("llvm.")]


def ways(F):
    """the sequences of calls on all the ways to a return (no loops are expected)"""
    r, work = [], [(F.blocks[0], (), frozenset())]
    while work:
        b, seq, on = work.pop()
        if b in on or len(r) > 200:
            return None
        seq = seq + tuple(i for i in b.insts if i.iscall and not (i.cname() or "").startswith("llvm."))
        if b.term.op == "ret":
            r.append((seq, b.term))
        for s in ana.succs(b):
            work.append((s, seq, on | {b}))
    return r


def target(C, F, i, callee, args, obj, where):
    """i calls callee (a function pointer argument, or a method pointer argument) with args"""
    name = F.dem.split("(")[0]
    ops = list(i.ops)
    if obj is not None:
        C.ob("object", name, ops and ana.strip(ops[0])[0] is obj, where, "the method is called on another object than the one bound")
        ops = ops[1:]
    ok = len(ops) == len(args)
    C.ob("arguments", name, ok, where, "%d arguments are passed on for %d" % (len(ops), len(args)))
    for k, (x, a) in enumerate(zip(ops, args)):
        C.saw("arguments followed")
        C.ob("arguments", name, a(source(x)), where, "argument %d is not bound to parameter %d" % (k + 1, k + 1))


def indirect(i):
    return i.callee is None or getattr(i.callee, "kind", "") in ("arg", "inst")


def result(C, F, ret, i, void):
    name = F.dem.split("(")[0]
    if not void:
        C.ob("result", name, ret.ops and source(ret.ops[0]) is i, core.where(ret), "what the function returns is not returned")


def bound(C, F, n, first, void):
    """a call through a bound method"""
    name = F.dem.split("(")[0]
    W = ways(F)
    if not W:
        C.bad("calls", name, core.where(F), "the method is never called")
        return
    for seq, ret in W:
        seq = [i for i in seq if not own(i)]
        C.saw("calls followed")
        ok = len(seq) == 1 and indirect(seq[0])
        C.ob("calls", name, ok, core.where(seq[0]) if seq else core.where(F), "the method is called %d times" % sum(1 for i in seq if indirect(i)))
        if ok:
            args = F.args[-n:] if n else []
            target(C, F, seq[0], None, [lambda v, a=a: v is a for a in args], F.args[first], core.where(seq[0]))
            result(C, F, ret, seq[0], void)


def own(i):
    return False


def refused(C, F):
    """no way calls, every way throws"""
    name = F.dem.split("(")[0]
    C.saw("calls refused")
    for i in F.insts():
        if i.iscall and indirect(i):
            C.bad("refused", name, core.where(i), "a method that may change the object is called on a constant one")
    C.ob("refused", name, not any(b.term.op == "ret" for b in F.blocks), core.where(F), "a call that cannot be made is not reported")


def applied(C, F, n, fi, void):
    """a call with the elements of a vector"""
    name = F.dem.split("(")[0]
    vec = F.args[-1]
    W = ways(F) or []
    C.ob("calls", name, bool(W), core.where(F), "the function is never called")
    for seq, ret in W:
        C.saw("calls followed")
        ok = len(seq) == 1 and indirect(seq[0])
        C.ob("calls", name, ok, core.where(seq[0]) if seq else core.where(F), "the function is called %d times" % sum(1 for i in seq if indirect(i)))
        if not ok:
            continue

        def elem(k):
            return lambda v: v.kind == "inst" and v.op == "load" and (lambda s: s[0] is vec and s[1] == 4 * k and not s[2])(flat(v.ops[0]))
        target(C, F, seq[0], None, [elem(k) for k in range(n)], None, core.where(seq[0]))
        if not void:
            st = [i for i in F.insts() if i.op == "store" and ana.strip(i.ops[1])[0] is F.args[0]]
            C.ob("result", name, len(st) == 1 and source(st[0].ops[0]) is seq[0], core.where(F), "what the function returns is not stored")


def flat(p):
    b, o, var = ana.strip(p)
    for v, k in list(var):
        if v.kind == "const":
            o += v.s * k
            var = [x for x in var if x[0] is not v]
    return b, o, var


def onbuffer(C, F, n, buf, fi, obj, void):
    """a call with arguments taken from a buffer"""
    name = F.dem.split("(")[0]
    W = ways(F) or []
    C.ob("calls", name, bool(W), core.where(F), "the function is never called")
    for seq, ret in W:
        C.saw("calls followed")
        take = [i for i in seq if (i.cname() or "").startswith("void w_take<")]
        call = [i for i in seq if indirect(i)]
        rest = [i for i in seq if i not in take and i not in call]
        C.ob("calls", name, len(call) == 1 and seq[-1] is call[0], core.where(F), "the function is not called once, after its arguments are taken")
        C.ob("taken", name, len(take) == n, core.where(F), "%d arguments are taken from the buffer for %d" % (len(take), n))
        locs = []
        for k, t in enumerate(take):
            C.ob("taken", name, ana.strip(t.ops[0])[0] is buf, core.where(t), "an argument is taken from elsewhere than the buffer")
            C.ob("taken", name, (t.cname() or "").startswith("void w_take<E%d>" % (k + 1)), core.where(t), "argument %d is not the one taken as number %d" % (k + 1, k + 1))
            locs.append(ana.strip(t.ops[1])[0])
        C.ob("taken", name, len({id(x) for x in locs}) == len(locs), core.where(F), "two arguments are taken into the same place")
        if len(call) == 1 and len(take) == n:
            target(C, F, call[0], None, [lambda v, l=l: copyof(F, v, l) if "_cr_" in name else v.kind == "inst" and v.op == "load" and ana.strip(v.ops[0])[0] is l for l in locs], obj, core.where(call[0]))
            result(C, F, ret, call[0], void)


def copyof(F, v, l):
    """v points to l, or to a copy of it"""
    for k in range(24):
        v = ana.strip(v)[0]
        if v is l:
            return True
        st = [i.ops[0] for i in F.insts() if i.op == "store" and ana.strip(i.ops[1])[0] is v] + [i.ops[1] for i in F.insts() if i.iscall and (i.cname() or "").startswith("llvm.memcpy") and ana.strip(i.ops[0])[0] is v]
        if len(st) != 1 or v.kind != "inst" or v.op != "alloca":
            return False
        v = source(st[0])
        if v.kind == "inst" and v.op == "load":
            v = v.ops[0]
    return False


def packed(C, F, n):
    name = F.dem.split("(")[0]
    W = ways(F) or []
    C.ob("packed", name, bool(W), core.where(F), "the arguments are not packed")
    for seq, ret in W:
        C.saw("calls followed")
        put = [i for i in seq if (i.cname() or "").startswith("void w_put<")]
        C.ob("packed", name, len(put) == n, core.where(F), "%d arguments are packed for %d" % (len(put), n))
        for k, t in enumerate(put):
            C.saw("arguments followed")
            C.ob("packed", name, ana.strip(t.ops[0])[0] is F.args[0] and k < n and (t.cname() or "").startswith("void w_put<E%d>" % (k + 1)) and source(t.ops[1]) is F.args[k + 1], core.where(t), "argument %d is not packed as number %d" % (k + 1, k + 1))


def analyse(C, M, n, traits):
    for i, (sig, t, w) in enumerate(traits):
        g = M.globals.get("w_trait_%d_%d" % (n, i))
        v = getattr(g.init, "s", None) if g is not None and g.init is not None else None
        C.saw("traits")
        C.ob("trait", "%s of %d arguments: %s" % (SIG[sig.rstrip("x")] + (" noexcept" if sig.endswith("x") else ""), n, t), v == w, "function.h or functiondb%d.h" % n, "the trait is %s instead of %s" % (v, w))
    for F in M.defs():
        m = re.match(r"w_([a-z]+)(_([a-z]+\d*))?_%d\(" % n, F.dem)
        if not m:
            continue
        kind, q = m.group(1), m.group(3) or ""
        void = "v" in q
        C.saw("wrappers", F.dem.split("(")[0])
        if kind in ("bound", "constbound"):
            bound(C, F, n, 0, void)
        elif kind == "rebound":
            bound(C, F, n, 1, void)
        elif kind == "refused":
            refused(C, F)
        elif kind == "apply":
            applied(C, F, n, 1 if "i" in q else 0, "j" in q)
        elif kind in ("call", "functor"):
            onbuffer(C, F, n, F.args[0], F.args[1], None, void)
        elif kind == "callbound":
            onbuffer(C, F, n, F.args[0], None, F.args[1], void)
        elif kind in ("pack", "packown"):
            packed(C, F, n)


SIG = {"bm": "bound method", "bc": "const bound method", "rf": "function type", "sf": "std::function", "fp": "function", "mp": "method", "cp": "const method", "sp": "static function member"}


def run():
    C = core.Check("C13", RULE, trusted=("the caller's function does what it does with its arguments", "argument vectors and buffers are the caller's"))
    trees = [Tree(need_cds=False)]
    R = Tree(need_cds=False, regen_functiondb=True)
    same = all(open(os.path.join(trees[0].src, f)).read() == open(os.path.join(R.src, f)).read() for f in os.listdir(R.src) if f.startswith("functiondb"))
    if not same:
        trees.append(R)
    groups = [[20], [19], [18], [17], [16, 15], [14, 13], [12, 11, 10], list(range(0, 10))]
    for T in trees:
        jobs, infos = [], []
        variants = [("c++98", ()), ("c++11", ()), ("c++17", ("USE_UNROLLED",)), ("c++17", ())]
        if C.thorough:
            variants += [("c++11", ("USE_UNROLLED",)), ("c++14", ()), ("c++20", ()), ("c++20", ("USE_UNROLLED",))]
        for std, defs in variants:
            unrolled = std == "c++98" or bool(defs)
            if T is R and not unrolled:
                continue
            for few in groups:
                p = os.path.join(T.out, "w_func_%s%s_%d.cc" % (std, "u" if unrolled else "", few[0]))
                with open(p, "w") as f:
                    f.write('#include "w_func.h"\n')
                    infos.append([])
                    for n in few:
                        text, traits = witness(n, std, unrolled)
                        f.write("\n".join(text) + "\n")
                        infos[-1].append((n, traits))
                jobs.append(((p,), dict(std=std, defs=("TR1", "HAVE_LONGLONG") + defs)))
        bcs = T.compile_many(jobs)
        for info, bc in zip(infos, bcs):
            M = ir.load(bc, T, inline=lambda d, f, m: True, roots=lambda d, f, m: d.split("(")[0].split(" ")[-1].startswith("w_"))
            for n, traits in info:
                analyse(C, M, n, traits)
    C.floor("wrappers", 21 * 15)
    C.floor("traits", 21 * 40)
    C.floor("arguments followed", 5000)
    C.floor("calls refused", 21 * 4)
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C13", RULE)
