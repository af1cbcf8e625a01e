#!/usr/bin/env python3
"""C03: unpacking never reads outside the buffer's data or writes outside its target."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree, AnalysisBroken
import core, ir, ana, buf, wire
from ana import strip, fname, succs
from buf import Lin, sub, addl, show
from pathlin import Walk, canon

RULE = ("bounds facts from dominating guards, in linear forms proven free of wrap-around, must imply every copy out of the buffer stays inside its data; "
        "extents of raw reads against their destinations; values read used as positions must be range checked; no iterator survives a change of its container")
COPY = re.compile(r"^(llvm\.mem(cpy|move)|memcpy|memmove)")
SIZES = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "wchar_t": 4,
         "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "float": 4, "double": 8}
MUTATE = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "clear", "resize", "erase", "pop_back", "pop_front", "assign",
          "operator=", "swap", "reserve", "append", "operator+="}


def buffer_methods(C, T, std, xdr):
    """copies out of the buffer end inside its data, and the recorded size never exceeds the storage"""
    M = buf.load(T, std, xdr)
    fl = buf.fields(M)
    for cls, name, F in buf.methods(M):
        if F.decl or not F.args:
            continue
        q = "%s::%s" % (cls, name)
        C.saw("buffer methods", q)
        two = len(F.args) > 1 and re.search(r"\((classdesc::)?(pack_t|xdr_pack)( const)?&&?\)", F.dem)
        res = {}

        def fld(st, f):
            return st.load({"a0": 1, "": fl[f]}, "i64")

        def init(st):
            st.tag.update(file=False, cap=None, size0=fld(st, "size"))

        def note(rule, i, ok, why):
            k = (rule, id(i))
            if k not in res or not ok:
                res[k] = (rule, i, ok, why)

        def on_cond(st, c, tr, r):
            if r and buf.file_mode_of(r, F.args[0]):
                st.tag["file"] = True
            return True

        def on_inst(st, i):
            if buf.delegated(i, F.args[0]):
                # another operation, which keeps the size within the storage itself
                st.forget("a0", "d%d.%d" % (i.bb.idx, i.idx))
                st.tag.update(cap=None, size0=fld(st, "size"))
                if i.ty != "void":
                    st.val[id(i)] = ({"i%d.%d" % (i.bb.idx, i.idx): 1},) * 2
                return True
            reads = []
            n = i.cname() or "" if i.iscall else ""
            if COPY.match(n):
                reads.append((i.ops[1], st.lin(i.ops[2])))
            elif fname(n) in ("copy", "uninitialized_copy") and len(i.ops) == 3:
                reads.append((i.ops[0], sub(st.mod(i.ops[1]), st.mod(i.ops[0]))))
            elif fname(n) in ("copy_n", "uninitialized_copy_n") and len(i.ops) == 3:
                reads.append((i.ops[0], st.lin(i.ops[1])))
            elif fname(n) in ("memcmp", "bcopy"):
                reads += [(i.ops[0], st.lin(i.ops[2]))] + ([(i.ops[1], st.lin(i.ops[2]))] if fname(n) == "memcmp" else [])
            elif i.op == "load":
                reads.append((i.ops[0], {"": 1}))
            for p, amt in reads:
                at = st.mod(p)
                for obj in ("a0", "a1") if two else ("a0",):
                    d = st.load({obj: 1, "": fl["data"]}, "ptr")[0]
                    k = [x for x in d if x]
                    if len(k) != 1 or at.get(k[0], 0) != 1 or k[0] == obj:
                        continue
                    off = sub(at, d)
                    size = st.load({obj: 1, "": fl["size"]}, "i64")[1]
                    C.saw("copies out of the buffer", core.where(i))
                    # each part of the offset is itself a size or position: the sum is exact only if the guards say so
                    goal = sub(size, addl(off, amt))
                    ok = all(c > 0 for x, c in off.items() if c) and st.prove(goal) or st.prove(sub({}, amt))
                    note("copy-inside-data", i, ok, "cannot show offset+length <= size; need %s >= 0 from %s" % (
                        show(goal), "; ".join(show(f) + " >= 0" for f in st.facts) or "no guard"))
            if buf.ALLOC.match(n) and (len(i.ops) == 1 or i.ops[0].kind == "null" or canon(st.mod(i.ops[0])) == canon(fld(st, "data")[0])):
                st.tag["cap"], st.tag["capm"] = st.lin(i.ops[-1]), st.mod(i.ops[-1])
                st.tag["got"] = {"i%d.%d" % (i.bb.idx, i.idx): 1}
            if n == "__cxa_throw" and name == cls:
                return False        # no object remains
            if n == "__cxa_throw":
                # what was there before a failed allocation is still all there is
                if st.tag["cap"] is not None and st.prove(sub({}, st.tag["got"])):
                    st.tag["cap"] = st.tag["capm"] = None
                on_ret(st, i)
                return False

        def on_ret(st, t):
            if cls != "pack_t" or two or name.startswith("~") or st.tag["file"]:
                return
            s1, s0 = fld(st, "size"), st.tag["size0"]
            if canon(s1[1]) == canon(s0[1]):
                return
            C.saw("size updates", q)
            lim = st.tag["cap"] if st.tag["cap"] is not None else s0[1]
            ok = st.prove(sub(lim, s1[1])) or st.tag["cap"] is None and not [k for k in s1[1] if k] and s1[1].get("", 0) == 0
            if st.tag["cap"] is not None and not ok:
                # what was asked for, whatever the sum
                ok = st.same(st.tag["capm"], s1[0])
            note("size-within-storage", t, ok, "the size becomes %s, which isn't shown to be within the storage of %s (known: %s)" % (
                show(s1[1]), show(lim), "; ".join(show(f) + ">=0" for f in st.facts) or "nothing"))
        Walk(F, on_inst, on_ret, on_cond, init)
        for rule, i, ok, why in res.values():
            C.ob(rule, q, ok, core.where(i), why)
    return M, fl


# ------------------------------------------------------------------ destinations

def elem_size(cname):
    m = re.match(r"(?:virtual )?(?:.*? )?std::(?:vector|basic_string|deque|array)<([\w ]+?)(?:,|>)", cname or "")
    if m:
        return SIZES.get(m.group(1).strip())
    if "std::string::" in (cname or ""):
        return 1
    return None


def container_count(F, call, X):
    """linear value (inst) giving the number of elements of local/argument container X before `call`"""
    best = None
    for i in F.insts():
        if not i.iscall or i is call or not i.ops:
            continue
        b, o, v = strip(i.ops[0])
        if (b, o) != X or v:
            continue
        n = fname(i.cname())
        if n in ("vector", "basic_string") and len(i.ops) > 1 and i.ops[1].ty_is_int() if hasattr(i.ops[1] if len(i.ops) > 1 else None, "ty_is_int") else n in ("vector", "resize") and len(i.ops) > 1:
            if F.inst_dom(i, call):
                best = i
    return best


def extent_check(C, name, F, i, dst, n, what):
    """n bytes are written at dst"""
    b, o, var = strip(dst)
    # a size that doesn't come from the buffer is the size of an existing object: sums of it don't wrap
    taint = tainted(F)
    L = Lin(F, i.bb, trust_add=not isinstance(n, int) and n.kind != "const" and id(n) not in taint)
    nl = L.lin(n) if not isinstance(n, int) else {"": n}
    if b.kind == "inst" and b.op == "alloca":
        if var:
            return C.bad("target-extent", name, core.where(i), "variable offset into a local object")
        cap = {"": b.asz - o}
    elif b.kind == "arg" and b.deref and var and "is_array" in F.dem:
        # an array whose extents the descriptor passes: its elements, under a loop bound
        idx = L.lin(var[0][0])
        ok = len(var) == 1 and o + nl.get("", 0) <= var[0][1] and not [k for k in nl if k] and any(
            f.get("", 0) <= -1 and all(f.get(k, 0) == -c for k, c in idx.items() if k) and [k for k in f if k and k not in idx] for f in L.facts)
        C.saw("scalar reads", name)
        return C.ob("target-extent", name, ok, core.where(i), "an array element is written without its index being below the number of elements")
    elif b.kind == "arg" and b.deref:
        if var:
            cap = {"": b.deref - o}
            for v, sc in var:
                cap = sub(cap, {k: c * sc for k, c in L.lin(v).items()})
        else:
            cap = {"": b.deref - o}
    elif b.kind == "inst" and b.iscall and fname(b.cname()) in ("data", "operator[]", "c_str", "front", "begin"):
        k = elem_size(b.cname())
        X = strip(b.ops[0])[:2]
        if k is None:
            C.saw("destinations trusted to their accessor", "%s: %s" % (name, fname(b.cname())))
            return True
        if fname(b.cname()) == "operator[]" and what == "scalar":
            # one element; its index is checked as a position
            return C.ob("target-extent", name, nl.get("", 0) <= k and not [x for x in nl if x], core.where(i), "%s bytes written to an element of %d" % (show(nl), k))
        cnt = container_count(F, i, X)
        if fname(b.cname()) == "operator[]":
            o += 0
        if cnt is not None:
            cap = {x: c * k for x, c in L.lin(cnt.ops[1]).items()}
            cap[""] = cap.get("", 0) - o
            # n may be written as size()*k of the same container
            sz = [x for x in nl if re.search(r"::size\(", x)]
            if sz and len([x for x in nl if x]) == 1 and nl[sz[0]] <= k and nl.get("", 0) <= 0:
                C.saw("raw reads", "%s: n=size()*%d" % (name, nl[sz[0]]))
                return C.ob("target-extent", name, True, core.where(i))
        else:
            sz = [x for x in nl if re.search(r"::(size|length)\(", x)]
            ok = len(sz) == 1 and len([x for x in nl if x]) == 1 and nl[sz[0]] <= k
            return C.ob("target-extent", name, ok, core.where(i), "the container was not sized for %s bytes" % show(nl))
    elif b.kind == "inst" and b.iscall and fname(b.cname()) in ("operator new", "operator new[]") or b.kind == "inst" and b.iscall and (b.cname() or "").startswith("operator new"):
        cap = L.lin(b.ops[0])
        cap[""] = cap.get("", 0) - o
    else:
        C.saw("destinations trusted to their accessor", "%s: %s" % (name, repr(b) if not b.kind == "inst" or not b.iscall else fname(b.cname())))
        return True
    C.saw("raw reads" if what == "raw" else "scalar reads", name)
    goal = sub(cap, nl)
    return C.ob("target-extent", name, L.prove(goal), core.where(i),
                "%s bytes may be written where %s fit; known: %s" % (show(nl), show(cap), "; ".join(show(f) + ">=0" for f in L.facts) or "nothing"))


# ------------------------------------------------------------------ values used as positions

def tainted(F):
    """values that come from the buffer: loads of locals filled by popoff/unpackraw, and what is computed from them"""
    loc = set()
    for i in F.insts():
        op = wire.bufop(i)
        if op == "popoff":
            v, sz, fk = wire.scalar(i)
        elif op == "unpackraw":
            v = i.ops[1]
        else:
            continue
        if v is None:
            continue
        b, o, var = strip(v)
        if b.kind == "inst" and b.op == "alloca":
            loc.add((b, o))
    T = set()
    ch = True
    while ch:
        ch = False
        for i in F.insts():
            if id(i) in T or i.op == "store":
                if i.op == "store" and id(i.ops[0]) in T:
                    b, o, var = strip(i.ops[1])
                    if b.kind == "inst" and b.op == "alloca" and (b, o) not in loc:
                        loc.add((b, o))
                        ch = True
                continue
            t = False
            if i.op == "load":
                b, o, var = strip(i.ops[0])
                t = (b, o) in loc
            elif i.op in ("add", "sub", "mul", "shl", "zext", "sext", "trunc", "select", "and", "or", "freeze", "urem"):
                t = any(id(x) in T for x in i.ops)
            if t:
                T.add(id(i))
                ch = True
    return T


def positions(C, name, F):
    T = tainted(F)
    if not T:
        return
    for i in F.insts():
        idx = None
        if i.iscall and fname(i.cname()) in ("advance", "__advance", "next", "prev") and len(i.ops) > 1 and any(id(x) in T for x in i.ops):
            idx, incl, kind = next(x for x in i.ops if id(x) in T), True, "advance"
        elif i.iscall and fname(i.cname()) in ("operator+", "operator+=", "operator-", "operator-=") and "iterator" in (i.cname() or "") and len(i.ops) > 1 and any(id(x) in T for x in i.ops):
            idx = next(x for x in i.ops if id(x) in T)
            incl, kind = True, "iterator offset"
        elif i.iscall and fname(i.cname()) == "operator[]" and re.search(r"std::(vector|deque|array|string|basic_string)", (i.cname() or "").split("::operator")[0]) and len(i.ops) > 1 and id(i.ops[1]) in T:
            idx, incl, kind = i.ops[1], False, "element index"
        elif i.op == "gep" and any(id(v) in T for v, sc in i.var):
            if not any(u.op in ("load", "store") or u.iscall for u in ana.derived(i)):
                continue
            idx, incl, kind = [v for v, sc in i.var if id(v) in T][0], False, "array index"
        if idx is None:
            continue
        C.saw("positions read from the buffer", "%s: %s" % (name, kind))
        L = Lin(F, i.bb)
        l = L.lin(idx)
        ok = False
        for f in L.facts:
            # bound - idx (-1) >= 0 with the bound a container size or a constant
            if all(f.get(k, 0) == -c for k, c in l.items() if k):
                rest = [k for k in f if k and k not in l]
                slack = f.get("", 0) + l.get("", 0)
                if rest and all(re.search(r"::(size|length|distance)\(", k) for k in rest) and slack <= (0 if incl else -1):
                    ok = True
                if not rest:
                    ok = ok or kind == "array index"
        ok = ok or signed_range(F, i, idx, incl)
        C.ob("position-checked", name, ok, core.where(i), "a position read from the buffer is used without checking it lies inside the container")


def elements(C, name, F):
    """an element of a fixed size array is only named below its size, whatever its index depends on"""
    T = tainted(F)
    for i in F.insts():
        if not (i.iscall and fname(i.cname()) == "operator[]" and len(i.ops) > 1):
            continue
        m = re.match(r"(?:virtual )?(?:.*? )?std::array<.*, (\d+)ul?>::operator\[\]", i.cname())
        if not m:
            if re.search(r"std::(vector|deque|basic_string|string)\b", i.cname().split("::operator")[0]):
                C.saw("elements of variable size containers", name)
                if id(i.ops[1]) in T:
                    continue        # checked as a position
                L = Lin(F, i.bb, trust_add=True)
                l = L.lin(i.ops[1])
                cnt = container_count(F, i, strip(i.ops[0])[:2])
                bounds = [L.lin(cnt.ops[1])] if cnt is not None else []
                bounds += [{k: 1} for f in L.facts for k in f if f[k] > 0 and re.search(r"::(size|length)\(", k)]
                ok = any(L.prove(addl(sub(b, l), {"": -1})) for b in bounds)
                C.ob("element-inside-container", name, ok, core.where(i), "element %s is accessed without its index being below the number of elements" % show(l))
            continue
        C.saw("elements of fixed size arrays", name)
        L = Lin(F, i.bb)
        l = L.lin(i.ops[1])
        ok = L.prove(sub({"": int(m.group(1)) - 1}, l))
        C.ob("element-inside-array", name, ok, core.where(i), "element %s of an array of %s is accessed" % (show(l), m.group(1)))


def from_size(v, d=4):
    if v.kind != "inst" or not d:
        return False
    if v.iscall:
        return fname(v.cname()) in ("size", "length", "distance")
    return v.op in ("trunc", "zext", "freeze", "sext") and from_size(v.ops[0], d - 1)


def signed_range(F, i, idx, incl):
    """0 <= idx < size, compared as signed numbers"""
    while idx.kind == "inst" and idx.op in ("sext", "zext", "freeze"):
        idx = idx.ops[0]
    def split(v):
        if v.kind == "inst" and v.op in ("add", "sub") and v.ops[1].kind == "const":
            return ana.expr(v.ops[0]), v.ops[1].s * (1 if v.op == "add" else -1)
        return ana.expr(v), 0
    k, off = split(idx)
    low = high = False
    for c, tr, t in ana.guards(F, i.bb):
        r = ana.cmp_of(c, tr)
        if not r:
            continue
        for p, a, b in (r, (ir.SWAP[r[0]], r[2], r[1])):
            ka, oa = split(a)
            if ka != k:
                continue
            d = off - oa          # idx = a + d
            if b.kind == "const" and (p == "sge" and b.s + d >= 0 or p == "sgt" and b.s + 1 + d >= 0):
                low = True
            if from_size(b) and (p in ("slt", "ult") and d - 1 <= (0 if incl else -1) or p in ("sle", "ule") and d <= (0 if incl else -1)):
                high = True
    return low and high


# ------------------------------------------------------------------ null pointers

SMART = re.compile(r"(shared_ptr|unique_ptr|auto_ptr)(_access)?<.*::(operator\*|operator->)\(")


def not_null(C, name, F):
    """a smart pointer is dereferenced only where it was found non-null, or was given an object"""
    for i in F.insts():
        if not (i.iscall and SMART.search(i.dem_name() if hasattr(i, "dem_name") else i.cname() or "")):
            continue
        X = strip(i.ops[0])[:2]
        xe = ana.expr(i.ops[0])
        C.saw("smart pointer dereferences", name)
        ok = False
        for c, tr, t in ana.guards(F, i.bb):
            call = c
            if c.kind == "inst" and c.op == "icmp":
                call = c.ops[0]
                if not (c.pred == "ne" and tr is True or c.pred == "eq" and tr is False):
                    continue
            elif tr is not True:
                continue
            if call.kind == "inst" and call.op in ("trunc", "and", "zext"):
                call = call.ops[0]
            if call.kind == "inst" and call.iscall and re.search(r"_ptr<|__shared_ptr", call.cname() or "") and call.ops and (
                    strip(call.ops[0])[:2] == X or ana.expr(call.ops[0]) == xe):
                ok = True
        for j in F.insts():
            if j.iscall and len(j.ops) > 1 and strip(j.ops[0])[:2] == X and F.inst_dom(j, i):
                n = fname(j.cname())
                if n in ("reset",) or n.endswith("_ptr") and not n.startswith("~"):
                    ok = ok or j.ops[1].kind != "null"
                elif n == "operator=" and not any(u.iscall and "_cast" in (u.cname() or "") and u.ops and strip(u.ops[0])[:2] == strip(j.ops[1])[:2] for u in F.insts()):
                    ok = True
        C.ob("null-checked", name, ok, core.where(i), "a pointer that may be null, since the data can say so, is dereferenced")


# ------------------------------------------------------------------ iterators

def iterators(C, name, F):
    """an iterator obtained from X is not used after X was changed, unless obtained anew"""
    its = {}
    for i in F.insts():
        if i.iscall and fname(i.cname()) in ("begin", "end", "insert", "erase", "find", "rbegin", "lower_bound", "upper_bound"):
            X = None
            for a in i.ops[:2]:
                b, o, v = strip(a)
                if b.kind == "arg" or b.kind == "inst" and b.op == "alloca":
                    t = (b, o)
                    if fname(i.cname()) in ("begin", "end", "rbegin") or a is i.ops[0]:
                        X = t
                        break
            if X is None:
                continue
            if i.ty != "void" and i.ty != "i1":
                for u in i.users:
                    if u.op == "store" and u.ops[0] is i:
                        s = strip(u.ops[1])
                        if s[0].kind == "inst" and s[0].op == "alloca":
                            its.setdefault((s[0], s[1]), []).append((u, X))
            elif i.ops and strip(i.ops[0])[0].kind == "inst" and strip(i.ops[0])[0].op == "alloca" and len(i.ops) > 1:
                # returned through a hidden pointer
                b, o, v = strip(i.ops[0])
                b2, o2, v2 = strip(i.ops[1])
                if b is not b2:
                    its.setdefault((b, o), []).append((i, (b2, o2)))
    for (slot, off), defs in its.items():
        Xs = {x for _, x in defs}
        uses = []
        for u in ana.derived(slot):
            if u.iscall and any(strip(a)[0] is slot for a in u.ops) and not any(u is d for d, _ in defs):
                if fname(u.cname()).startswith("~"):
                    continue
                uses.append(u)
            elif u.op == "load" and strip(u.ops[0])[0] is slot:
                uses.append(u)
        if not uses:
            continue
        C.saw("iterators", "%s" % name)
        muts = [m for m in F.insts() if m.iscall and (fname(m.cname()) in MUTATE or wraps_mutation(m)) and any(strip(a)[:2] in Xs for a in m.ops)
                and not re.search(r"(list|set|map)<", (m.cname() or "").split("(")[0]) and not any(m is d for d, _ in defs)]
        bad = None
        for m in muts:
            # from m, is a use reachable without passing a redefinition
            seen, st = set(), [(m.bb, m.idx + 1)]
            while st and bad is None:
                b, k = st.pop()
                stop = False
                for x in b.insts[k:]:
                    if any(x is d for d, _ in defs):
                        stop = True
                        break
                    if x in uses:
                        bad = (m, x)
                        break
                if bad or stop:
                    continue
                for s in succs(b):
                    if s not in seen:
                        seen.add(s)
                        st.append((s, 0))
            if bad:
                break
        C.ob("iterator-valid", name, bad is None, core.where(bad[1]) if bad else "",
             "an iterator is used after its container was changed by %s" % (fname(bad[0].cname()) if bad else ""))


def wraps_mutation(m):
    return fname(m.cname()) == "push_back"


def run():
    C = core.Check("C03", RULE, trusted=("libtirpc's memory streams never access outside the extent given to xdrmem_create",
                                         "sums of sizes of existing objects do not wrap", "standard containers"))
    T = Tree()
    T.descriptor("wtypes.h", "wtypes-pack.cd", ("-nodef -onbase", "pack unpack"))
    T.descriptor("wtypes.h", "wtypes-xml.cd", ("-nodef -typeName -onbase -respect_private", "xml_pack xml_unpack xsd_generate"))
    for std, x in (("c++98", True), ("c++11", True), ("c++11", False)):
        M, fl = buffer_methods(C, T, std, x)
        names = {(c, m) for c, m, F in buf.methods(M)}
        if x:
            xdr_reads(C, M, fl)
    stds = ("c++98", "c++11", "c++17") + (("c++20",) if C.thorough else ())
    jobs = [(w, s) for w in ("w_pack.cc", "w_xml.cc") for s in stds]
    bcs = T.compile_many([((w,), dict(std=s, defs=("TR1", "HAVE_LONGLONG", "XDR_PACK"), extra=("-flto", "-fwhole-program-vtables"))) for w, s in jobs])
    for (w, s), bc in zip(jobs, bcs):
        M = ir.load(bc, T, inline=lambda d, f, n: (not f.startswith("/usr")) and f != "", roots=lambda d, f, n: d.startswith("w_"))
        kind = "pack" if "pack" in w else "xml"
        for F in M.defs():
            n = F.dem.split("(")[0]
            if kind == "xml":
                if n.startswith("w_u_"):
                    iterators(C, "xml " + n[4:], F)
                continue
            if not (n.startswith(("w_u_", "w_c_")) or re.search(r"classdesc::unpack", n)):
                continue
            t = n[4:] if n.startswith("w_") else re.sub(r"\(.*", "", F.dem)
            if n.startswith("w_c_"):
                t += " const"
            C.saw("functions", "%s (%s)" % (t, s))
            for i in F.insts():
                op = wire.bufop(i)
                if op == "popoff":
                    v, sz, fk = wire.scalar(i)
                    if v is not None and sz is not None:
                        extent_check(C, t, F, i, v, sz, "scalar")
                    else:
                        C.bad("target-extent", t, core.where(i), "cannot determine where a scalar is stored")
                elif op == "unpackraw":
                    if "is_array" in F.dem and strip(i.ops[1])[0].kind == "arg":
                        C.saw("destinations trusted to their accessor", "array extent passed by the descriptor")
                        continue
                    extent_check(C, t, F, i, i.ops[1], i.ops[2], "raw")
            positions(C, t, F)
            elements(C, t, F)
            not_null(C, t, F)
            iterators(C, "pack " + t, F)
    C.floor("copies out of the buffer", 6)
    C.floor("functions", 120)
    C.floor("raw reads", 10)
    C.floor("scalar reads", 150)
    C.floor("positions read from the buffer", 1)
    C.floor("buffer methods", 40)
    C.floor("size updates", 5)
    C.floor("smart pointer dereferences", 10)
    return C.finish()


def xdr_reads(C, M, fl):
    """after decoding, a read position beyond the encoded data raises an error (memory buffers)"""
    for cls, name, F in buf.methods(M, ("popoff", "unpackraw")):
        if cls != "xdr_pack":
            continue
        this = F.args[0]

        def pos_store(i):
            if i.op == "store":
                b, o, v = strip(i.ops[1])
                return b is this and o == fl["pos"]
            return False

        def field(v, off, d=4):
            if v.kind != "inst" or not d:
                return False
            if v.op in ("zext", "freeze"):
                return field(v.ops[0], off, d - 1)
            if v.op == "load":
                b, o, var = strip(v.ops[0])
                return b is this and o == off
            return False
        posv = {id(strip_ext(i.ops[0])) for i in F.insts() if pos_store(i)}

        def step(i, st):
            if pos_store(i):
                return (True, st[1], False)      # read position moved, not yet compared
            return st

        def refine(c, tr, st):
            r = ana.cmp_of(c, tr)
            if not r:
                return st
            p, a, b = r
            if p in ("ugt", "uge"):
                p, a, b = ir.SWAP[p], b, a
            ispos = field(a, fl["pos"]) or id(strip_ext(a)) in posv
            issize = field(b, fl["size"])
            if ispos and issize and p in ("ule", "ult"):
                return (st[0], st[1], True)
            # mode tests: an integer field of the buffer compared with the memory-buffer mode
            if b.kind == "const" and a.kind == "inst" and a.op == "load" and a.ty == "i32":
                bb, o, v = strip(a.ops[0])
                if bb is this and (p == "ne" and b.s == 0 or p == "eq" and b.s != 0):
                    return (st[0], True, st[2])
            return st
        out = ana.explore(F, (False, False, False), step, refine)
        if out is None:
            raise AnalysisBroken("too many paths in " + F.dem)
        bad = [i for i, st in out if i.op == "ret" and not st[1] and not (st[0] and st[2])]
        C.saw("decoding methods", "%s::%s" % (cls, name))
        C.ob("decoded-inside-data", "%s::%s" % (cls, name), not bad, core.where(bad[0]) if bad else "",
             "a path returns normally without having compared the read position with the size of the data")


def strip_ext(v):
    while v.kind == "inst" and v.op in ("zext", "sext", "freeze", "trunc"):
        v = v.ops[0]
    return v


if __name__ == "__main__":
    core.main(run, "C03", RULE)
