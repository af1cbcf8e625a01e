#!/usr/bin/env python3
"""C06: swapping or moving a buffer exchanges all of its state."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree, AnalysisBroken
import core, ir, ana, buf, layout
from ana import strip, fname
from buf import sub, addl, show
from pathlin import Walk, canon

RULE = ("on every way through swap, move construction and move assignment that returns, each scalar of each buffer (from the compiler's record layout) ends up holding exactly the value the "
        "other's held on entry; swapping through the base class first establishes that the dynamic types agree; a moved-from buffer only holds values that were initialised; destructors release "
        "storage, file handle and encoder streams exactly once on every way that the constructors' states allow")
MPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"
BUFS = re.compile(r"^(?:virtual )?classdesc::(pack_t|xdr_pack|MPIbuf)::(~?\w+|operator=)\((.*)\)$")
VECSWAP = re.compile(r"^(?:void )?std::(?:vector|deque|list|map|set|shared_ptr|unique_ptr|basic_string|__cxx11::.*)<.*>::swap\(|^(?:void |.*type )?std::swap<.*\(")


def load(T, witness, std, defs, incs=()):
    bc = T.compile(witness, std=std, defs=defs, incs=incs, extra=("-flto", "-fwhole-program-vtables"))

    def inl(d, f, n):
        if f.startswith("/usr") and not d.startswith(("std::swap", "void std::swap", "std::enable_if", "std::exchange", "std::move")) or f == "":
            return "::swap<" not in d and bool(re.match(r"(.* )?std::(move|forward|exchange|swap|__exchange)<", d))
        if d.startswith("classdesc::realloc(") or re.search(r"(error|exception)::~?\w+(error|exception)\(", d):
            return False
        return True
    return ir.load(bc, T, inline=inl, roots=lambda d, f, n: bool(BUFS.match(d)) or d.startswith(("f_", "w_", "classdesc::realloc(")))


class Exchange:
    """what a function does to the scalars of the objects its arguments refer to"""

    def __init__(self, C, F, L):
        self.C, self.F, self.L = C, F, L
        self.ends = []
        Walk(F, self.on_inst, self.on_ret, self.on_cond, self.init)

    def init(self, st):
        st.tag["checked"] = frozenset()
        for o, n, w in self.L:
            for a in ("a0", "a1"):
                st.load({a: 1, "": o}, "i%d" % w)

    def cell(self, st, base, o, w):
        return st.load(addl(base, {"": o}), "i%d" % w)

    def moved(self, st, x, y, n, swap):
        """a standard container at x is exchanged with, or taken from, the one at y"""
        for o in range(0, n, 8):
            a, b = self.cell(st, x, o, 64), self.cell(st, y, o, 64)
            st.store(addl(x, {"": o}), b)
            st.store(addl(y, {"": o}), a if swap else ({"empty": 1}, {"empty": 1}))

    def size(self, i):
        n = i.cname() or ""
        return 24 if "vector<" in n else 16 if "shared_ptr<" in n else 8 if "unique_ptr<" in n else 32 if "basic_string<" in n or "std::string" in n else 48 if re.search(r"(map|set)<", n) else 24

    def on_cond(self, st, c, tr, r):
        if c.kind == "inst" and c.iscall and "type_info::operator" in (c.cname() or ""):
            eq = "operator==" in c.cname()
            st.tag["checked"] |= {"typeid" if eq == tr else "typediff"}
        elif c.kind == "inst" and c.iscall and "type_info::before" in (c.cname() or "") and not tr:
            st.tag["checked"] |= {"typeid"}
        if r and r[0] == "ne":
            for x, y in (r[1:], r[:0:-1]):
                if x.kind == "inst" and x.iscall and x.cname() == "__dynamic_cast" and (y.kind == "null" or y.kind == "const" and y.s == 0):
                    st.tag["checked"] |= {repr(x.ops[2])}
        return True

    def on_inst(self, st, i):
        if i.op != "store" and not i.iscall:
            return None
        n = i.cname() if i.iscall else ""
        if n == "__dynamic_cast":
            # single inheritance: a successful cast keeps the address
            st.val[id(i)] = st.both(i.ops[0])
            return True
        if VECSWAP.match(n):
            self.moved(st, st.mod(i.ops[0]), st.mod(i.ops[1]), self.size(i), True)
            return True
        m = re.match(r"^(?:virtual )?classdesc::(pack_t|xdr_pack|MPIbuf)::swap\(", n or "")
        if m and n.startswith("virtual "):
            # whatever override runs exchanges at least this class's state (decided separately)
            for o, nm, w in self.L:
                x, y = [addl(st.mod(v), {"": o}) for v in i.ops[:2]]
                a, b = st.load(x, "i%d" % w), st.load(y, "i%d" % w)
                st.store(x, b)
                st.store(y, a)
            return True
        m = re.match(r"^std::\w+<.*>::(vector|deque|list|map|set|shared_ptr|unique_ptr)\(\)$", n or "")
        if m:
            for o in range(0, self.size(i), 8):
                st.store(addl(st.mod(i.ops[0]), {"": o}), ({"empty": 1}, {"empty": 1}))
            return True
        m = re.match(r"^std::(?:vector|deque|list|map|set|shared_ptr|unique_ptr|basic_string)<.*>::(\w+|operator=)\((std::\w+<.*)&&\)$", n or "")
        if m:
            self.moved(st, st.mod(i.ops[0]), st.mod(i.ops[1]), self.size(i), False)
            return True
        return None

    def on_ret(self, st, t):
        self.ends.append((st, t))


class Chk:
    def __init__(self, C, M, std, lay, F):
        self.C, self.M, self.std, self.lay, self.fields = C, M, std, lay, F

    def run(self):
        seen = {}
        for F in self.M.defs():
            m = BUFS.match(F.dem)
            if not m:
                continue
            cls, name, args = m.groups()
            q = "%s::%s(%s)" % (cls, name, args)
            L = self.lay.get("classdesc::" + cls)
            if not L:
                raise AnalysisBroken("no layout for " + cls)
            if name == "swap":
                self.exchange(q, cls, F, L, False)
                seen.setdefault(cls, set()).add("swap")
            elif name == "operator=" and args.endswith("&&"):
                self.exchange(q, cls, F, L, False)
            elif name == cls and args.endswith("&&"):
                self.exchange(q, cls, F, L, True)
            elif name.startswith("~"):
                seen.setdefault(cls, set()).add("~")
                self.release(q, cls, F, L)
        for cls in ("pack_t", "xdr_pack", "MPIbuf"):
            if cls in seen:
                own = set(o for o, n, b in self.lay["classdesc::" + cls])
                base = {"xdr_pack": "pack_t", "MPIbuf": "pack_t"}.get(cls)
                grows = not base or own - set(o for o, n, b in self.lay["classdesc::" + base])
                self.C.ob("swap-defined", cls, "swap" in seen[cls] or not grows, cls, "has state of its own, but swapping it only exchanges that of its base class")

    def exchange(self, q, cls, F, L, ctor):
        C = self.C
        C.saw("operations", "%s [%s]" % (q, self.std))
        X = Exchange(C, F, L)
        if not X.ends:
            return C.bad("exchange-complete", q, core.where(F), "never returns")
        for st, t in X.ends:
            C.saw("ways to return")
            a0, a1 = {"a0": 1}, {"a1": 1}
            if not ctor and st.same(a0, a1):
                continue            # exchanging a buffer with itself
            for o, n, w in L:
                C.saw("scalars exchanged")
                i0, i1 = {"*(%s)" % pl("a0", o): 1}, {"*(%s)" % pl("a1", o): 1}
                f0, f1 = [st.load(addl(x, {"": o}), "i%d" % w)[0] for x in (a0, a1)]
                C.ob("exchange-complete", q, eq(st, f0, i1), core.where(F), "%s of this buffer doesn't become that of the other" % n)
                if ctor:
                    C.ob("moved-from-defined", q, canon(f1) != canon(i0), core.where(F), "%s of the buffer moved from is left with a value that was never set" % n)
                    C.ob("moved-from-released", q, w != 64 or canon(f1) != canon(i1) or eq(st, f1, {}), core.where(F), "%s is left behind in the buffer moved from" % n)
                else:
                    C.ob("exchange-complete", q, eq(st, f1, i0), core.where(F), "%s of the other buffer doesn't become that of this one" % n)
            if "pack_t&)" in q and q.split("::")[1].startswith("swap"):
                self.types(q, cls, F, st)

    def types(self, q, cls, F, st):
        """the way taken shows that the other buffer is of the same class"""
        ok = "typeid" in st.tag["checked"] or any(re.search(r"classdesc::%s$" % cls, x) for x in st.tag["checked"])
        self.C.ob("types-agree", q, ok, core.where(F), "buffers of different kinds may be exchanged")

    # ---- destruction
    def release(self, q, cls, F, L):
        C = self.C
        if not [i for i in F.insts() if i.iscall]:
            return
        if re.search(r"D0Ev$", F.name):
            return
        C.saw("destructors", "%s [%s]" % (q, self.std))
        states = self.ctor_states(cls)
        data = self.fields["data"]
        ptrs = {o: n for o, n, w in L if w == 64}
        owned = {o for o in ptrs if o in self.owns(cls)}
        base = {"xdr_pack": "pack_t", "MPIbuf": "pack_t"}.get(cls)
        C.saw("owned handles", "%s: %s" % (cls, ", ".join(ptrs[o] for o in sorted(owned))))
        rel = {}

        def on_inst(st, i):
            if not i.iscall:
                return None
            n = i.cname() or ""
            a = None
            if n in ("free", "fclose") or n.startswith(("operator delete", "_ZdlPv", "_ZdaPv")):
                a = st.mod(i.ops[0])
            elif re.match(r"(classdesc::)?realloc(\(|$)", n) and len(i.ops) == 2 and st.prove(sub({}, st.lin(i.ops[1]))):
                a = st.mod(i.ops[0])
            if a is not None:
                for o in owned:
                    if canon(a) == canon({"*(%s)" % pl("a0", o): 1}):
                        c = st.tag.get("rel%d" % o, 0) + 1
                        st.tag["rel%d" % o] = c
                        C.saw("releases", "%s: %s" % (cls, ptrs[o]))
                        if c > 1:
                            rel[("twice", o)] = i
                # keep other fields
                if n.startswith(("free", "fclose", "operator delete")) or "realloc" in n:
                    nm = "i%d.%d" % (i.bb.idx, i.idx)
                    if i.ty != "void":
                        st.val[id(i)] = ({nm: 1}, {nm: 1})
                    return True
            if n.startswith(("xdr_", "MPI_")):
                # only what it is given the address of can change
                nm = "i%d.%d" % (i.bb.idx, i.idx)
                for o in i.ops:
                    if o.kind in ("inst", "arg") and "a0" in st.mod(o):
                        st.store(st.mod(o), ({nm + canon_text(st.mod(o)): 1},) * 2)
                if i.ty != "void":
                    st.val[id(i)] = ({nm: 1}, {nm: 1})
                return True
            if n.startswith("classdesc::") and "~" in n:
                st.tag["base"] = True
            return None

        def on_cond(st, c, tr, r):
            if r and r[0] == "ne" and r[2].kind == "const":
                st.tag["ne"] = st.tag.get("ne", frozenset()) | {(canon(st.mod(r[1])), r[2].s)}
            return True

        def on_ret(st, t):
            for o in owned:
                if st.tag.get("rel%d" % o):
                    continue
                p = {"*(%s)" % pl("a0", o): 1}
                if st.prove(sub({}, p)) or st.tag.get("base") and o in self.owns(base or ""):
                    continue
                # impossible in any state the constructors leave: some field known on this way
                feas = [s for s in states if self.possible(st, s, o)]
                if feas or not states:
                    rel[("never", o)] = t
        Walk(F, on_inst, on_ret, on_cond)
        for o in owned:
            C.ob("released-once", q, ("twice", o) not in rel, core.where(rel.get(("twice", o), F)), "%s is released twice" % ptrs[o])
            C.ob("released", q, ("never", o) not in rel, core.where(rel.get(("never", o), F)), "%s isn't released on some way" % ptrs[o])

    def possible(self, st, s, o):
        """can the state s (field -> constant or 'set') a constructor leaves hold on this way, with the handle at o set?"""
        if s.get(o, "set") == 0:
            return False
        for k, v in s.items():
            if v == "set" or v is None or k == o:
                continue
            a = {"*(%s)" % pl("a0", k): 1}
            if (canon(a), v) in st.tag.get("ne", ()):
                return False
            # the way's facts exclude the value
            if v == 0 and st.prove(addl(a, {"": -1})):
                return False
            if v and (st.prove(addl(sub({"": v}, a), {"": -1})) or st.prove(addl(a, {"": -v - 1}))):
                return False
        return True

    def owns(self, cls):
        """offsets of handles this class's constructors or methods obtain: results of new, malloc, fopen stored in a field"""
        if not hasattr(self, "_owns"):
            self._owns = {}
        if cls not in self._owns:
            r = set()
            for F in self.M.defs():
                m = BUFS.match(F.dem)
                if not m or m.group(1) != cls or not F.args:
                    continue
                for i in F.insts():
                    if i.op == "store" and i.ops[0].kind == "inst":
                        b, o, var = strip(i.ops[1])
                        if b is F.args[0] and not var and self.alloc(i.ops[0]):
                            r.add(o)
            self._owns[cls] = r
        return self._owns[cls]

    @staticmethod
    def alloc(v, d=4):
        if v.kind != "inst" or not d:
            return False
        if v.iscall:
            return bool(re.match(r"(operator new|_Zn[aw]m|malloc$|fopen|fdopen|(classdesc::)?realloc(\(|$))", v.cname() or ""))
        if v.op == "phi":
            return any(Chk.alloc(x, d - 1) for x, b in v.inc)
        if v.op == "select":
            return any(Chk.alloc(x, d - 1) for x in v.ops[1:])
        return False

    def ctor_states(self, cls):
        """field values the constructors can leave: for each way one of them returns"""
        if not hasattr(self, "_states"):
            self._states = {}
        if cls in self._states:
            return self._states[cls]
        out = []
        L = self.lay["classdesc::" + cls]
        for F in self.M.defs():
            m = BUFS.match(F.dem)
            if not m or m.group(1) != cls or m.group(2) != cls or "&" in m.group(3):
                continue

            def keep(st, i):
                # encoders and the like don't change the buffer's own fields
                if i.iscall and re.match(r"(xdr\w+_create|fopen|operator new|strerror|classdesc::realloc|realloc$|std::vector)", i.cname() or ""):
                    nm = "i%d.%d" % (i.bb.idx, i.idx)
                    if i.ty != "void":
                        st.val[id(i)] = ({nm: 1}, {nm: 1})
                    return True
                return None

            def end(st, t):
                s = {}
                for o, n, w in L:
                    v = st.load({"a0": 1, "": o}, "i%d" % w)[1]
                    ks = [k for k in v if k and v[k]]
                    s[o] = v.get("", 0) if not ks else "set"
                out.append(s)
            Walk(F, keep, end)
        self._states[cls] = out
        return out


def canon_text(m):
    return "@" + show(m)


def pl(a, o):
    return a + ("+%d" % o if o else "")


def eq(st, a, b):
    return canon(a) == canon(b) or st.same(a, b)


def run():
    C = core.Check("C06", RULE, trusted=("swap and move of standard containers", "single inheritance: a successful downcast keeps the address"))
    T = Tree()
    for std in ("c++98", "c++11", "c++17") + (("c++14", "c++20") if C.thorough else ()):
        for w, defs, incs in (("w_buf.cc", ("TR1", "HAVE_LONGLONG"), ()), ("w_buf.cc", ("TR1", "HAVE_LONGLONG", "XDR_PACK"), ()),
                              ("w_mpi.cc", ("TR1", "HAVE_LONGLONG"), (MPI,)), ("w_mpi.cc", ("TR1", "HAVE_LONGLONG", "XDR_PACK", "HETERO"), (MPI,))):
            if w == "w_mpi.cc" and (not os.path.exists(MPI + "/mpi.h") or std == "c++98"):
                continue
            M = load(T, w, std, defs, incs)
            Chk(C, M, std, layout.layouts(T, w, std, defs, incs), buf.fields(M)).run()
    C.floor("operations", 6)
    C.floor("destructors", 2)
    C.floor("scalars exchanged", 60)
    C.floor("owned handles", 2)
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C06", RULE)
