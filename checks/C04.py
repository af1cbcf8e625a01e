#!/usr/bin/env python3
"""C04: buffer positions and storage failures are reported faithfully."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree, AnalysisBroken
import core, ir, ana, buf
from ana import strip, fname
from buf import sub, addl, show
from pathlin import Walk, canon

RULE = ("on every way through every buffer method: size and position advance by exactly what was moved, from and to the recorded place; writes and XDR streams stay "
        "inside the storage obtained; the result of every allocation, file and encoding operation is tested before the method returns normally")
COPY = re.compile(r"^(llvm\.mem(cpy|move)|memcpy$|memmove$|bcopy$)")
U32 = (1 << 32) - 1
ENC, DEC = 0, 1


class Methods:
    def __init__(self, C, M, fl, tagname):
        self.C, self.M, self.fl, self.t = C, M, fl, tagname
        self.seen = set()
        self.xf = None
        for F in M.defs():
            m = re.match(r"f_(xsize|xval)\(", F.dem)
            if m:
                for b in F.blocks:
                    if b.term.op == "ret":
                        fl[m.group(1)] = strip(b.term.ops[0].ops[0])[1]
        self.streams()
        self.segment_fields()

    def ob(self, rule, n, ok, w, why=""):
        k = (rule, n, bool(ok), core.where(w) if w is not None else "")
        if k in self.seen:
            return ok
        self.seen.add(k)
        return self.C.ob(rule, n, ok, k[3], why)

    # -------- XDR layout, found from the constructor
    def streams(self):
        self.inp = self.out = None
        for cls, name, F in buf.methods(self.M):
            if F.decl or cls != "xdr_pack" or name != "xdr_pack" or not F.args:
                continue
            for i in F.insts():
                if i.iscall and i.cname() in ("xdrmem_create", "xdrstdio_create") and i.ops[-1].kind == "const":
                    for u in F.insts():
                        if u.op == "store" and strip(u.ops[1])[0] is F.args[0] and (u.ops[0] is strip(i.ops[0])[0] or u.ops[0] is i.ops[0]):
                            if i.ops[-1].s == ENC:
                                self.inp = strip(u.ops[1])[1]
                            else:
                                self.out = strip(u.ops[1])[1]

    def segment_fields(self):
        """integer fields of xdr_pack beyond those of its base: base offset and length of the segment being written"""
        self.A = self.S = None
        fs = set()
        for cls, name, F in buf.methods(self.M):
            if F.decl or cls != "xdr_pack" or not F.args:
                continue
            for i in F.insts():
                if i.op in ("load", "store"):
                    b, o, v = strip(i.ops[-1])
                    ty = i.ty if i.op == "load" else getattr(i.ops[0], "ty", "i64" if i.ops[0].kind == "const" and i.ops[0].width == 64 else "")
                    if b is F.args[0] and not v and ty == "i64" and o not in (self.fl["size"], self.fl["pos"]) and self.inp is not None and o > self.fl["pos"]:
                        fs.add(o)
        self.segs = sorted(fs)
        # the base is the one added to the data pointer when the encoding stream is created
        for cls, name, F in buf.methods(self.M):
            if F.decl or cls != "xdr_pack" or not F.args:
                continue
            for i in F.insts():
                if i.iscall and i.cname() == "xdrmem_create" and i.ops[3].kind == "const" and i.ops[3].s == ENC:
                    b, o, v = strip(i.ops[1])
                    for x, sc in v:
                        if x.kind == "inst" and x.op == "load" and strip(x.ops[0])[0] is F.args[0] and strip(x.ops[0])[1] in fs:
                            self.A = strip(x.ops[0])[1]
        rest = [o for o in self.segs if o != self.A]
        self.S = rest[0] if len(rest) == 1 else None

    # -------- per method
    def fld(self, st, o, ty="i64"):
        return st.load({"a0": 1, "": o}, ty)

    def run(self):
        fl = self.fl
        for cls, name, F in buf.methods(self.M):
            if F.decl or not F.args or cls == "xdr_pack" and self.inp is None and name not in ():
                continue
            q = "%s::%s" % (cls, name)
            self.C.saw("buffer methods", "%s (%s)" % (q, self.t))
            two = len(F.args) > 1 and re.search(r"\((classdesc::)?(pack_t|xdr_pack)( const)?&&?\)", F.dem)
            self.method(cls, name, q, F, bool(two))

    def method(self, cls, name, q, F, two):
        fl, C = self.fl, self.C
        xdr = cls == "xdr_pack" and self.A is not None
        retptr = any(b.term.op == "ret" and b.term.ops and b.term.ops[0].kind == "inst" and b.term.ops[0].iscall and buf.ALLOC.match(b.term.ops[0].cname() or "")
                     for b in F.blocks)
        ctor, dtor = name in ("pack_t", "xdr_pack"), name.startswith("~")
        this = F.args[0]

        def init(st):
            if xdr and not ctor:
                a, s = self.fld(st, self.A)[1], self.fld(st, self.S)[1] if self.S is not None else {}
                st.fact(sub({"": U32}, addl(a, s)))
                if self.S is not None:
                    st.fact(sub(addl(a, s), self.fld(st, fl["size"])[1]))      # kept by every operation: data-inside-segment
                st.tag["cap"] = addl(a, s)
            else:
                st.tag["cap"] = None
            st.tag.update(file=False, moved=(), pend=(), ipos=None, opos=None, ibase="A0", dirty=(), dead=(), stores=())
            st.tag["init"] = {f: self.fld(st, fl[f]) for f in ("size", "pos", "data")}
            if xdr:
                st.tag["A0"] = self.fld(st, self.A)
                st.tag["str0"] = {o: self.fld(st, o, "ptr")[0] for o in (self.inp, self.out) if o is not None}

        def stream(st, p):
            m = st.mod(p)
            for nm, off in (("in", self.inp), ("out", self.out)):
                if off is not None and canon(m) == canon(self.fld(st, off)[0]):
                    return nm
            return None

        def add(st, k, v):
            st.tag[k] = st.tag[k] + (v,)

        def on_cond(st, c, tr, r):
            if r:
                p, a, b = r
                l, k = st.lin(a), None
                if b.kind == "const" and a.kind in ("inst", "arg") and getattr(a, "ty", "") == "i32" and len(l) == 1:
                    k = [x for x in l if x][0] if [x for x in l if x] else ""
                    if re.match(r"\*\(a0\+\d+\)", k) and (p == "ne" and b.s == 0 or p == "eq" and b.s != 0):
                        st.tag["file"] = True
            return True

        def on_inst(st, i):
            if i.op == "store":
                b, o, v = strip(i.ops[1])
                a = st.mod(i.ops[1])
                if canon(a) == canon({"a0": 1, "": fl["data"]}):
                    # remember which streams now point to old storage
                    if xdr and self.inp is not None:
                        st.tag["dirty"] = ("in", "out")
                    val = st.mod(i.ops[0])
                    for (kind, call, atom, need) in st.tag["pend"]:
                        if kind == "alloc" and canon(val) == canon(atom):
                            ok = st.prove(addl(atom, {"": -1})) or st.prove(sub({}, need))
                            self.ob("storage-kept-on-failure", q, ok, call, "the buffer's storage is replaced before the allocation is known to have succeeded")
                return
            if not i.iscall:
                return
            n = i.cname() or ""
            atom = {"i%d.%d" % (i.bb.idx, i.idx): 1}
            dl = buf.delegated(i, this)
            if dl in buf.OPS and not xdr:
                # does what that operation must do
                amt = st.lin(i.ops[2]) if len(i.ops) > 2 else st.load(addl(st.mod(i.ops[1]), {"": fl["xsize"]}), "i64")[1]
                at = st.mod(i.ops[1]) if len(i.ops) > 2 else st.load(addl(st.mod(i.ops[1]), {"": fl["xval"]}), "ptr")[0]
                f = "size" if dl in ("append", "packraw") else "pos"
                m, e = self.fld(st, fl[f])
                add(st, "moved", ("w" if f == "size" else "r", i, at, amt, m))
                st.tag["file"] = st.tag["file"] or "either"
                st.store({"a0": 1, "": fl[f]}, (addl(m, amt), addl(e, amt)))
                return True
            if n == "__cxa_throw":
                on_throw(st, i)
                return False
            if buf.ALLOC.match(n):
                req = st.lin(i.ops[-1])
                add(st, "pend", ("alloc", i, atom, req))
                C.saw("allocations", q)
                # only a request for this buffer's storage changes its capacity
                if len(i.ops) == 1 or canon(st.mod(i.ops[0])) == canon(self.fld(st, fl["data"])[0]) or i.ops[0].kind == "null":
                    st.tag["cap"] = req
            elif n in ("fopen", "fopen64", "freopen", "tmpfile", "fdopen"):
                add(st, "pend", ("open", i, atom, None))
                C.saw("file operations", q + " " + n)
                if ctor:
                    st.tag["file"] = True
            elif n in ("fwrite", "fread", "fwrite_unlocked", "fread_unlocked"):
                a, b = st.lin(i.ops[1]), st.lin(i.ops[2])
                if not [k for k in b if k] and b.get("", 0) == 1:
                    amt = a
                elif not [k for k in a if k] and a.get("", 0) == 1:
                    amt = b
                else:
                    amt = None
                add(st, "moved", ("w" if "write" in n else "r", i, st.mod(i.ops[0]), amt, False))
                add(st, "pend", ("io", i, atom, b))
                C.saw("file operations", q + " " + n)
            elif COPY.match(n) or fname(n) in ("copy", "copy_n", "uninitialized_copy", "uninitialized_copy_n") and len(i.ops) == 3 and "std::" in n:
                d, s = st.mod(i.ops[0]), st.mod(i.ops[1])
                amt = st.lin(i.ops[2])
                if fname(n).endswith("copy"):
                    d, s, amt = st.mod(i.ops[2]), st.mod(i.ops[0]), sub(st.mod(i.ops[1]), st.mod(i.ops[0]))
                elif fname(n).endswith("copy_n"):
                    d, s, amt = st.mod(i.ops[2]), st.mod(i.ops[0]), st.lin(i.ops[1])
                elif n == "bcopy":
                    d, s = s, d
                data = self.fld(st, fl["data"])[0]
                dk = [k for k in data if k]
                if len(dk) == 1 and d.get(dk[0], 0) == 1:
                    off = sub(d, data)
                    cap = st.tag["cap"]
                    C.saw("copies into the buffer", q)
                    ok = cap is not None and st.prove(sub(cap, addl(off, amt)))
                    if cap is None:
                        ok = st.prove(sub(self.fld(st, fl["size"])[1], addl(off, amt)))
                    self.ob("write-inside-storage", q, ok, i, "%s bytes at offset %s may not fit the %s obtained" % (show(amt), show(off), show(cap) if cap is not None else "present size"))
                    add(st, "moved", ("w", i, s, amt, off))
                elif len(dk) == 1 and s.get(dk[0], 0) == 1:
                    add(st, "moved", ("r", i, d, amt, sub(s, data)))
            elif n in ("xdrmem_create",):
                nm = stream(st, i.ops[0])
                x = i.ops[3]
                if nm is None and ctor and x.kind == "const":
                    nm = "in" if x.s == ENC else "out"
                C.saw("XDR streams created", q)
                data = self.fld(st, fl["data"])[0]
                off = sub(st.mod(i.ops[1]), data)
                ln = st.lin(i.ops[2])
                isdata = not [k for k in off if k.startswith("*(") and k in data] and "a0" not in off
                okop = nm is not None and x.kind == "const" and x.s == (ENC if nm == "in" else DEC)
                self.ob("stream-on-storage", q, isdata and okop, i, "an XDR stream is created on something other than the buffer's present storage, or for the wrong direction")
                cap = st.tag["cap"]
                self.ob("stream-inside-storage", q, cap is not None and st.prove(sub(cap, addl(off, ln))) and not [k for k in ln if k.startswith("trunc")], i,
                        "an XDR stream of %s bytes at offset %s may exceed the storage of %s, or its 32 bit size is truncated" % (show(ln), show(off), show(cap) if cap is not None else "?"))
                if nm == "out":
                    st.tag["olen"] = (i, addl(off, ln))
                if nm:
                    st.tag["dirty"] = tuple(x for x in st.tag["dirty"] if x != nm)
                    st.tag["dead"] = tuple(x for x in st.tag["dead"] if x != nm)
                    st.tag["ipos" if nm == "in" else "opos"] = {}
                    if nm == "in":
                        st.tag["ibase"] = off
                    elif off:
                        self.ob("stream-on-storage", q, not [c for c in off.values() if c], i, "the decoding stream doesn't start at the beginning of the data")
                    if nm == "out":
                        st.tag["remade"] = True
            elif n == "xdrstdio_create":
                nm = "in" if i.ops[2].kind == "const" and i.ops[2].s == ENC else "out"
                C.saw("XDR streams created", q)
                st.tag["ipos" if nm == "in" else "opos"] = {}
            elif n.startswith("xdr_") and i.ops:
                nm = stream(st, i.ops[0])
                if nm:
                    self.use(st, q, i, nm)
                    if nm == "in" and len(i.ops) > 2:
                        self.room(st, q, i, addl(st.lin(i.ops[2]), {"": 3}))
                    st.tag["ipos" if nm == "in" else "opos"] = None
                    st.tag["moved"] = st.tag["moved"] + (("x" + nm, i, st.mod(i.ops[1]) if len(i.ops) > 1 else {}, st.lin(i.ops[2]) if len(i.ops) > 2 else None, None),)
                    add(st, "pend", ("enc", i, atom, None))
                    C.saw("encoding operations", q + " " + n)
                    if len(i.ops) > 2:
                        self.ob("count-not-truncated", q, not [k for k in st.lin(i.ops[2]) if k.startswith("trunc")], i,
                                "a byte count is truncated to the 32 bits XDR can count")
            elif i.cname() is None and i.callee is not None and i.callee.kind == "inst" and i.callee.op == "load" and i.ops:
                nm = stream(st, i.ops[0])
                if nm is None:
                    return
                ad = i.callee.ops[0]
                b, o, v = strip(ad)
                if b.kind == "inst" and b.op == "load" and strip(b.ops[0])[0].kind == "inst":
                    slot = o // 8
                    if slot == 7:
                        st.tag["dead"] = st.tag["dead"] + (nm,)
                        return
                    self.use(st, q, i, nm)
                    if slot == 4:
                        k = "ipos" if nm == "in" else "opos"
                        first = "first_" + nm
                        if st.tag[k] is None and not [m for m in st.tag["moved"] if m[0] == "x" + nm] and first not in st.tag:
                            st.tag[first] = dict(atom)
                        st.tag[k] = dict(atom)
                        if nm == "in" and self.S is not None:
                            st.fact(sub(self.fld(st, self.S)[1], atom))
                    elif slot == 5:
                        st.tag["ipos" if nm == "in" else "opos"] = st.lin(i.ops[1])
                else:
                    # the scalar's own filter, found in the basic_type
                    self.use(st, q, i, nm)
                    if nm == "in":
                        self.room(st, q, i, {"": 8})
                    st.tag["ipos" if nm == "in" else "opos"] = None
                    add(st, "moved", ("x" + nm, i, st.mod(i.ops[1]) if len(i.ops) > 1 else {}, None, None))
                    add(st, "pend", ("enc", i, atom, None))
                    C.saw("encoding operations", q + " filter")
                    self.ob("filter-present", q, st.prove(addl(st.lin(i.callee), {"": -1})), i, "a type without an XDR encoding is passed on without a test")

        def on_throw(st, i):
            """an operation that fails has moved nothing"""
            if two or ctor or dtor or st.tag["moved"] and xdr:
                return
            for f, rule in (("size", "size-kept-on-failure"), ("pos", "position-kept-on-failure")):
                if xdr and not (name in ("append", "packraw") or name in ("popoff", "unpackraw") and f == "size"):
                    continue
                v0, v1 = st.tag["init"][f], self.fld(st, fl[f])
                C.saw("exceptional exits", q)
                self.ob(rule, q, st.same(v0[0], v1[0]), i, "the operation fails but leaves the %s changed from %s to %s" % (
                    "size" if f == "size" else "read position", show(v0[0]), show(v1[0])))

        def on_ret(st, t):
            T = st.tag
            for kind, call, atom, need in T["pend"]:
                if kind == "alloc":
                    if retptr and t.ops and canon(st.mod(t.ops[0])) == canon(atom):
                        continue
                    self.ob("allocation-tested", q, st.prove(addl(atom, {"": -1})) or st.prove(sub({}, need)), call,
                            "the method can return normally although the allocation failed")
                elif kind == "open":
                    self.ob("open-tested", q, st.prove(addl(atom, {"": -1})), call, "the method can return normally although the file could not be opened")
                elif kind == "io":
                    self.ob("io-tested", q, st.prove(sub(atom, need)), call, "the method can return normally although the read or write came up short")
                elif kind == "enc":
                    self.ob("encoding-tested", q, st.prove(addl(atom, {"": -1})), call, "the method can return normally although the value was not encoded or decoded")
            if two or dtor:
                return
            fin = {f: self.fld(st, fl[f]) for f in ("size", "pos", "data")}
            ini = T["init"]
            self.account(st, cls, name, q, t, F, ini, fin)
            # a memory buffer always has both streams
            nostream = any(off is not None and not ctor and st.prove(sub({}, T["str0"][off])) for off in (self.inp, self.out)) if xdr else False
            if xdr and not T["file"] and not nostream:
                self.invariants(st, cls, name, q, t, F, ini, fin, ctor)
        try:
            Walk(F, on_inst, on_ret, on_cond, init, trust=True)
        except AnalysisBroken:
            raise

    def use(self, st, q, i, nm):
        self.ob("stream-live", q, nm not in st.tag["dead"] and (nm not in st.tag["dirty"] or st.tag["file"]), i,
                "an XDR stream is used after it was destroyed, or while it still points to storage that was reallocated")

    # -------- what each operation must do to size and position
    def account(self, st, cls, name, q, t, F, ini, fin):
        T, fl = st.tag, self.fl
        s0, p0, s1, p1 = ini["size"][0], ini["pos"][0], fin["size"][0], fin["pos"][0]
        xdr = cls == "xdr_pack"

        def eq(what, a, b, why):
            self.C.saw("size and position updates", q)
            self.ob(what, q, st.same(a, b), t, "%s: %s, expected %s" % (why, show(a), show(b)))
        if name in ("append", "packraw", "popoff", "unpackraw"):
            amount = {"a2": 1} if len(F.args) > 2 else st.load({"a1": 1, "": fl["xsize"]}, "i64")[0]
            addr = {"a1": 1} if len(F.args) > 2 else st.load({"a1": 1, "": fl["xval"]}, "ptr")[0]
            wr = name in ("append", "packraw")
            if not xdr:
                eq("accounts-for-bytes", s1 if wr else p1, addl(s0 if wr else p0, amount), "the %s doesn't account for the bytes moved" % ("size" if wr else "position"))
                mv = [m for m in T["moved"] if m[0] == ("w" if wr else "r")]
                if not mv:
                    self.ob("moves-the-bytes", q, st.prove(sub({}, amount)), t, "a path returns normally without moving the bytes")
                else:
                    m = mv[-1]
                    ok = len(mv) == 1 and m[3] is not None and st.same(m[3], amount) and st.same(m[2], addr)
                    if m[4] is not False:
                        ok = ok and st.same(m[4], s0 if wr else p0)
                    self.ob("moves-the-bytes", q, ok, m[1], "the bytes moved are not the %s bytes at the recorded %s, to or from the caller's memory" % (show(amount), "size" if wr else "position"))
            else:
                mv = [m for m in T["moved"] if m[0] == ("xin" if wr else "xout")]
                ok = len(mv) == 1 and len(T["moved"]) == 1 and st.same(mv[0][2], addr) and (mv[0][3] is None or st.same(mv[0][3], amount))
                ok = ok or not T["moved"] and st.prove(sub({}, amount))
                self.ob("moves-the-bytes", q, ok, mv[0][1] if mv else t, "the value is not encoded or decoded exactly once, at the caller's address")
            eq("other-position-kept", p1 if wr else s1, p0 if wr else s0, "an operation in one direction changes the other direction's position")
        elif name == "reseti":
            eq("accounts-for-bytes", s1, {}, "the size isn't reset")
            eq("other-position-kept", p1, p0, "the read position changes")
        elif name == "reseto":
            eq("accounts-for-bytes", p1, {}, "the position isn't reset")
            eq("other-position-kept", s1, s0, "the size changes")
        elif name == "seeki" and not xdr:
            eq("accounts-for-bytes", s1, addl(s0, {"a1": 1}), "the size doesn't move by the offset")
            eq("other-position-kept", p1, p0, "the read position changes")
        elif name == "seeko" and not xdr:
            eq("accounts-for-bytes", p1, addl(p0, {"a1": 1}), "the position doesn't move by the offset")
            eq("other-position-kept", s1, s0, "the size changes")
        elif name == "seeki":
            g = T.get("first_in")
            if g and not st.same(s1, addl(s0, {"a1": 1})):
                eq("accounts-for-bytes", s1, addl(addl(T["A0"][0], g), {"a1": 1}), "the size doesn't move by the offset")
            else:
                eq("accounts-for-bytes", s1, addl(s0, {"a1": 1}), "the size doesn't move by the offset")
            eq("other-position-kept", p1, p0, "the read position changes")
        elif name == "seeko":
            eq("other-position-kept", s1, s0, "the size changes")
        elif name == "resize":
            eq("accounts-for-bytes", s1, {"a1": 1}, "the size isn't what was asked for")
            eq("other-position-kept", p1, p0, "the read position changes")
        elif name == "clear":
            eq("accounts-for-bytes", s1, {}, "the size isn't reset")
            eq("accounts-for-bytes", p1, {}, "the position isn't reset")

    def invariants(self, st, cls, name, q, t, F, ini, fin, ctor):
        T = st.tag
        A1 = self.fld(st, self.A)
        self.C.saw("XDR state invariants", q)
        self.ob("streams-renewed", q, not T["dirty"], t, "the method returns with an XDR stream (%s) still on storage that was reallocated" % ",".join(T["dirty"]))
        self.ob("streams-renewed", q, not T["dead"], t, "the method returns with a destroyed XDR stream (%s)" % ",".join(T["dead"]))
        # the segment base says where the encoding stream starts
        ib = T["ibase"]
        self.ob("segment-base", q, st.same(A1[0], T["A0"][0] if ib == "A0" else ib), t, "the segment's recorded base %s isn't where its stream starts" % show(A1[0]))
        if self.S is not None and T["cap"] is not None:
            S1 = self.fld(st, self.S)[1]
            tot = addl(A1[1], S1)
            self.ob("segment-inside-storage", q, st.prove(sub(T["cap"], tot)), t, "segment base and length %s exceed the storage of %s" % (show(tot), show(T["cap"])))
            if T.get("olen"):
                self.ob("stream-covers-data", q, st.prove(sub(T["olen"][1], tot)), T["olen"][0],
                        "the decoding stream ends after %s bytes, though %s can be encoded" % (show(T["olen"][1]), show(tot)))
        # size == base + position of the encoding stream
        s1, p1 = fin["size"][0], fin["pos"][0]
        gi, go = T.get("first_in"), T.get("first_out")
        s0, p0 = ini["size"][0], ini["pos"][0]

        def subst(l):
            r = dict(l)
            for nm, old, new in (("s", s0, addl(T["A0"][0], gi) if gi else None), ("p", p0, go)):
                if new is None or ctor:
                    continue
                k = [x for x in old if x][0]
                if r.get(k):
                    c = r.pop(k)
                    r = addl(r, {x: y * c for x, y in new.items()})
            return r
        # (seeking is only ever backwards)
        if name != "seeki" and self.S is not None and T["cap"] is not None and (not st.same(s1, s0) or not st.same(A1[0], T["A0"][0])):
            self.ob("data-inside-segment", q, st.prove(sub(tot, subst(fin["size"][1]))), t,
                    "the size %s may exceed segment base and length %s" % (show(fin["size"][1]), show(tot)))
        touched = T["ipos"] is not None or [m for m in T["moved"] if m[0] == "xin"] or not st.same(s0, s1) or not st.same(A1[0], T["A0"][0])
        if touched:
            ip = T["ipos"]
            ok = ip is not None
            if ok:
                want = sub(subst(s1), A1[0])
                tr = [k for k in ip if k.startswith("trunc32[")]
                ok = st.same(want, ip) or len(ip) == 1 and tr and "trunc32[%s]" % show({k: c for k, c in want.items() if c}) in tr or st.same(want, subst(ip)) or (
                    bool(tr) and self.trunc_same(tr[0], want))
                for k in tr:
                    e = st.tr.get(k)
                    self.ob("seek-inside-data", q, e is not None and st.below(e[0], 1 << 63), t, "the encoding stream may be given a negative position")
            self.ob("size-follows-stream", q, ok, t, "the size %s isn't the segment base %s plus the encoding stream's position %s" % (show(s1), show(A1[0]), show(ip) if ip is not None else "(not asked for)"))
        touched = T["opos"] is not None or [m for m in T["moved"] if m[0] == "xout"] or not st.same(p0, p1)
        if touched:
            op = T["opos"]
            ok = op is not None and (st.same(subst(p1), op) or st.same(subst(p1), subst(op)))
            self.ob("position-follows-stream", q, ok, t, "the position %s isn't the decoding stream's position %s" % (show(p1), show(op) if op is not None else "(not asked for)"))

    def room(self, st, q, i, need):
        """the segment being encoded has room: otherwise packing valid data is an error"""
        if st.tag["file"] or self.S is None or st.tag.get("nostream"):
            return
        S, ip = self.fld(st, self.S)[1], st.tag["ipos"]
        self.ob("room-for-encoding", q, ip is not None and st.prove(sub(S, addl(ip, need))), i,
                "the segment of %s bytes may lack room for %s more at position %s, so packing valid data fails" % (show(S), show(need), show(ip) if ip is not None else "?"))

    def trunc_same(self, a, want):
        return a == "trunc32[%s]" % show({k: c for k, c in want.items() if c or k == ""})


def overrides(C, M, fl):
    """every pack_t operation that changes storage or positions is virtual, and redefined for the XDR buffer"""
    offs = set(fl.values())
    changing, xdr = set(), set()
    for cls, name, F in buf.methods(M):
        if F.decl or not F.args:
            continue
        if cls == "xdr_pack":
            xdr.add(name)
            continue
        if name in ("pack_t", "swap_base") or name.startswith("~"):
            continue
        if any(i.op == "store" and strip(i.ops[1])[0] is F.args[0] and strip(i.ops[1])[1] in (fl["size"], fl["pos"], fl["data"]) for i in F.insts()):
            changing.add(name)
    vt = [k for k in M.vtables if "pack_t" in str(k)]
    slots = {fname(x) for k in vt for x in M.vtables[k] if x} if vt else set()
    for n in sorted(changing):
        if n in ("realloc", "operator="):
            continue            # the storage primitive itself; assignment is C06's
        C.saw("state changing operations", n)
        C.ob("virtual-operation", "pack_t::" + n, n in slots, "pack_base.h", "changes the buffer's state without being virtual: the XDR buffer's streams go stale")
        C.ob("overridden", "xdr_pack::" + n, n in xdr, "xdr_pack.cc", "the XDR buffer doesn't redefine it: its streams go stale")


def allocator(C, M):
    for F in M.defs():
        if not F.dem.startswith("classdesc::realloc("):
            continue
        C.saw("allocators", F.dem)
        res = []

        def on_inst(st, i):
            if i.iscall and i.cname() in ("realloc", "malloc"):
                st.tag["n"] = (i, {"i%d.%d" % (i.bb.idx, i.idx): 1}, st.same(st.lin(i.ops[-1]), {"a1": 1}) and (len(i.ops) == 1 and st.prove(sub({}, {"a0": 1})) or len(i.ops) == 2 and st.same(st.mod(i.ops[0]), {"a0": 1})))
            elif i.iscall and i.cname() == "free":
                st.tag["f"] = st.same(st.mod(i.ops[0]), {"a0": 1})

        def on_ret(st, t):
            n = st.tag.get("n")
            if n:
                ok = n[2] and st.same(st.mod(t.ops[0]), n[1]) and not st.tag.get("f")
            else:
                ok = st.same(st.mod(t.ops[0]), {}) and st.prove(sub({}, {"a1": 1}))
            C.ob("allocator-contract", "classdesc::realloc", ok, core.where(t), "what is returned isn't a block of the requested size holding the old contents, nor null for a size of zero")
        Walk(F, on_inst, on_ret)


def run():
    C = core.Check("C04", RULE, trusted=("libtirpc's memory and stdio streams follow their manual", "sums of sizes of existing objects do not wrap",
                                         "fclose and fseek failures are outside the property"))
    T = Tree(False)
    for std, x in (("c++98", True), ("c++11", True), ("c++11", False)) + ((("c++17", True), ("c++20", False)) if C.thorough else ()):
        M = buf.load(T, std, x)
        fl = buf.fields(M)
        Methods(C, M, fl, std + (" xdr" if x else "")).run()
        if x:
            overrides(C, M, fl)
        allocator(C, M)
    C.floor("buffer methods", 60)
    C.floor("allocations", 10)
    C.floor("file operations", 4)
    C.floor("copies into the buffer", 2)
    C.floor("encoding operations", 4)
    C.floor("XDR streams created", 4)
    C.floor("size and position updates", 20)
    C.floor("XDR state invariants", 8)
    C.floor("allocators", 2)
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C04", RULE)
