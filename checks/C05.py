#!/usr/bin/env python3
"""C05: the machine-independent encoding preserves every scalar type's width and sign."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prep import Tree, AnalysisBroken
import core, ir, ana, buf, wire
from ana import strip, fname
from buf import sub, addl, show
from pathlin import Walk, canon

RULE = ("the filter chosen for each scalar type reads and writes memory of exactly that type's size, with a wire form at least as wide and of the same signedness; a filter of the "
        "library's own only succeeds when the narrowed value equals the original and the encoder beneath succeeded; each scalar is passed with the filter of its own type; results of encoding are tested")
# libtirpc: name -> (bytes of memory, bytes on the wire, kind)
XDRF = {"xdr_char": (1, 4, "i"), "xdr_u_char": (1, 4, "u"), "xdr_short": (2, 4, "i"), "xdr_u_short": (2, 4, "u"), "xdr_int": (4, 4, "i"), "xdr_u_int": (4, 4, "u"),
        "xdr_long": (8, 4, "i"), "xdr_u_long": (8, 4, "u"), "xdr_hyper": (8, 8, "i"), "xdr_u_hyper": (8, 8, "u"), "xdr_longlong_t": (8, 8, "i"), "xdr_u_longlong_t": (8, 8, "u"),
        "xdr_int8_t": (1, 4, "i"), "xdr_uint8_t": (1, 4, "u"), "xdr_u_int8_t": (1, 4, "u"), "xdr_int16_t": (2, 4, "i"), "xdr_uint16_t": (2, 4, "u"), "xdr_u_int16_t": (2, 4, "u"),
        "xdr_int32_t": (4, 4, "i"), "xdr_uint32_t": (4, 4, "u"), "xdr_u_int32_t": (4, 4, "u"), "xdr_int64_t": (8, 8, "i"), "xdr_uint64_t": (8, 8, "u"), "xdr_u_int64_t": (8, 8, "u"),
        "xdr_float": (4, 4, "f"), "xdr_double": (8, 8, "f"), "xdr_bool": (4, 4, "b"), "xdr_enum": (4, 4, "i"), "xdr_quad_t": (8, 8, "i"), "xdr_u_quad_t": (8, 8, "u")}
# x86-64 Linux: size, signedness. bool's sign doesn't matter, nor does that of a type as wide as its wire form
TYPES = {"bool": (1, "iu"), "char": (1, "i"), "signed char": (1, "i"), "unsigned char": (1, "u"), "wchar_t": (4, "i"), "char8_t": (1, "u"), "char16_t": (2, "u"), "char32_t": (4, "u"),
         "short": (2, "i"), "unsigned short": (2, "u"), "int": (4, "i"), "unsigned int": (4, "u"), "long": (8, "i"), "unsigned long": (8, "u"),
         "long long": (8, "i"), "unsigned long long": (8, "u"), "float": (4, "f"), "double": (8, "f"), "long double": (16, "f")}
REQUIRED = set(TYPES) - {"char8_t", "char16_t", "char32_t"}


def suits(t, f):
    """why libtirpc's filter f doesn't suit type t, or None"""
    sz, sg = TYPES[t]
    mem, wirew, k = XDRF[f]
    if mem != sz:
        return "%s moves %d bytes of memory, a %s has %d" % (f, mem, t, sz)
    if wirew < sz:
        return "%s only encodes %d of the %d bytes of a %s" % (f, wirew, sz, t)
    if k not in sg and (k == "f" or sg == "f" or wirew > sz):
        return "%s encodes another kind of number than %s" % (f, t)
    return None


def custom(C, q, t, F):
    """a filter of the library's own, over an encoder of libtirpc"""
    size, sign = TYPES[t]
    bad = []

    def report(rule, i, ok, why):
        bad.append((rule, i, bool(ok), why))

    def init(st):
        st.tag.update(enc=None, dec=None, fits=None, nested=None)
        st.tag["v0"] = st.load({"a1": 1}, "i%d" % (8 * size))[0]

    def on_cond(st, c, tr, r):
        if not r:
            return True
        p, a, b = r
        if b.kind == "const" and canon(st.mod(a)) == canon(st.load({"a0": 1}, "i32")[0]):
            for val, k in ((0, "enc"), (1, "dec")):
                if p == "eq":
                    st.tag[k] = b.s == val
                elif p == "ne" and b.s == val:
                    st.tag[k] = False
            return True
        if p == "eq":
            for x, y in ((a, b), (b, a)):
                if canon(st.mod(y)) == canon(st.tag["v0"]) and x.kind == "inst" and x.op in ("sext", "zext"):
                    m = st.mod(x.ops[0])
                    ks = [k for k in m if k and m[k]]
                    if len(ks) == 1 and ks[0] in st.tr and canon(st.tr[ks[0]][0]) == canon(st.tag["v0"]):
                        st.tag["fits"] = (x.op, ks[0])
        # an explicit range
        for x, y, pp in ((a, b, p), (b, a, ir.SWAP.get(p, p))):
            off = sub(st.mod(x), st.tag["v0"])
            shift = off.get("", 0)
            if y.kind == "const" and not [k for k in off if k and off[k]] and shift and pp in ("uge", "ugt"):
                k = (y.v + (pp == "ugt") - shift) % (1 << 64)
                st.tag["rng"] = ((k + (1 << 63)) % (1 << 64) - (1 << 63), ((-1 - shift) % (1 << 64) + (1 << 63)) % (1 << 64) - (1 << 63))
            elif y.kind == "const" and not [k for k in off if k and off[k]] and shift and pp in ("ule", "ult"):
                # lo <= v <= hi tested as v-lo <= hi-lo
                shift = (shift + (1 << 63)) % (1 << 64) - (1 << 63)
                st.tag["rng"] = (-shift, y.v - (pp == "ult") - shift)
            elif y.kind == "const" and canon(st.mod(x)) == canon(st.tag["v0"]):
                lo, hi = st.tag.get("rng", (None, None))
                if pp in ("sle", "slt", "ule", "ult"):
                    h = (y.s if pp[0] == "s" else y.v) - (pp[2] == "t")
                    hi = h if hi is None else min(h, hi)
                    lo = 0 if pp[0] == "u" else lo
                elif pp in ("sge", "sgt"):
                    l = y.s + (pp[2] == "t")
                    lo = l if lo is None else max(lo, l)
                st.tag["rng"] = (lo, hi)
        return True

    def on_inst(st, i):
        n = i.cname() if i.iscall else None
        if n in XDRF:
            C.saw("encoders under custom filters", "%s: %s" % (q, n))
            mem, w, k = XDRF[n]
            p = st.mod(i.ops[1])
            direct = canon(p) == canon({"a1": 1})
            m = st.load(p, "i%d" % (8 * mem))[0]
            if direct:
                why = suits(t, n)
                report("value-fits-encoding", i, why is None, why or "")
            elif st.tag["enc"] is not False:
                f, ks = st.tag["fits"], [x for x in m if x and m[x]]
                rg = st.tag.get("rng", (None, None))
                bits = 8 * min(mem, w)
                inside = None not in rg and rg[0] >= (-(1 << (bits - 1)) if k == "i" else 0) and rg[1] < (1 << (bits - 1 if k == "i" else bits))
                trunc = len(ks) == 1 and ks[0] in st.tr and canon(st.tr[ks[0]][0]) == canon(st.tag["v0"])
                nm = st.norm(m)
                ok = mem <= w and k == sign and (f is not None and f[0] == ("sext" if sign == "i" else "zext") and len(ks) == 1 and ks[0] == f[1] or inside and trunc
                                                 or canon(nm) == canon(st.tag["v0"]) and st.below(nm, 1 << bits))
                report("value-fits-encoding", i, ok, "a value that %s cannot hold may be encoded without the loss being noticed" % n)
            st.tag["nested"] = (i, p, mem, k)
        return None

    def on_ret(st, t_):
        v = st.lin(t_.ops[0])
        if not [k for k in v if k] and v.get("", 0) == 0:
            return
        nst = st.tag["nested"]
        if nst is None and st.tag["enc"] is False and st.tag["dec"] is False:
            return
        if nst is None:
            return report("encoding-done", t_, False, "reports success without encoding anything")
        i, p, mem, k = nst
        atom = {"i%d.%d" % (i.bb.idx, i.idx): 1}
        report("encoding-tested", i, st.prove(addl(atom, {"": -1})) or canon(v) == canon(atom), "reports success although %s failed" % i.cname())
        if st.tag["dec"] is not False and st.tag["enc"] is not True and canon(p) != canon({"a1": 1}):
            fin = st.load({"a1": 1}, "i%d" % (8 * size))[0]
            got = st.load(p, "i%d" % (8 * mem))[0]
            want = got if sign == "u" else {"sext%d[%s]" % (8 * size, show(got)): 1}
            report("decoded-whole", i, canon(fin) == canon(want), "the decoded value isn't passed on, or is widened with the wrong sign")
    Walk(F, on_inst, on_ret, on_cond, init)
    for rule, i, ok, why in bad:
        C.ob(rule, q, ok, core.where(i), why)


def filters(C, T, std):
    bc = T.compile("w_buf.cc", std=std, defs=("TR1", "HAVE_LONGLONG", "XDR_PACK"), extra=("-flto", "-fwhole-program-vtables"))
    M = ir.load(bc, T, inline=lambda d, f, n: not f.startswith("/usr") and f != "" and "XDR_filter" not in d, roots=lambda d, f, n: "XDR_filter" in d)
    got = {}
    for F in M.defs():
        m = re.search(r"XDR_filter<(.*?)>\(", F.dem)
        if not m:
            continue
        t = m.group(1)
        q = "XDR_filter<%s>" % t
        C.saw("filters", q)
        got[t] = F
        if t not in TYPES:
            C.bad("filter-suits-type", q, core.where(F), "unknown scalar type")
            continue
        rets = {repr(b.term.ops[0]): b.term.ops[0] for b in F.blocks if b.term.op == "ret"}
        if not rets:
            C.bad("filter-suits-type", q, core.where(F), "no encoding is ever returned")
        for v in flatten(list(rets.values())):
            if v.kind == "null":
                C.ob("filter-suits-type", q, TYPES[t][0] > 8, core.where(F), "%s has no encoding" % t)
                continue
            nm = getattr(v, "name", None)
            if nm in XDRF:
                why = suits(t, nm)
                C.ob("filter-suits-type", q, why is None, core.where(F), why or "")
                continue
            G = [f for f in M.defs() if f.name == nm]
            if not G:
                C.bad("filter-suits-type", q, core.where(F), "unknown encoding %r" % v)
                continue
            custom(C, q, t, G[0])
    for t in sorted(REQUIRED - set(got)):
        C.bad("filter-suits-type", "XDR_filter<%s>" % t, "xdr_pack.cc", "no encoding is defined for this type")


def flatten(vs, d=5):
    r = []
    for v in vs:
        if v.kind == "inst" and v.op in ("phi", "select") and d:
            r += flatten([x for x, b in v.inc] if v.op == "phi" else v.ops[1:], d - 1)
        else:
            r.append(v)
    return r


def uses(C, T, std):
    """wherever a scalar is moved, size and filter are those of one type"""
    bc = T.compile("w_pack.cc", std=std, defs=("TR1", "HAVE_LONGLONG", "XDR_PACK"), extra=("-flto", "-fwhole-program-vtables"))
    M = ir.load(bc, T, inline=lambda d, f, n: (not f.startswith("/usr")) and f != "", roots=lambda d, f, n: d.startswith("w_"))
    seen = set()
    for F in M.defs():
        for i in F.insts():
            if wire.bufop(i) not in ("append", "popoff"):
                continue
            b, off, var = strip(i.ops[1])
            flt = ana.reaching_store(i, b, off + 16)
            val, sz, fk = wire.scalar(i)
            m = re.search(r"XDR_filter<(.*)>\(", flt.cname() or "") if flt is not None and flt.kind == "inst" and flt.iscall else None
            n = re.sub(r"\(.*", "", F.dem)
            C.saw("scalar transfers", n)
            key = (n, m.group(1) if m else None, sz)
            if key in seen:
                continue
            seen.add(key)
            t = m.group(1) if m else None
            C.ob("own-filter", n, t in TYPES and TYPES[t][0] == sz, core.where(i), "a scalar of %s bytes is passed with the filter of %s" % (sz, t or "no recognisable type"))


class Only:
    """pass on the obligations of another check that this property also rests on"""
    def __init__(self, C, rules):
        self.C, self.rules = C, rules

    def ob(self, rule, *a, **k):
        return self.C.ob(rule, *a, **k) if rule in self.rules else bool(a[1])

    def bad(self, rule, *a, **k):
        if rule in self.rules:
            self.C.bad(rule, *a, **k)

    def saw(self, what, x=None):
        if what in ("encoding operations", "XDR streams created"):
            self.C.saw(what, x)


def run():
    import C04
    C = core.Check("C05", RULE, trusted=("libtirpc's encoders follow their manual", "x86-64 Linux sizes of scalar types"))
    T = Tree()
    T.descriptor("wtypes.h", "wtypes-pack.cd", ("-nodef -onbase", "pack unpack"))
    for std in ("c++98", "c++11") + (("c++17", "c++20") if C.thorough else ()):
        filters(C, T, std)
        uses(C, T, std)
        M = buf.load(T, std, True)
        C04.Methods(Only(C, ("encoding-tested", "filter-present", "count-not-truncated", "moves-the-bytes", "stream-on-storage")), M, buf.fields(M), std).run()
    C.floor("filters", 15)
    C.floor("scalar transfers", 60)
    C.floor("encoding operations", 4)
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C05", RULE)
