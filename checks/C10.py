#!/usr/bin/env python3
"""C10: XML output is balanced on every path, also when writing a member raises an error."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree
import core, ir, text
import xmltext as X

RULE = ("dataflow over the texts each writer appends to its stream (compiled to LLVM IR from the working tree, the guard objects inlined), along every way through it, including those on which "
        "another writer, a conversion of the user's or the writer itself raises an exception: the elements opened are closed, once each, innermost first and under the same name, "
        "when the function is left; every round of a loop is balanced; the nesting level is put back")
STREAM = re.compile(r"(\bclassdesc::xml_pack_t\b)")
PURE = re.compile(r"^(classdesc::)?\w+(\[abi:\w+\])?\(((classdesc|std)::string const&|char const\*)\)$")


class Unbalanced(Exception):
    pass


def pure(d, F=None):
    return bool(PURE.match(d)) and not d.startswith(("std::", "w_")) and "~" not in d


def quiet(i, n):
    """calls not taken to raise: the standard library's own (memory is not exhausted, the stream does not raise)"""
    if pure(n) and i.callee is not None and i.callee.kind == "func":
        return not raises(i.callee, set())
    return lib(i, n)


def raises(F, seen):
    if F.decl or F.dem in seen:
        return bool(F.decl)
    seen.add(F.dem)
    for b in F.blocks:
        for i in b.insts:
            if i.iscall and not i.nounwind:
                n = i.cname() or ""
                if n in ("__cxa_throw", "__cxa_rethrow") or not n.startswith(("llvm.", "__clang")) and not lib(i, n) and not (i.callee is not None and i.callee.kind == "func" and not raises(i.callee, seen)):
                    return True
    return False


def lib(i, n):
    return n.startswith(("std::", "__cxa_allocate", "__cxa_begin", "__cxa_end", "__cxa_free", "operator new", "operator delete", "__cxa_demangle", "__gnu_cxx")) or \
        bool(re.match(r"(?:std::string|std::ostream&|std::string&|bool|std::basic_\w+<.*?>&?|typename \S+) (std::)?operator", n)) and "classdesc" not in n and "wt::" not in n and "w_user" not in n or \
        "std::" in n.split("(")[0].split("<")[0] or not n.isidentifier() and "Enum_handle" in n


def walk(segs, stack, names, out=None):
    """stack of open elements after a text"""
    stack = list(stack)
    cur = None                  # inside a tag: the pieces since <
    for g in segs:
        if g == ("a", ("nested",)) and not stack and cur is None and out is not None:
            out.append(len(names))
        if g[0] != "l":
            if cur is not None:
                cur.append(g)
            continue
        for c in g[1].decode("latin-1"):
            if cur is None:
                if c == "<":
                    cur = []
            elif c == ">":
                t = merge(cur)
                cur = None
                if t and t[0][0] == "l" and t[0][1][:1] == b"/":
                    nm = strip(t, True)
                    if not stack:
                        raise Unbalanced("</%s> is written though no element is open" % text.show(nm))
                    o = stack.pop()
                    if o != nm:
                        raise Unbalanced("<%s> is closed by </%s>" % (text.show(o), text.show(nm)))
                elif t and t[-1][0] == "l" and t[-1][1][-1:] == b"/" or t and t[0][0] == "l" and t[0][1][:1] in (b"?", b"!"):
                    pass
                else:
                    nm = strip(t, False)
                    names.append(nm)
                    stack.append(nm)
            else:
                cur.append(("l", c.encode("latin-1")))
    if cur is not None:
        raise Unbalanced("the tag <%s is left unfinished" % text.show(merge(cur)))
    return tuple(stack)


def merge(cur):
    return text.join(tuple(cur))


def strip(t, close):
    """name of a tag: up to the first white space"""
    r = []
    for n, g in enumerate(t):
        if g[0] == "l":
            b = g[1]
            if n == 0 and close:
                b = b[1:]
            m = re.search(rb"\s", b)
            if m:
                b = b[:m.start()]
            if b:
                r.append(("l", b))
            if m:
                break
        else:
            r.append(g)
    return tuple(r)


def refs(F):
    ps = text.params(F.dem)
    k = len(F.args) - len(ps)
    return {n for n in range(len(F.args)) if n < k or ps[n - k].endswith("&")} if k >= 0 else {n for n, p in enumerate(ps) if p.endswith("&") and n < 2}


def level(s):
    """is the nesting level left as it was: the level L tested (old < L) and set on opening is reduced by one, else unchanged"""
    for k, v in s.mem.items():
        if k[0] != ("arg", 0) or not isinstance(v, tuple) or v[0] not in ("u", "k"):
            continue
        old = ("u", ("M", k))
        X = None
        for key, tr in s.hist:
            c = key[1] if key[0] == "u" and isinstance(key[1], tuple) else ()
            if len(c) == 4 and c[0] == "cmp" and (c[1] == "slt" and tr and c[2] == old or c[1] == "sle" and not tr and c[3] == old):
                X = c[3] if c[2] == old else c[2]
        a, n = off(v)
        if X is not None:
            b, m = off(X)
            if a == b and n != m - 1:
                return "the nesting level is %+d from that of the element closed, not one less," % (n - m)
        if (a, 0) == off(old) and n:
            return "the nesting level is changed by %+d" % n
    return None


def off(v):
    n = 0
    while v[0] == "u" and isinstance(v[1], tuple) and v[1][0] in ("add", "sub") and len(v[1]) == 4 and v[1][3][0] == "k":
        n += (1 if v[1][0] == "add" else -1) * text.sg(v[1][3][1], v[1][1])
        v = v[1][2]
    return (("k", 0), n + text.sg(v[1], 32)) if v[0] == "k" else (v, n)


def writer(C, F):
    ends, backs = [], []
    key = [None]

    def call(W, st, i, nm):
        if X.QUOTE.search(nm):
            st.strs[W.key(W.v(st, i.ops[0]))] = (("a", ("quote", W.v(st, i.ops[1]))),)
            return None
        if "operator<<(std::ostream&, classdesc::CDATA" in nm:
            k = W.skey(st, i.ops[0])
            st.strs[k] = text.join(st.content(k), (("a", ("cdata",)),))
            return W.v(st, i.ops[0])
        if pure(nm) and i.ty == "void" and len(i.ops) == 2:
            v = W.v(st, i.ops[1])
            st.strs[W.key(W.v(st, i.ops[0]))] = (("a", ("fn", nm, st.cstr(v) if "char const*" in nm else st.content(W.key(v)))),)
            return None
        if pure(nm) and len(i.ops) == 1:
            v = W.v(st, i.ops[0])
            t = st.cstr(v) if "char const*" in nm else st.content(W.key(v))
            return ("c", (("a", ("fn", nm, t)),), text.K(0)) if i.ty == "ptr" else ("u", ("fn", nm, t))
        if nested(i, nm):
            C.saw("calls of other writers")
            for c in [c for c in st.strs if stream(c)]:
                st.strs[c] = text.join(st.content(c), (("a", ("nested",)),))
            return None if i.ty == "void" else NotImplemented
        if re.search(r"operator<< ?(<.*>)?\(std::ostream&, ", nm) and not nm.startswith("std::"):
            k = W.skey(st, i.ops[0])
            st.strs[k] = text.join(st.content(k), (("a", ("user",)),))
            return W.v(st, i.ops[0])
        return NotImplemented

    def nested(i, nm):
        return X.FN.search(nm) or STREAM.search(nm.split("(", 1)[-1]) and nm != "" and not nm.startswith("std::")

    def stream(c):
        return c[0] == ("ld", ("arg", 0), 0)

    def on_ret(s, i, v):
        ends.append((s, i, "is left"))

    def on_exc(s, i):
        ends.append((s, i, "is left by an exception"))
    W = text.Walk(F, call=call, on_ret=on_ret, on_exc=on_exc, on_back=lambda s, h: backs.append((s, h)), quiet=quiet, nonnull=refs(F), volatile=True)
    bad, n, names = [], 0, []
    def depth(s, t, mine, out, d=6):
        t = s.text(t)
        if t and t[0][0] == "a" and t[0][1][0] == "L" and d:
            e = s.tag.get(("entry", t[0][1]), ())
            return walk(t[1:], depth(s, e, mine, out, d - 1) if e != t else (), mine, out)
        return walk(t, (), mine, out)
    for s, i, how in ends + [(s, h, None) for s, h in backs]:
        p = level(s) if how else None
        if p:
            bad.append((i, "%s when the function %s" % (p, how)))
        if how:
            C.saw("ways through writers" if how == "is left" else "exceptional ways through writers")
        if any(c[0] == "null" or isinstance(c[0], tuple) and c[0][:2] == ("ld", "null") for c in s.strs):
            bad.append((i if how else i.insts[0], "something is written through a null pointer"))
        for c, t in s.strs.items():
            if not stream(c):
                continue
            n += 1
            mine, out = [], []
            t = s.text(t)
            try:
                st = depth(s, t, mine, out)
                if how is None:
                    if not (t and t[0][0] == "a" and t[0][1][0] == "L"):
                        continue
                    if st != depth(s, t[:1], [], []):
                        bad.append((i.insts[0], "an element opened or closed in a round of the loop is not closed or opened in it"))
                elif st:
                    bad.append((i, "<%s> is not closed when the function %s" % (text.show(st[-1]), how)))
                if mine and out:
                    bad.append((i if how else i.insts[0], "a part is written outside the element opened for the whole"))
            except Unbalanced as e:
                bad.append((i, "%s (the function %s)" % (e, how)) if how else (i.insts[0], "a round of the loop: %s" % e))
            names += mine
    return bad, n, len(names)


def run():
    C = core.Check("C10", RULE, trusted=("memory is not exhausted and the output stream does not raise exceptions", "values are written without markup of their own (C08)",
                                         "user supplied writers are balanced themselves"))
    T = Tree()
    T.descriptor("wtypes.h", "wtypes-xml.cd", ("-nodef -typeName -onbase -respect_private", "xml_pack xml_unpack xsd_generate"))
    stds = ("c++98", "c++17") + (("c++11", "c++20") if C.thorough else ())
    bcs = T.compile_many([(("w_xmlbal.cc",), dict(std=s, defs=("TR1", "HAVE_LONGLONG"), extra=("-flto", "-fwhole-program-vtables"))) for s in stds])
    for std, bc in zip(stds, bcs):
        M = ir.load(bc, T, inline=lambda d, f, n: X.library(d, f, n) and not X.FN.search(d) and not pure(d), roots=lambda d, f, n: d.startswith("w_") or bool(X.FN.search(d)))
        for F in M.defs():
            n = F.dem.split("(")[0]
            if (X.FN.search(F.dem) or d_root(F)) and "unpack" not in F.dem.split("(")[0] and STREAM.search(F.dem) and not X.QUOTE.search(F.dem):
                C.saw("writers", F.dem[:160])
                bad, cnt, el = writer(C, F)
                for k in range(cnt):
                    C.saw("texts")
                for k in range(el):
                    C.saw("elements opened")
                if not bad:
                    C.ob("balanced", F.dem[:200], True)
                for i, p in bad[:4]:
                    C.bad("balanced", F.dem[:200], core.where(i), p)
    C.floor("writers", 100 * len(stds))
    C.floor("elements opened", 1000 * len(stds))
    C.floor("exceptional ways through writers", 500 * len(stds))
    return C.finish()


def d_root(F):
    return F.dem.startswith("w_p_")


if __name__ == "__main__":
    core.main(run, "C10", RULE)
