#!/usr/bin/env python3
"""C09: reading any XML text terminates and reports malformed input."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree
import core, ir, text, ana
import xmltext as X

RULE = ("dataflow over characters and tokens of the XML reader (compiled to LLVM IR from the working tree), before and after the end of the input: every way round every loop takes "
        "a character or a non-empty token, every way that meets the end of the input inside a construct ends in an exception, an element is left normally only past a matching end tag, "
        "and recursion is entered only after a token was taken")
SKIP = re.compile("(%s)|(%s)|(%s)" % (X.TOKEN.pattern, X.PARSE.pattern, X.ISSPACE.pattern))


def body(F, h):
    """blocks of the natural loop with header h"""
    r = {h}
    work = [b for b in F.blocks if h in ana.succs(b) and F.dominates(h, b)]
    while work:
        b = work.pop()
        if b not in r:
            r.add(b)
            work += b.preds
    return r


def since(ev, h):
    k = max([n for n, e in enumerate(ev) if e == ("loop", h)], default=-1)
    return ev[k + 1:]


def tokeniser(C, F):
    paths = []
    W = text.Walk(F, on_ret=lambda s, i, v: paths.append(("ret", s, i)), on_back=lambda s, h: paths.append(("back", s, h)), on_throw=lambda s, i: paths.append(("throw", s, i)))
    name = F.dem
    res = (("arg", 0), 0)
    heads = [e[1] for k, s, x in paths for e in s.ev[:1] if e[0] == "loop"]
    if not C.ob("reads", name, heads, core.where(F), "no loop over the input was found"):
        return
    head = heads[0]
    blocks = {b.idx: b for b in F.blocks}
    bodies = {b.idx: body(F, b) for b in W.hdr}

    back = {}
    for k, s, x in paths:
        if k == "back" and not s.done:
            g = [e for e in since(s.ev, x.idx) if e[0] == "get"]
            back[x.idx] = back.get(x.idx, True) and bool(g) and s.dom[g[-1][1]] <= {9, 10, 11, 12, 13, 32}

    def skipping(s, h, ev):
        """has the loop gone on, this far, because the last character was white space"""
        if back.get(h) and not [e for e in since(ev, h) if e[0] == "get"]:
            return True
        g = [e[1] for e in since(ev, h) if e[0] == "get"] or [a for a in s.dom if isinstance(a, tuple) and a[0] == "W" and a[1] == h and 0 < len(s.dom[a]) <= 6]
        return any(s.dom[a] <= {9, 10, 11, 12, 13, 32} for a in g[-1:] + [a for a in g if a[0] == "W"])
    for k, s, x in paths:
        C.saw("ways through the tokeniser")
        if k == "back":
            ev = since(s.ev, s.hid(x))
            # leaving and entering the region after the end of the input
            net = len([e for e in ev if e[0] in ("get", "reget")]) - len([e for e in ev if e[0] == "unget"])
            C.ob("consumes", "%s loop at %s" % (name, site(x)), net >= 1 and not s.done, core.where(first(x)),
                 "an iteration takes no character" + (" once the end of the input is met" if s.done else ""))
        elif k == "ret" and s.done:
            C.saw("ends of input accepted")
            t = s.text(s.content(res))
            if not C.ob("end-reported", name, t == (), core.where(x), "the input ends inside %s, which is returned" % text.show(t)):
                continue
            ev = since(s.ev, head)
            n = [j for j, e in enumerate(ev) if e[0] == "eof"][0]
            at = blocks[ev[n][1]]
            before = [e for e in ev[:n]]
            if not before:
                continue
            L = [e[1] for e in before if e[0] == "loop"]
            # after a construct was left, or while white space is skipped
            ok = L and (skipping(s, L[-1], before) if at in bodies.get(L[-1], ()) else True)
            C.ob("end-reported", "%s at %s" % (name, site(at)), ok, core.where(first(at)), "the end of the input inside a construct is not reported")


def site(b):
    i = first(b)
    l = [x for x in i.loc if x[1]] if i is not None else []
    return (i.loc[0][0] + ":" + re.sub(r"\(.*", "", i.bb.fn.dem).split("::")[-1]) if l else "?"


def first(b):
    for i in b.insts:
        if i.op != "phi" and i.loc and any(l[1] for l in i.loc):
            return i
    return b.insts[0] if b.insts else None


def nonempty(s, g):
    """is the token known not to be empty"""
    n = ("tok", g)
    if n in s.eq:
        return s.eq[n] != b""
    if b"" in s.ne.get(n, ()):
        return True
    for key, tr in s.hist:
        if key[0] == "u" and isinstance(key[1], tuple) and key[1][0] == "isspace" and key[1][1] == (("a", n),) and tr:
            return True
        if key[0] == "b" and key[1] == "eq" and (("a", n),) in key[2:4]:
            o = key[3] if key[2] == (("a", n),) else key[2]
            if o == () and not tr or o and tr and any(y[0] == "l" for y in o):
                return True
    return False


def matched(s, F):
    """is the name of the end tag known to equal the last component of the scope"""
    S = (("a", ("S", (("arg", 2), 0))),)
    for key, tr in s.hist:
        if key[0] == "b" and key[1] == "eq" and tr and S in key[2:4]:
            o = key[3] if key[2] == S else key[2]
            if len(o) == 1 and o[0][0] == "a" and o[0][1][0] == "tok":
                return o[0][1]
        if key[0] == "u" and isinstance(key[1], tuple) and key[1][0] == "cmp" and key[1][1] == "eq" and tr and text.K(0) in key[1][2:4]:
            u = key[1][2] if key[1][3] == text.K(0) else key[1][3]
            if u[0] == "u" and isinstance(u[1], tuple) and u[1][0] == "compare" and u[1][1] == S and len(u[1]) == 5:
                pos, n, t = u[1][2:5]
                if len(t) == 2 and t[0] == ("l", b".") and t[1][0] == "a" and t[1][1][0] == "tok":
                    want = {("n", S): 1, ("n", (t[1],)): -1, "": -1}
                    if {a: c for a, c in X.linv(pos).items() if c} == want:
                        return t[1][1]
        if key[0] == "b" and key[1] == "eq" and tr:
            for a, b in ((key[2], key[3]), (key[3], key[2])):
                if len(a) == 1 and a[0][0] == "a" and a[0][1][0] == "sub" and a[0][1][1] == S and b and b[-1][0] == "a" and b[-1][1][0] == "tok":
                    k = {x: c for x, c in X.linv(a[0][1][2]).items() if c}
                    tk = (b[-1],)
                    if b[:-1] == (("l", b"."),) and k == {("n", S): 1, ("n", tk): -1, "": -1}:
                        return b[-1][1]
                    if len(b) == 1 and (k == {("n", S): 1, ("n", tk): -1} or "rfind" in str(a[0][1][2])):
                        return b[-1][1]
    return None


def element(C, F, mark, root):
    paths = []
    W = text.Walk(F, call=X.element_model(mark), on_ret=lambda s, i, v: paths.append(("ret", s, i)), on_back=lambda s, h: paths.append(("back", s, h)),
                  on_throw=lambda s, i: paths.append(("throw", s, i)))
    name = F.dem
    n = 0
    E = None if root else X.Element(F, mark)
    for k, s, x in paths:
        C.saw("ways through elements")
        toks = [e[1] for e in s.ev if e[0] == "token"]
        for j, e in enumerate(s.ev):
            if e[0] == "element":
                C.saw("recursions")
                p = [y for y in s.ev[:j] if y[0] in ("token", "loop")]
                C.ob("descends", name, p and p[-1][0] == "token" and nonempty(s, p[-1][1]), core.where(F), "recursion is entered without a token having been taken")
        if k == "back":
            g = [e[1] for e in since(s.ev, s.hid(x)) if e[0] == "token"]
            C.ob("consumes", "%s loop at %s" % (name, site(x)), counted(W, s, x) or g and all(nonempty(s, y) for y in g), core.where(first(x)), "an iteration takes no token, or goes on after the end of the input")
        elif k == "ret":
            n += 1
            last = toks[-1:] if root else []
            for g in toks:
                ok = nonempty(s, g) or root and toks == [g] or root and g == toks[-1] and not [e for e in s.ev if e[0] == "element"]
                C.ob("end-reported", name, ok, core.where(x), "the end of the input inside an element is not reported")
            if E is not None and E.head is not None and E.head in [e[1] for e in s.ev if e[0] == "loop"]:
                C.saw("elements left")
                m = matched(s, F)
                C.ob("end-tag", name, m, core.where(x), "an element is left without its end tag having been compared with its start tag")
            elif root:
                C.saw("documents left")
    C.ob("end-reported", name, n, core.where(F), "no way through it was found")


def counted(W, s, h):
    """a loop that takes no tokens at all: it must count towards a bound"""
    return any(i.op == "phi" and i.ty.startswith("i") and any(v.kind == "inst" and v.op in ("add", "sub") for v, b in i.inc) for i in h.insts)


def blank(C, F):
    """isspace(text): false for the empty text, or the reader would skip the end of the input for ever"""
    key = (("arg", 0), 0)
    seen = []

    def on_ret(s, i, v):
        t = s.text(s.content(key))
        if t == ():
            seen.append(s.norm(v))
    text.Walk(F, on_ret=on_ret)
    C.ob("consumes", F.dem, seen and all(v == text.K(0) for v in seen), core.where(F), "the empty text counts as white space, so that the end of the input is skipped for ever")


def run():
    C = core.Check("C09", RULE, trusted=("std::string and streams behave as the standard says", "the stack suffices for the nesting depth of the document"))
    T = Tree()
    T.descriptor("wtypes.h", "wtypes-xml.cd", ("-nodef -typeName -onbase -respect_private", "xml_pack xml_unpack xsd_generate"))
    stds = ("c++98", "c++17") + (("c++11", "c++20") if C.thorough else ())
    bcs = T.compile_many([(("w_xml.cc",), dict(std=s, defs=("TR1", "HAVE_LONGLONG"), extra=("-flto", "-fwhole-program-vtables"))) for s in stds])
    for std, bc in zip(stds, bcs):
        M = ir.load(bc, T, inline=lambda d, f, n: X.library(d, f, n) and not SKIP.search(d), roots=lambda d, f, n: bool(SKIP.search(d)) or d.startswith("w_parse"))
        fns = list(M.defs())
        mark = None
        for F in fns:
            if X.TOKEN.search(F.dem):
                C.saw("tokenisers", F.dem)
                R = X.Reader(F)
                mark = R.mark[1] if R.mark else mark
                tokeniser(C, F)
        for F in fns:
            if X.PARSE.search(F.dem):
                C.saw("element readers", F.dem)
                element(C, F, mark, False)
            elif F.dem.startswith("w_parse"):
                C.saw("document readers", F.dem)
                element(C, F, mark, True)
            elif X.ISSPACE.search(F.dem):
                C.saw("white space tests", F.dem)
                blank(C, F)
    n = len(stds)
    C.floor("tokenisers", 2 * n)
    C.floor("element readers", 2 * n)
    C.floor("document readers", 2 * n)
    C.floor("white space tests", n)
    C.floor("elements left", 4 * n)
    C.floor("recursions", 2 * n)
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C09", RULE)
