"""What the XML writer and reader do with each character, extracted from the program by dataflow over characters and texts."""
import re
import ir, text
from text import lit, join, lit_of, BYTES

FN = re.compile(r"\bxml_packp?(<|\()|access_xml_pack<.*operator\(\)|xml_quote(\[abi:\w+\])?\(|operator<<\(std::ostream&, classdesc::CDATA|PolyXMLBase")
TOKEN = re.compile(r"XMLtoken<.*>::token(\[abi:\w+\])?\(\)$")
PARSE = re.compile(r"xml_unpack_t::parse<.*>\(classdesc::XMLtoken<.*>&, std::string const&\)$")
ISSPACE = re.compile(r"isspace\(std::string\)$")
QUOTE = re.compile(r"xml_quote(\[abi:\w+\])?\(char\)$")


def library(d, f, n):
    return not f.startswith("/usr") and f != ""


def at(t, atom, b):
    """text of t when the source atom has value b, or None"""
    r = b""
    for s in t:
        if s[0] == "l":
            r += s[1]
        elif s[0] == "t" and s[1] == atom and b in dict(s[2]):
            r += dict(s[2])[b]
        else:
            return None
    return r


def quote_table(F):
    """byte -> set of texts xml_quote can return for it"""
    T, odd = {}, []
    arg = [a.idx for a in F.args if a.ty == "i8"]
    if len(arg) != 1:
        return None, ["no single character argument"]
    atom = ("arg", arg[0])

    def on_ret(st, i, v):
        t = st.content((("arg", 0), 0))
        for b in st.dom.get(atom, frozenset(BYTES)):
            o = at(t, atom, b)
            if o is None:
                odd.append((b, text.show(t)))
            T.setdefault(b, set()).add(o)
    text.Walk(F, on_ret=on_ret)
    return T, odd


class Reader:
    """the tokeniser as a transducer: what happens to the text collected so far with each further character"""

    def __init__(self, F):
        self.F = F
        self.paths = []
        W = self.W = text.Walk(F, on_ret=lambda s, i, v: self.add("ret", s, i), on_back=lambda s, h: self.add("back", s, h), on_throw=lambda s, i: self.add("throw", s, i))
        self.obj = ("arg", 1)
        self.res = (("arg", 0), 0)
        self.head = self.cell = None
        # the text collected so far: a text the outer loop changes, which is returned
        for k, s, x in self.paths:
            if k == "ret":
                t = s.content(self.res)
                if len(t) == 1 and t[0][0] == "a" and t[0][1][0] == "L" and self.first(s) == t[0][1][1] and t[0][1][2] != self.res:
                    self.head, self.cell = t[0][1][1], t[0][1][2]
        if self.head is None:
            return
        self.T = ("L", self.head, self.cell)
        # left over from the previous call: a character of the object that can be returned without reading any
        self.entry = [(s, x) for k, s, x in self.paths if k == "ret" and not any(e[0] in ("loop", "get") for e in s.ev)]
        self.left = self.mark = None
        vals = {}
        for k, s, x in self.paths:
            if k == "ret":
                for c, v in s.mem.items():
                    if c[0] == self.obj and v[0] in ("k", "t"):
                        vals.setdefault(c, []).append((s.norm(v), s))
        for s, x in self.entry:
            for a, d in s.dom.items():
                if a[0] == "M" and a[1][0] == self.obj and 0 not in d and len(d) < 256:
                    self.left = a[1]
        self.pushed = {0: b""}
        for s, x in self.entry:
            a = ("M", self.left)
            for b in s.dom.get(a, BYTES):
                o = at(s.content(self.res), a, b)
                if o is not None:
                    self.pushed[b] = o
        for c, l in vals.items():
            if c != self.left and all(v in (text.K(0), text.K(1)) for v, s in l) and {v for v, s in l} == {text.K(0), text.K(1)}:
                self.mark = c

    def add(self, k, s, x):
        self.paths.append((k, s, x))

    @staticmethod
    def first(s):
        for e in s.ev:
            if e[0] == "loop":
                return e[1]
        return None

    def segments(self):
        """ways from the head of the outer loop: (kind, state, x, reads, inner loops, ends at end of file)"""
        for k, s, x in self.paths:
            if s.done:
                continue        # the end of the input was met: C09
            ev = list(s.ev)
            hs = [j for j, e in enumerate(ev) if e == ("loop", self.head)]
            if not hs:
                continue
            ev = ev[hs[-1] + 1:]
            if k == "back" and x.idx != self.head:
                inner = True
            else:
                inner = False
            yield k, s, x, ev, [e[1] for e in ev if e[0] == "loop"], inner

    def consumed(self, s, ev):
        """characters taken from the input and not put back"""
        return join(*[s.char(s.norm(c)) for c in self.taken(ev, s)])

    @staticmethod
    def taken(ev, s=None):
        r = []
        for e in ev:
            if e[0] == "get":
                r.append(text.tab(e[1], {b: b for b in s.dom[e[1]]} if s else {b: b for b in range(256)}))
            elif e[0] == "reget":
                r.append(e[1])
            elif e[0] == "unget":
                if r:
                    r.pop()
        return r


def plain(R, b, follow):
    """problems with character b occurring in running text, followed by one of follow. None if it comes out as itself"""
    bad, seen = [], 0
    for k, s, x, ev, loops, inner in R.segments():
        gets = [e[1] for e in ev if e[0] == "get"]
        if not gets or ev[0][0] != "get" or b not in s.dom[gets[0]]:
            continue
        if any(e[0] == "eof" for e in ev):
            continue
        if any(not s.dom[g] & follow for g in gets[1:]):
            continue
        s = s.fork()
        s.dom[gets[0]] = frozenset((b,))
        seen += 1
        if k != "throw" and any(text.K(c) == v or v[0] == "t" and c in s.dom.get(v[1], BYTES) for e in [R.taken(ev)[1:]] for v in e for c in (38, 60)):
            bad.append("what follows it is taken as it is, though it may start markup or an entity")
        if k == "throw":
            bad.append("it is reported as an error")
            continue
        if loops or inner:
            bad.append("it starts a construct")
            continue
        want = join(s.text((("a", R.T),)), R.consumed(s, ev))
        got = s.text(s.content(R.cell)) if k == "back" else None
        if k == "back":
            if s.text(got) != s.text(want):
                bad.append("the text collected becomes %s" % text.show(got))
            continue
        got = s.content(R.res)
        n = s.norm(s.mem.get(R.left, text.K(0))) if R.left else text.K(0)
        if n[0] == "k" and n[1] in R.pushed:
            got = join(got, lit(R.pushed[n[1]]))
        elif n[0] == "k":
            got = None
        if got is None or s.text(got) != s.text(want):
            bad.append("the tokens returned are %s, for %s" % (text.show(got) if got is not None else "lost", text.show(want)))
    if not seen:
        bad.append("no way of reading it was found")
    return bad


def marks(R):
    """problems with the flag that tells markup from text"""
    bad, n = [], {0: 0, 1: 0}
    for k, s, x in R.paths:
        if k != "ret":
            continue
        t = s.text(s.content(R.res))
        m = s.norm(s.mem.get(R.mark, ("u", "unset")))
        ms = {m[1]} if m[0] == "k" else {b for a, b in m[2] if a in s.dom.get(m[1], (a,))} if m[0] == "t" else {0, 1}
        if t == ():
            continue        # the end of the input
        # text collected earlier in the same call, or read from the contents of a section
        free = any(y[0] == "a" and y[1][0] == "L" for y in t)
        if free:
            n[0] += 1
            if ms != {0}:
                bad.append("text is returned flagged as markup: %s" % text.show(t))
        else:
            n[1] += 1
            if ms != {1}:
                bad.append("markup %s is returned flagged as text" % text.show(t))
    if not n[0] or not n[1]:
        bad.append("no token found")
    return bad


# ---- entities
def value(s, v, cell, name):
    """a number under the assumption that the text `cell` is `name`"""
    if v[0] == "k":
        return v[1]
    if v[0] == "n":
        t = subst(s, v[1], cell, name)
        return len(t) if t is not None else None
    if v[0] == "t":
        a = v[1]
        if a[0] == "at" and a[2][0] == "k":
            t = subst(s, a[1], cell, name)
            if t is None:
                return None
            c = (t + b"\0")[a[2][1]] if a[2][1] <= len(t) else None
            return dict(v[2]).get(c)
        return None
    if v[0] == "u" and isinstance(v[1], tuple):
        u = v[1]
        if u[0] == "strtol":
            p, base = u[1], u[2]
            if p[0] != "c" or p[2][0] != "k" or base[0] != "k":
                return None
            t = subst(s, p[1], cell, name)
            if t is None:
                return None
            t = t[p[2][1]:].decode("latin-1")
            m = re.match(r"\s*[+-]?(0[xX](?=[0-9a-fA-F]))?", t) if base[1] in (0, 16) else re.match(r"\s*[+-]?", t)
            bb = base[1] or (16 if "x" in m.group(0).lower() else 8 if re.match(r"\s*[+-]?0", t) else 10)
            digits = "0123456789abcdefghijklmnopqrstuvwxyz"[:bb]
            j = m.end()
            n = 0
            while j < len(t) and t[j].lower() in digits:
                n = n * bb + digits.index(t[j].lower())
                j += 1
            n = min(n, (1 << 63) - 1)
            return (-n if "-" in m.group(0) else n) % (1 << 64)
        if u[0] in ("trunc", "zext", "sext") and len(u) == 3:
            x = value(s, u[2], cell, name)
            return None if x is None else x % (1 << u[1])
        if u[0] in ("add", "sub") and len(u) == 4:
            x, y = value(s, u[2], cell, name), value(s, u[3], cell, name)
            return None if None in (x, y) else (x + y if u[0] == "add" else x - y) % (1 << u[1])
    return None


def subst(s, t, cell, name):
    r = b""
    for x in t:
        if x[0] == "l":
            r += x[1]
        elif x[0] == "a" and x[1] == cell:
            r += name
        elif x[0] == "a" and x[1][0] == "sub" and len(x[1]) == 4:
            u = subst(s, x[1][1], cell, name)
            a, b = value(s, x[1][2], cell, name), value(s, x[1][3], cell, name) if x[1][3] else (1 << 64) - 1
            if u is None or a is None or b is None:
                return None
            r += u[a:a + b]
        else:
            return None
    return r


def holds(s, key, cell, name):
    """truth of a recorded condition under that assumption, or None"""
    if key[0] == "b" and key[1] == "eq":
        a, b = subst(s, key[2], cell, name), subst(s, key[3], cell, name)
        return None if None in (a, b) else a == b
    if key[0] == "b" and key[1] == "not":
        h = holds(s, key[2], cell, name)
        return None if h is None else not h
    if key[0] == "u" and isinstance(key[1], tuple) and key[1][0] == "cmp":
        p, a, b = key[1][1:4]
        x, y = value(s, a, cell, name), value(s, b, cell, name)
        if None in (x, y):
            return None
        if p[0] == "s":
            x, y = text.sg(x, 64), text.sg(y, 64)
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[-2:]]
    return None


def entity(R, name):
    """what the reader makes of the entity &name; in running text: (set of texts appended or None, problems)"""
    res, bad = set(), []
    for k, s, x, ev, loops, inner in R.segments():
        gets = [e[1] for e in ev if e[0] == "get"]
        if not gets or ev[0][0] != "get" or 38 not in s.dom[gets[0]] or any(e[0] == "eof" for e in ev):
            continue
        if not loops:
            bad.append("an ampersand doesn't start an entity")
            continue
        h = loops[-1]
        # the name is the text changed by the loop
        cells = {c[1] for (hh, c) in R.W.wide if hh == h and c[0] == "str"}
        if inner:
            # an iteration of the loop: every character but the terminator is collected
            if len(cells) != 1 or x.idx != h:
                bad.append("the name of an entity isn't collected in one text")
                continue
            c = next(iter(cells))
            g = gets[-1]
            want = join((("a", ("L", h, c)),), s.char(text.tab(g, {b: b for b in s.dom[g]})))
            t = s.content(c)
            # the loop may collect the character read before it was entered
            if t != s.text(want) and not (len(t) == 2 and t[0] == ("a", ("L", h, c)) and t[1][0] == "t"):
                bad.append("the name of an entity isn't collected")
            continue
        if len(cells) != 1:
            if k != "throw":
                bad.append("the name of an entity isn't collected in one text")
            continue
        cell = ("L", h, next(iter(cells)))
        # consistent with this name?
        ok = True
        if cell in s.eq and s.eq[cell] != name or name in s.ne.get(cell, ()):
            ok = False
        for key, tr in s.hist:
            hd = holds(s, key, cell, name)
            if hd is not None and hd != tr:
                ok = False
        for a, d in s.dom.items():
            if a[0] == "at" and a[2][0] == "k":
                v = value(s, ("t", a, tuple((b, b) for b in BYTES)), cell, name)
                if v is not None and v not in d:
                    ok = False
        if not ok:
            continue
        if k == "throw":
            bad.append("the reader reports it as an error")
            continue
        t = s.content(R.cell) if k == "back" else s.content(R.res)
        t0 = s.text((("a", R.T),))
        o = None
        if t[:len(t0)] == t0 and len(t0) == 1 and t0[0][0] == "a":
            o = b""
            for y in t[len(t0):]:
                if y[0] == "l":
                    o += y[1]
                elif y[0] == "a" and y[1][0] == "chr":
                    v = value(s, y[1][1], cell, name)
                    o = None if v is None or o is None else o + bytes([v & 255])
                elif y[0] == "t":
                    v = value(s, ("t", y[1], tuple((a, c[0]) for a, c in y[2])), cell, name)
                    o = None if v is None or o is None else o + bytes([v & 255])
                else:
                    o = None
                if o is None:
                    break
        res.add(o)
    return res, bad


# ---- CDATA sections
def linv(v, d=6):
    """a number as a linear form over unknown numbers"""
    if v[0] == "k":
        return {"": text.sg(v[1], 64)}
    if d and v[0] == "u" and isinstance(v[1], tuple) and len(v[1]) == 4 and v[1][0] in ("add", "sub") and v[1][1] == 64:
        a, b = linv(v[1][2], d - 1), linv(v[1][3], d - 1)
        s = 1 if v[1][0] == "add" else -1
        return {k: a.get(k, 0) + s * b.get(k, 0) for k in set(a) | set(b)}
    if d and v[0] == "u" and isinstance(v[1], tuple) and len(v[1]) == 4 and v[1][0] == "xor" and v[1][3] == ("k", (1 << 64) - 1):
        a = linv(v[1][2], d - 1)
        r = {k: -c for k, c in a.items()}
        r[""] = r.get("", 0) - 1
        return r
    if v[0] == "n" and isinstance(v[1], tuple) and len(v[1]) > 1:
        r = {}
        for y in v[1]:
            if y[0] == "l":
                r[""] = r.get("", 0) + len(y[1])
            else:
                r[("n", (y,))] = r.get(("n", (y,)), 0) + 1
        return r
    return {v: 1}


def lindiff(a, b):
    """the constant a-b, or None"""
    a, b = linv(a), linv(b)
    d = {k: a.get(k, 0) - b.get(k, 0) for k in set(a) | set(b)}
    c = d.pop("", 0)
    return None if any(d.values()) else c


def same(a, b):
    return lindiff(a, b) == 0


NPOS = text.K((1 << 64) - 1)


def cdata_written(F):
    """problems with the way a CDATA section is written"""
    bad, n = [], [0, 0]
    out = (("arg", 0), 0)
    src = (("a", ("S", (("arg", 1), 0))),)
    if F.args[0].ty != "ptr":
        return ["unexpected signature"]

    def found(v):
        """(start, pattern) if v is the position of the first terminator from start on"""
        return (v[1][3], v[1][2]) if v[0] == "u" and isinstance(v[1], tuple) and v[1][0] == "find" and v[1][1] == src else None

    def isnpos(s, v, tr):
        for key, t in s.hist:
            if key[0] == "u" and key[1][0] == "cmp" and key[1][1] == "eq" and v in key[1][2:4] and NPOS in key[1][2:4]:
                return t == tr
        return False

    def pieces(s, t, h):
        """what follows the text of the loop header"""
        return t[1:] if t and t[0] == ("a", ("L", h, out)) else None

    def piece(s, p, starts):
        return p[0] == "a" and p[1][0] == "sub" and p[1][1] == src and any(same(p[1][2], x) for x in starts)

    def cursor(s, h):
        return [v for c, v in s.inloop[h][2].items()] + [v for c, v in s.inloop[h][0].items() if v[0] in ("u", "k")]

    def on_back(s, h):
        n[0] += 1
        t = pieces(s, s.content(out), h.idx)
        if t is None:
            bad.append("what was written before is not kept")
            return
        ok = len(t) == 2 and t[1] == ("l", b"]]><![CDATA[") and piece(s, t[0], cursor(s, h.idx))
        if ok:
            start, ln = t[0][1][2], t[0][1][3]
            ends = ("u", ("add", 64, start, ln))
            # the piece ends inside the terminator found, and the next one starts where it ends
            pos = [v for v in list(s.val.values()) if found(v)]
            k = [lindiff(ends, p) for p in pos if same(found(p)[0], start) and term(found(p)[1]) and isnpos(s, p, False)]
            nxt = [W.v(s, v) for i in h.insts if i.op == "phi" for v, pb in i.inc if (id(pb), id(h)) in W.back] + list(s.mem.values())
            ok = any(x in (1, 2) for x in k) and any(same(x, ends) for x in nxt if x[0] in ("u", "k"))
        if not ok:
            bad.append("a piece of the text is written as %s" % text.show(t))

    def term(p):
        return p[0] == "c" and p[1] == (("l", b"]]>"),) or p == (("l", b"]]>"),)

    def on_ret(s, i, v):
        n[1] += 1
        t = s.content(out)
        h = t[0][1][1] if t and t[0][0] == "a" and t[0][1][0] == "L" else None
        if h is None:
            ok = len(t) == 4 and t[1] == ("l", b"<![CDATA[") and t[3] == ("l", b"]]>") and t[2] == src[0] and any(found(x) and isnpos(s, x, True) and same(found(x)[0], text.K(0)) for x in list(s.val.values()))
        else:
            p = t[1:]
            ok = len(p) == 2 and p[1] == ("l", b"]]>") and piece(s, p[0], cursor(s, h))
            if ok:
                start, ln = p[0][1][2], p[0][1][3]
                ok = ln == NPOS and any(found(x) and same(found(x)[0], start) and term(found(x)[1]) and isnpos(s, x, True) for x in list(s.val.values()))
        if not ok:
            bad.append("the end of the text is written as %s" % text.show(t))

    W = text.Walk.__new__(text.Walk)
    first = []

    W.__init__(F, on_ret=on_ret, on_back=on_back)
    # what is written first
    heads = [c for (h, c) in W.wide if c == ("str", out)]
    if heads:
        for s0 in W.first.get(("str", out), ()):
            if s0 != (("a", ("S", out)), ("l", b"<![CDATA[")):
                first.append(text.show(s0))
        if first or not W.first.get(("str", out)):
            bad.append("the section starts with %s" % first)
    if not n[1]:
        bad.append("no way through it was found")
    return bad


def cdata_read(R):
    """problems with the way a CDATA section is read; None if no section is recognised"""
    bad, n = [], [0, 0]
    for k, s, x, ev, loops, inner in R.segments():
        gets = [e[1] for e in ev if e[0] == "get"]
        if len(gets) < 2 or not (s.dom[gets[0]] == {60} and s.dom[gets[1]] == {33}):
            continue
        lead = [c for c, l in s.eq.items() if l == b"[CDATA["]
        if not lead:
            continue
        h = loops[-1]
        if loops.index(lead[0][1]) == len(loops) - 1 and inner and x.idx == lead[0][1]:
            continue
        if h == lead[0][1]:
            if k != "throw":
                bad.append("a section ends without its content having been read")
            continue
        if any(e[0] == "eof" for e in ev[[j for j, e in enumerate(ev) if e == ("loop", h)][-1]:]):
            if k != "throw":
                bad.append("a section cut short is accepted")
            continue
        cells = sorted({c[1] for (hh, c) in R.W.wide if hh == h and c[0] == "str" and c[1] != R.res}, key=lambda c: c != R.cell)
        if R.cell not in cells or len(cells) > 2:
            bad.append("the content of a section is not collected in the token's text")
            continue
        before = join(*[s.text((("a", ("L", h, c)),)) for c in cells])
        g = gets[-1]
        ch = s.char(text.tab(g, {b: b for b in s.dom[g]}))
        if inner and x.idx == h:
            n[0] += 1
            now = join(*[s.content(c) for c in cells])
            if now != join(before, ch):
                bad.append("after %s and %s the reader holds %s" % (text.show(before), text.show(ch), text.show(now)))
            continue
        n[1] += 1
        got = s.content(R.res) if k == "ret" else s.content(R.cell)
        t0 = s.text((("a", ("L", h, R.cell)),))
        rest = join(*[s.text((("a", ("L", h, c)),)) for c in cells if c != R.cell], ch)
        if k == "throw" or got != t0 or rest != (("l", b"]]>"),):
            bad.append("a section ends at %s with %s" % (text.show(rest), "an error" if k == "throw" else text.show(got)))
    return bad if n[0] and n[1] else bad or None


# ---- elements
def element_model(mark):
    """model of token() for the walk through an element: a fresh text, and whether it is markup"""
    def call(W, st, i, n):
        if TOKEN.search(n):
            st.seq += 1
            g = st.seq
            p, res = W.v(st, i.ops[1]), W.key(W.v(st, i.ops[0]))
            for k in [k for k in st.mem if k[0] == p[1]]:
                del st.mem[k]
            st.mem[(p[1], mark)] = st.atom(("mark", g), (0, 1))
            st.strs[res] = (("a", ("tok", g)),)
            st.ev += (("token", g),)
            return None
        if ISSPACE.search(n):
            return ("u", ("isspace", st.content(W.key(W.v(st, i.ops[0])))))
        if PARSE.search(n):
            st.ev += (("element", W.v(st, i.ops[1])[1], st.content(W.key(W.v(st, i.ops[2])))),)
        return NotImplemented
    return call


class Element:
    """the reader of one element"""

    def __init__(self, F, mark):
        self.F, self.paths = F, []
        self.mark = mark
        self.W = text.Walk(F, call=element_model(mark), on_ret=lambda s, i, v: self.paths.append(("ret", s, i)), on_back=lambda s, h: self.paths.append(("back", s, h)),
                           on_throw=lambda s, i: self.paths.append(("throw", s, i)))
        self.head = self.content = self.tok = None
        for k, s, x in self.paths:
            if k != "back":
                continue
            for c, t in s.strs.items():
                if ("str", c) in [w[1] for w in self.W.wide if w[0] == x.idx]:
                    t = s.text(t)
                    if len(t) == 2 and t[0] == ("a", ("L", x.idx, c)) and t[1][0] == "a" and t[1][1][:2] == ("L", x.idx):
                        self.head, self.content, self.tok = x.idx, c, t[1][1][2]

    def inner(self, s):
        l = [e[1] for e in s.ev if e[0] == "loop"]
        return l[-1] if l else None

    def markdom(self, s):
        """possible values of the markup flag of the token at the head of the content loop"""
        for a, d in s.dom.items():
            if a[0] == "W" and a[1] == self.head and a[2][0] == "mem" and a[2][1][1] == self.mark:
                return set(d)
        return {0, 1}

    def content_problems(self):
        bad, n = [], [0, 0]
        for k, s, x in self.paths:
            if self.head not in [e[1] for e in s.ev if e[0] == "loop"]:
                continue
            T = ("L", self.head, self.tok)
            cond = "<" if s.eq.get(T) == b"<" else "</" if s.eq.get(T) == b"</" else None
            m = self.markdom(s)
            if k == "back" and x.idx == self.head:
                n[0] += 1
                now = s.content(self.content)
                if now == s.text(join((("a", ("L", self.head, self.content)),), (("a", T),))):
                    nt = s.content(self.tok)
                    if not (len(nt) == 1 and nt[0][0] == "a" and nt[0][1][0] == "tok"):
                        bad.append("the token processed next is %s" % text.show(nt))
                    continue
                if not (cond == "<" and m == {1}):
                    bad.append("text can be lost: after a token that may be text, the content is %s" % text.show(now))
            elif k != "throw" or self.inner(s) != self.head:
                if not (cond == "</" and m == {1}):
                    bad.append("text can be taken for the end of the element")
                elif k == "ret":
                    n[1] += 1
                    c = (("a", ("L", self.head, self.content)),)
                    there = any(kk[0] != self.content[0] and isinstance(kk[0], tuple) and kk[0][0] == "C" and s.text(t) == s.text(c) for kk, t in s.strs.items())
                    if not there and s.text(c) != ():
                        bad.append("the content collected is not recorded")
                    elif not there and not self.changed(s):
                        bad.append("the content of an element is not recorded if it is empty, so the target keeps its previous value")
            elif not (cond and m == {1}) and not any(self.empty(s, e[1]) for e in s.ev if e[0] == "token"):
                bad.append("text can be reported as an error")
        if not n[0] or not n[1]:
            bad.append("no way through the content of an element was found")
        return bad

    def changed(self, s):
        """is a flag known to differ from what it was before the content (child elements were read)"""
        for a, d in s.dom.items():
            if a[0] == "W" and a[1] == self.head and a[2] != ("mem", a[2][1]) or a[0] == "W" and a[1] == self.head and a[2][0] == "mem" and a[2][1][1] != self.mark:
                ini = [vs for (h, c), vs in self.W.entry.items() if h == self.head and c == a[2]]
                if ini and not set(d) & {x[1] for vs in ini for x in vs if x[0] == "k"} and all(x[0] == "k" for vs in ini for x in vs):
                    return True
        return False

    @staticmethod
    def empty(s, g):
        return s.eq.get(("tok", g)) == b""


# ---- writer
def string_writer(F):
    """problems with the way a std::string argument (argument 2) reaches the stream of a writer (argument 0)"""
    bad, n = [], [0, 0]
    src = (("a", ("S", (("arg", 2), 0))),)
    back = []

    def call(W, st, i, nm):
        if QUOTE.search(nm):
            st.strs[W.key(W.v(st, i.ops[0]))] = (("a", ("quote", W.v(st, i.ops[1]))),)
            return None
        return NotImplemented

    def on_back(s, h):
        for c, t in s.strs.items():
            t = s.text(t)
            if len(t) >= 1 and t[0] == ("a", ("L", h.idx, c)) and len(t) > 1:
                back.append((s, h, c, t[1:]))

    def on_ret(s, i, v):
        rets.append(s)

    def end(s):
        for c, t in s.strs.items():
            t = s.text(t)
            if c[0] != ("ld", ("arg", 0), 0):
                continue
            data = [x for x in t if x[0] == "a" and x[1][0] == "L" and any(x[1][2] == c2 and h.idx == x[1][1] for _, h, c2, _ in back)]
            n[0] += 1
            if data and not exhausted(s, src) and not iterates(W, s, None, src):
                bad.append("the string can be left before its last character")
            if len(data) != 1 and src != () and s.content((("arg", 2), 0)) != ():
                bad.append("the element written is %s" % text.show(t))
    rets = []
    W = text.Walk(F, call=call, on_ret=on_ret, on_back=on_back)
    for s in rets:
        end(s)
    for s, h, c, t in back:
        n[1] += 1
        q = t[0][1] if len(t) == 1 and t[0][0] == "a" else None
        if not q or q[0] != "quote":
            bad.append("each step appends %s" % text.show(t))
            continue
        v = q[1]
        ok = False
        if v[0] == "t" and v[1][0] == "at" and v[1][1] == src and v[1][2][0] in ("u", "k"):
            pos = v[1][2]
            first = [vs for (hh, cc), vs in W.entry.items() if hh == h.idx and cc == cell_of(pos)]
            nxt = [W.v(s, x) for i in h.insts if i.op == "phi" for x, pb in i.inc if (id(pb), id(h)) in W.back] + [x for x in s.mem.values() if x[0] in ("u", "k")]
            ok = cell_of(pos) is not None and first and all(f == {text.K(0)} for f in first) and any(lindiff(x, pos) == 1 for x in nxt)
            if not ok:
                bad.append("the characters are not taken one after another from the first")
        elif v[0] in ("t", "u"):
            ok = iterates(W, s, h, src)
            if not ok:
                bad.append("the characters are not taken one after another from the first to the last")
    if not n[1] or not n[0]:
        bad.append("the string is not written character by character")
    return bad


def exhausted(s, src):
    """did the way leave the loop over the characters because they were all taken, or because the writer was told to stop"""
    n = ("n", src)
    for key, tr in s.hist:
        if key[0] == "t" and key[1][0] in ("M", "W") and "('arg', 0)" in str(key[1]):
            return True
        if key[0] != "u" or not isinstance(key[1], tuple) or key[1][0] != "cmp":
            continue
        p, x, y = key[1][1:4]
        if x == text.K(0) and p == "eq" and not tr and "('arg', 0)" in str(y):
            return True
        if n in (x, y) and cell_of(y if x == n else x) is None and (y if x == n else x) != text.K(0):
            continue        # compared with something else than the position
        if x == n and ((p in ("ule", "eq") and tr) or (p in ("ugt", "ne") and not tr)):
            return True
        if y == n and ((p in ("uge", "eq") and tr) or (p in ("ult", "ne") and not tr)):
            return True
    return False


def cell_of(pos):
    return pos[1][2] if pos[0] == "u" and isinstance(pos[1], tuple) and pos[1][0] == "W" else None


def iterates(W, s, h, src):
    """a loop over a string's iterators"""
    names = {}
    for i in W.F.insts():
        if i.iscall:
            names.setdefault(re.sub(r"<.*>", "", i.cname() or ""), 0)
    t = " ".join(i.cname() or "" for i in W.F.insts() if i.iscall)
    return "begin()" in t and "end()" in t and "operator++" in t and ("operator!=" in t or "operator==" in t)


def sinks(F, extra=None):
    """texts a writer function appends to its stream: (segments found unclean), number of texts seen"""
    bad, n = [], [0]
    lcells = {}
    enum = "is_enum<" in F.dem
    rets = []

    def call(W, st, i, nm):
        if QUOTE.search(nm):
            st.strs[W.key(W.v(st, i.ops[0]))] = (("a", ("quote", W.v(st, i.ops[1]))),)
            return None
        if "operator<<(std::ostream&, classdesc::CDATA" in nm:
            k = W.skey(st, i.ops[0])
            st.strs[k] = join(st.content(k), (("a", ("cdata",)),))
            return W.v(st, i.ops[0])
        if "Enum_handle" in nm and "string" in nm.split("(")[0] and "operator" in nm:
            st.strs[W.key(W.v(st, i.ops[0]))] = (("a", ("enum",)),)
            return None
        if FN.search(nm):
            # another writer function: inductively balanced and clean
            for c in [c for c in st.strs if c[0] == ("ld", ("arg", 0), 0)]:
                st.strs[c] = join(st.content(c), (("a", ("nested",)),))
            return None
        return NotImplemented

    def note(s):
        for c, t in s.strs.items():
            t = s.text(t)
            if t and t[0][0] == "a" and t[0][1][0] == "L":
                lcells.setdefault(t[0][1], []).append((t[1:], s))
            if t and t[0][0] == "a" and t[0][1][0] == "L" and t[0][1][2] == c:
                pass

    def on_ret(s, i, v):
        note(s)
        rets.append(s)
    W = text.Walk(F, call=call, on_ret=on_ret, on_back=lambda s, h: note(s), on_throw=lambda s, i: rets.append(s))

    def clean(x, s, depth=4):
        if x[0] == "l":
            return True
        if x[0] == "t":
            return x[1][0] in ("arg", "W") and all(c.isdigit() or c in (b"true", b"false") for _, c in x[2])
        k = x[1]
        if k[0] == "S" and k[1][0][0] == "C" and isinstance(k[1][0][1], tuple) or k[0] == "C" and enum:
            return enum     # the name found in, or created by, the table of enumerators
        if k[0] in ("quote", "cdata", "enum", "nested", "num", "fmt", "pad"):
            return True
        if k[0] == "S":
            # the name passed in, or the schema; the stream's own previous content
            return k[1][0] == ("arg", 1) or k[1][0] == ("arg", 0) or k[1][0] == ("ld", ("arg", 0), 0)
        if k[0] == "sub":
            return all(clean(y, s, depth) for y in k[1])
        if k[0] == "L" and depth:
            st = W.first.get(("str", k[2]), ())
            return all(clean(y, s, depth - 1) for t in st for y in t) and all(clean(y, s2, depth - 1) for t, s2 in lcells.get(k, ()) for y in t if y != x)
        return False
    for s in rets:
        for c, t in s.strs.items():
            if c[0] == ("ld", ("arg", 0), 0):
                for x in s.text(t):
                    n[0] += 1
                    if not clean(x, s):
                        bad.append(text.show((x,)))
    return sorted(set(bad)), n[0]
