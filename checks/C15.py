#!/usr/bin/env python3
"""C15: the friend inserter passes its input through unchanged."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree, BuildFailure, AnalysisBroken
import core, ir, ana

RULE = ("path analysis of the tokeniser in its echoing configuration (LLVM IR of insert-friend.cc): on every way through the reader each character taken from the input is written exactly once, in order, before the next is handed over, "
        "and the character being looked at is not yet written, so insertions fall between tokens; input is taken and end of input declared nowhere else; whatever else is printed is whole lines of declarations inside a class definition")
IN = re.compile(r"^(fgetc|getc|_IO_getc|getc_unlocked)$")
OUT = re.compile(r"^(fputc|putc|_IO_putc|putc_unlocked)$")
LIT = re.compile(r"^(fprintf|fputs|fwrite)$")
PRINT = re.compile(r"^(printf|puts|putchar|fprintf|fputs|fputc|putc|fwrite|_IO_putc|putchar_unlocked)$|ostream")
EOF = -1


class Bad(Exception):
    pass


class St:
    """pending: characters taken and not yet written (atoms or constants); cf: the character field; facts: atom -> (exact or None, excluded)"""

    def __init__(s, pending=(), cf=None, facts=None, env=None, n=0, last=None, pushed=()):
        s.pending, s.cf, s.facts, s.env, s.n, s.last, s.pushed = tuple(pending), cf, dict(facts or {}), dict(env or {}), n, last, tuple(pushed)

    def copy(s):
        return St(s.pending, s.cf, s.facts, s.env, s.n, s.last, s.pushed)

    def key(s, b, dom):
        ren = {}

        def r(v):
            if isinstance(v, tuple) and v and v[0] == "a":
                return ("a", ren.setdefault(v[1], len(ren)))
            if isinstance(v, tuple) and v and v[0] in ("t", "feof"):
                return (v[0], r(v[1]))
            return v
        pend = tuple(r(x) for x in s.pending)
        cf = r(s.cf)
        psh = tuple(r(x) for x in s.pushed)
        last = r(s.last)
        env = tuple(sorted(((i.bb.idx, i.idx), r(v)) for i, v in s.env.items() if dom(i.bb, b)))
        facts = tuple(sorted((ren[a], f) for a, f in s.facts.items() if a in ren))
        return (b.idx, pend, cf, psh, last, env, repr(facts))

    def fact(s, v):
        if v[0] == "k":
            return (v[1], frozenset())
        return s.facts.get(v[1], (None, frozenset()))

    def learn(s, v, n, eq):
        """v compared with n; False if impossible"""
        if v[0] == "t":
            if not 0 <= n < 128:
                return True
            v = v[1]
        if v[0] == "k":
            return (v[1] == n) == eq
        if v[0] != "a":
            return True
        ex, no = s.fact(v)
        if eq:
            if ex is not None and ex != n or n in no:
                return False
            s.facts[v[1]] = (n, no)
        else:
            if ex is not None:
                return ex != n
            s.facts[v[1]] = (None, no | {n})
        return True

    def iseof(s, v):
        return s.fact(v)[0] == EOF if v[0] in "ak" else False

    def noteof(s, v):
        ex, no = s.fact(v)
        return ex is not None and ex != EOF or EOF in no

    def due(s):
        return [v for v in s.pending if not s.iseof(v)]


class Reader:
    def __init__(s, F, ofs, this_entry, recursive):
        s.F, s.ofs, s.out, s.n, s.rec = F, ofs, [], 0, recursive
        st = St()
        if this_entry:
            st.cf = ("a", 0)
            st.pending = (st.cf,)
            st.n = 1
        else:
            st.cf = None
        s.limit = 200000
        s.run(st)

    def field(s, p):
        b, off, var = ana.strip(p)
        if b.kind == "arg" and b.idx == 0 and not var:
            for k, (o, w) in s.ofs.items():
                if o == off:
                    return k
        return None

    def val(s, v, st):
        if v.kind == "const":
            return ("k", v.s)
        if v in st.env:
            return st.env[v]
        if v.kind == "inst" and v.op in ("zext", "sext", "freeze"):
            return s.val(v.ops[0], st)
        return None

    def run(s, st0):
        F = s.F
        work, seen = [(F.blocks[0], None, st0)], set()
        while work:
            b, pred, st = work.pop()
            st = st.copy()
            if pred is not None:
                new = {}
                for i in b.insts:
                    if i.op != "phi":
                        break
                    for x, pb in i.inc:
                        if pb is pred:
                            w = s.val(x, st)
                            if w is not None:
                                new[i] = w
                            else:
                                new[i] = ("u",)
                st.env.update(new)
            k = st.key(b, F.dominates)
            if k in seen:
                continue
            seen.add(k)
            s.n += 1
            if s.n > 6000:
                raise AnalysisBroken("too many states in " + F.dem)
            try:
                s.block(b, st, work)
            except Bad as e:
                s.out.append(("bad", str(e), s.cur, st))

    def take(s, st, i):
        a = ("a", max([st.n] + [k + 1 for k in st.facts]))
        st.n = a[1] + 1
        st.facts.pop(a[1], None)
        st.last = a
        return a

    def put(s, st, v, what):
        due = st.pending
        # those known to be the end of input are not characters
        while due and st.iseof(due[0]):
            due = due[1:]
        if v is None or v == ("u",):
            raise Bad("something other than a character taken from the input is written")
        if v[0] in "ak" and st.iseof(v):
            raise Bad("the end of input is written as a character")
        if not due:
            raise Bad("a character is written that was already written")
        h = due[0]
        x = v[1] if v[0] == "t" else v
        same = x == h or (x[0] == "k" and st.fact(h)[0] == x[1])
        if not same:
            raise Bad("characters are written out of order, or left out")
        if not st.noteof(h):
            raise Bad("the end of input may be written as a character")
        st.pending = due[1:]

    def block(s, b, st, work):
        for i in b.insts:
            s.cur = i
            if i.op == "load":
                f = s.field(i.ops[0])
                if f == "c":
                    st.env[i] = st.cf if st.cf is not None else ("u",)
                elif f:
                    st.env[i] = (f,)
                else:
                    st.env.pop(i, None)
            elif i.op == "store":
                if s.field(i.ops[1]) == "c":
                    v = s.val(i.ops[0], st)
                    st.cf = v if v is not None else ("u",)
                elif s.field(i.ops[1]) in ("in", "out") and s.F.dem.find("tokeninput::tokeninput(") < 0:
                    raise Bad("the streams are exchanged")
            elif i.op == "trunc":
                v = s.val(i.ops[0], st)
                st.env[i] = ("t", v) if v and v[0] == "a" else v if v else ("u",)
            elif i.op in ("zext", "sext"):
                v = s.val(i.ops[0], st)
                st.env[i] = v if v is not None else ("u",)
            elif i.op == "select":
                a, c = s.val(i.ops[1], st), s.val(i.ops[2], st)
                st.env[i] = a if a == c and a is not None else ("u",)
            elif i.iscall:
                n = i.callee.name if i.callee is not None and i.callee.kind == "func" else ""
                if IN.match(n):
                    if st.pushed:
                        a = st.pushed[-1]
                        st.pushed = st.pushed[:-1]
                    else:
                        a = s.take(st, i)
                    st.env[i] = a
                    st.pending += (a,)
                    if len(st.pending) > 5:
                        raise Bad("characters taken from the input are left unwritten")
                elif n == "ungetc":
                    v = s.val(i.ops[0], st)
                    if v and v[0] == "t":
                        v = v[1]
                    if v is None or v[0] not in "ak":
                        raise Bad("something unknown is put back")
                    due = st.pending
                    if not st.iseof(v):
                        if not due or not (due[-1] == v or v[0] == "k" and st.fact(due[-1])[0] == v[1]):
                            raise Bad("a character other than the last is put back")
                        st.pushed += (due[-1],)
                        st.pending = due[:-1]
                elif OUT.match(n):
                    s.put(st, s.val(i.ops[0], st), n)
                elif LIT.match(n):
                    t = i.ops[1] if n == "fprintf" else i.ops[0]
                    g = ana.strip(t)[0]
                    txt = g.string if g.kind == "global" else None
                    if txt is None or n == "fprintf" and "%" in txt:
                        raise Bad("text that is not from the input is written")
                    for ch in txt:
                        s.put(st, ("k", ord(ch)), n)
                elif n == "feof":
                    st.env[i] = ("feof", st.last) if st.last else ("u",)
                elif s.rec and i.callee is s.F:
                    # itself: passes over the current character and looks at the next
                    if st.cf is None or st.cf[0] not in "ak":
                        raise Bad("the reader is entered with an unknown character")
                    if [v for v in st.pending if not st.iseof(v)] not in ([st.cf], []):
                        raise Bad("the reader is entered with characters not yet written")
                    a = s.take(st, i)
                    st.pending = (a,)
                    st.cf = a
                    st.env[i] = ("t", a)
                elif re.match(r"^(__cxa_|_Unwind|llvm\.|__clang)", n) or i.cname() and "eof" in i.cname():
                    if n == "__cxa_throw":
                        s.out.append(("throw", None, i, st))
                        return
                elif n:
                    st.env.pop(i, None)
        t = b.term
        if t.op == "ret":
            s.out.append(("ret", None, t, st))
            return
        if t.op in ("unreachable", "resume"):
            return
        if t.op == "switch":
            v = s.val(t.ops[0], st)
            cs = list(t.cases)
            for (c, blk) in cs:
                s2 = st.copy()
                cv = c if isinstance(c, int) else c.s
                if v is None or s2.learn(v, cv, True):
                    work.append((blk, b, s2))
            s2 = st.copy()
            if all(v is None or s2.learn(v, c if isinstance(c, int) else c.s, False) for c, _ in cs):
                work.append((t.succs[0], b, s2))
            return
        if t.op == "br" and t.ops and t.succs[0] is not t.succs[1]:
            for truth, n in ((True, t.succs[0]), (False, t.succs[1])):
                for s2 in s.assume(t.ops[0], truth, st.copy()):
                    work.append((n, b, s2))
            return
        for n in ana.succs(b):
            work.append((n, b, st))

    def assume(s, c, truth, st):
        """states in which the condition has that value"""
        if c.kind == "const":
            return [st] if bool(c.s) == truth else []
        if c.kind == "inst" and c.op == "phi" and c in st.env and st.env[c][0] == "k":
            return [st] if bool(st.env[c][1]) == truth else []
        if c.kind == "inst" and c.op == "xor" and c.ops[1].kind == "const":
            return s.assume(c.ops[0], not truth, st)
        if c.kind == "inst" and (c.op in ("and", "or") or c.op == "select"):
            a, d = (c.ops[0], c.ops[1]) if c.op != "select" else (c.ops[0], c.ops[1] if c.ops[2].kind == "const" else c.ops[2])
            isand = c.op == "and" or c.op == "select" and c.ops[2].kind == "const" and not c.ops[2].s
            if c.op == "select" and c.ops[1].kind != "const" and c.ops[2].kind != "const":
                return [st]
            if isand == truth:
                return [y for x in s.assume(a, truth, st) for y in s.assume(d, truth, x.copy())]
            return s.assume(a, truth, st.copy()) + [y for x in s.assume(a, not truth, st.copy()) for y in s.assume(d, truth, x.copy())]
        if c.kind == "inst" and c.op == "icmp":
            l, r = c.ops
            if l.kind == "const":
                l, r = r, l
            v = s.val(l, st) if l.kind == "inst" else None
            w = s.val(r, st)
            eq = {"eq": True, "ne": False}.get(c.pred)
            if v and v[0] in ("out", "in"):      # analysed with both streams open
                if r.kind == "null" and eq is not None:
                    return [st] if eq != truth else []
                return [st]
            if v and v[0] == "feof" and w == ("k", 0) and eq is not None:
                atend = eq != truth
                return [st] if st.learn(v[1], EOF, atend) else []
            if v and w and w[0] == "k":
                if eq is not None:
                    return [st] if st.learn(v, w[1], eq == truth) else []
                # ordering against the end of input
                lo = {"slt": (-2, w[1] - 1), "sle": (-2, w[1]), "sgt": (w[1] + 1, 999), "sge": (w[1], 999)}.get(c.pred)
                if lo and v[0] == "a":
                    inside = lo[0] <= EOF <= lo[1]
                    if inside != truth:
                        return [st] if st.learn(v, EOF, False) else []
                return [st]
            if v and w and v[0] == w[0] == "k" and eq is not None:
                return [st] if (v[1] == w[1]) == (eq == truth) else []
        return [st]


def reader(C, F, ofs, ctor):
    what = "tokeninput()" if ctor else F.dem.split("(")[0]
    R = Reader(F, ofs, not ctor, not ctor)
    C.saw("states of the reader", what)
    C.counts["states of the reader"] = C.counts.get("states of the reader", 0) + R.n - 1
    bads = [x for x in R.out if x[0] == "bad"]
    rets = [x for x in R.out if x[0] == "ret"]
    C.ob("returns", what, rets or bads, core.where(F), "no way through it was found")
    C.ob("written-once-in-order", what, not bads, core.where(bads[0][2]) if bads else core.where(F), bads[0][1] if bads else "")
    for kind, _, i, st in R.out:
        if kind == "ret":
            C.saw("ways through the reader")
            due = st.due()
            cf = st.cf
            if cf is not None and cf[0] == "k" and cf[1] != EOF and due and st.fact(due[-1])[0] == cf[1]:
                cf = due[-1]
            if cf is None or cf[0] not in "ak":
                C.bad("current", what, core.where(i), "what is being looked at is not the character read")
            elif st.iseof(cf):
                C.ob("all-written-at-the-end", what, not due, core.where(i), "at the end of input, characters are left unwritten")
            elif due == [cf]:
                C.ob("current-not-yet-written", what, True)
            elif not due:
                C.bad("current-not-yet-written", what, core.where(i), "the character being looked at is already written: what is inserted after a token ends up inside the next")
            else:
                C.bad("all-but-current-written", what, core.where(i), "characters taken from the input are not written before the next is handed over")
        elif kind == "throw":
            C.saw("ways to the end of input")
            C.ob("all-written-at-the-end", what, not st.due(), core.where(i), "the end of input is declared with characters left unwritten")


def eqeof(c, truth, ofs):
    """does the condition, with that value, say that the current character is the end of input (once it is, it stays so)"""
    return c.kind == "inst" and c.op == "icmp" and c.pred in ("eq", "ne") and (c.pred == "eq") == truth and \
        any(iscur(l, ofs) and r.kind == "const" and r.s == EOF for l, r in (c.ops, c.ops[::-1]))


def iscur(l, ofs, depth=6):
    if l.kind != "inst" or not depth:
        return False
    if l.op == "load":
        b, off, var = ana.strip(l.ops[0])
        return b.kind == "arg" and b.idx == 0 and not var and off == ofs["c"][0]
    if l.op == "phi":
        return all(v is l or iscur(v, ofs, depth - 1) for v, _ in l.inc)
    return False


def run():
    C = core.Check("C15", RULE, ["stdio writes what it is given", "both streams are open (the filter reads stdin and writes stdout)"])
    T = Tree(need_cds=False)
    w = os.path.join(T.src, "w_if_layout.cc")
    bc = T.compile("insert-friend.cc", std="c++98")
    isread = lambda d: bool(re.match(r"(char|int|void)? ?tokeninput::(getnextc|nexttok)\(", d) or re.match(r"tokeninput::(getnextc|nexttok|tokeninput)\(", d))
    M = ir.load(bc, T, inline=lambda d, f, n: d.startswith("tokeninput::") and not isread(d) and "mark_t" not in d and "eof" not in d,
                roots=lambda d, f, n: isread(d) or n == "main", recursion_ok=True)
    ofs = fields(T)
    fns = {}
    for F in M.defs():
        m = re.match(r"tokeninput::(getnextc|nexttok|tokeninput)\(", F.dem)
        if m and "tokeninput const&" not in F.dem:
            fns[m.group(1)] = F
    for n in ("getnextc", "nexttok", "tokeninput"):
        if n not in fns:
            raise AnalysisBroken("tokeninput::%s not found" % n)
    reader(C, fns["getnextc"], ofs, False)
    reader(C, fns["tokeninput"], ofs, True)
    # nothing else touches the streams
    for F in M.defs():
        if F in (fns["getnextc"], fns["tokeninput"]) or not F.blocks:
            continue
        C.saw("functions of the filter", F.dem[:60])
        mine = F.file and (F.file.endswith(("tokeninput.h", "insert-friend.cc")))
        if not mine:
            continue
        for i in F.insts():
            n = i.callee.name if i.iscall and i.callee is not None and i.callee.kind == "func" else ""
            if IN.match(n) or re.match(r"^(ungetc|fread|fgets|scanf|fscanf|fseek|fsetpos|rewind|getchar|gets)$", n) and "mark_t" not in F.dem:
                C.bad("input-taken-by-the-reader", F.dem.split("(")[0], core.where(i), "input is taken without being passed through")
            if i.op == "store" and F is fns["nexttok"]:
                b, off, var = ana.strip(i.ops[1])
                if b.kind == "arg" and b.idx == 0 and not var and off in [o for o, _ in ofs.values()]:
                    C.bad("input-taken-by-the-reader", F.dem.split("(")[0], core.where(i), "the current character is replaced without being written")
        C.ob("input-taken-by-the-reader", F.dem.split("(")[0], True)
    N = fns["nexttok"]
    # the end of input
    for b in N.blocks:
        for i in b.insts:
            if i.iscall and i.callee is not None and i.callee.kind == "func" and i.callee.name == "__cxa_throw":
                C.saw("ways to the end of input")
                ok = only_past(N, b, lambda c, t: eqeof(c, t, ofs), lambda v, k: k == EOF and iscur(v, ofs))
                C.ob("all-written-at-the-end", "tokeninput::nexttok", ok, core.where(i), "the end of input is declared while a character is still to be passed over and written")
    inserts(C, M, fns)
    C.floor("states of the reader", 10)
    C.floor("ways through the reader", 3)
    C.floor("insertions", 1)
    return C.finish()


def fields(T):
    import layout
    with open(os.path.join(T.src, "w_if_layout.cc"), "w") as f:
        f.write('#include <string>\n#include <vector>\nusing namespace std;\n#define private public\n#include "tokeninput.h"\n'
                'extern const unsigned long w_off[]={__builtin_offsetof(tokeninput,c),__builtin_offsetof(tokeninput,inputstream),__builtin_offsetof(tokeninput,outputstream)};\n')
    bc = T.compile(os.path.join(T.src, "w_if_layout.cc"), std="c++98")
    M = ir.load(bc, T, roots=lambda d, f, n: True)
    g = [g for n, g in M.globals.items() if "w_off" in n][0]
    o = [x.s for x in g.init.ops]
    return {"c": (o[0], 4), "in": (o[1], 8), "out": (o[2], 8)}


def literal(v):
    b, off, var = ana.strip(v)
    return b.string if b.kind == "global" and b.init is not None and not off and not var else None


def literals(v, depth=6):
    """the texts it may be, None if others too"""
    t = literal(v)
    if t is not None:
        return {t}
    if v.kind == "inst" and v.op in ("phi", "select") and depth:
        r = set()
        for x in ([a for a, _ in v.inc] if v.op == "phi" else v.ops[1:]):
            l = literals(x, depth - 1)
            if l is None:
                return None
            r |= l
        return r
    return None


def printed(i, n):
    """what a call prints, with its fixed texts put in; [None] if not known"""
    if n in ("putchar", "fputc", "putc") and i.ops[0].kind == "const":
        return [chr(i.ops[0].s)]
    ts = literals(i.ops[0]) if i.ops else None
    if ts is None:
        return [None]
    out = []
    for t in sorted(ts):
        if n == "puts":
            out.append(t + "\n")
            continue
        todo = [t]
        conv = list(re.finditer(r"%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j)?[a-zA-Z%]", t)) if "printf" in n else []
        args = list(i.ops[1:])
        used = [m for m in conv if not m.group().endswith("%")]
        if len(used) <= len(args):
            for k in range(len(used) - 1, -1, -1):      # from the back, so that places stay
                m = used[k]
                l = literals(args[k]) if m.group() == "%s" else None
                if l:
                    todo = [x[:m.start()] + y + x[m.end():] for x in todo for y in sorted(l)]
        out += todo
    return out


def strops(i):
    """(is it ==, literal) if the call compares a string with a literal"""
    n = i.cname() or ""
    m = re.search(r"operator(==|!=)<", n)
    if m and len(i.ops) >= 2:
        for o in i.ops:
            t = literal(o)
            if t is not None:
                return m.group(1) == "==", t
    return None


def known(F, b):
    """{(literal, equal?)} token comparisons that hold on entry to the block"""
    r = set()
    for c, t, _ in ana.flat(ana.guards(F, b)):
        neg = False
        while c.kind == "inst" and c.op == "xor":
            neg = not neg
            c = c.ops[0]
        if c.kind == "inst" and c.iscall:
            e = strops(c)
            if e:
                r.add((e[1], e[0] == (t != neg)))
    return r


def inserts(C, M, fns):
    """what the filter itself prints"""
    main = M.funcs.get("main")
    if main is None:
        raise AnalysisBroken("main not found")
    ins = None
    for F in M.defs():
        if not F.blocks or not (F.file or "").endswith("insert-friend.cc"):
            continue
        for i in F.insts():
            if not i.iscall:
                continue
            n = i.callee.name if i.callee is not None and i.callee.kind == "func" else ""
            if not PRINT.search(n) and "ostream" not in (i.cname() or ""):
                continue
            if any(diag(o) for o in i.ops):
                continue                    # not part of what is passed through
            C.saw("insertions", "%s in %s" % (n, F.dem.split("(")[0]))
            for full in printed(i, n):
                C.ob("whole-lines", "%s: %r" % (F.dem.split("(")[0], full), full is not None and full.endswith("\n"), core.where(i), "what is inserted is not whole lines of fixed form")
                lines = [l for l in (full or "").split("\n") if l]
                C.ob("declarations-only", "%s: %r" % (F.dem.split("(")[0], full), all(re.match(r"(CLASSDESC_\w+\(%s\);|#define CLASSDESC_TDEC template%s|typedef %s %s;)$", l) for l in lines), core.where(i),
                     "what is inserted is not a friend declaration")
                C.ob("inserted-by-the-inserter", "%s: %r" % (F.dem.split("(")[0], full), F is not main, core.where(i), "something is inserted outside class definitions")
    # insertion is entered for class definitions only
    for i in main.insts():
        if i.iscall and re.match(r"insert_friend\(", i.cname() or ""):
            ins = i.callee
            C.saw("class heads")
            k = known(main, i.bb)
            for w in ("friend", "enum"):
                says = lambda c, v, w=w: tokis(c, v, w, False)
                C.ob("class-definitions-only", "main: not after " + w, (w, False) in k or with_flags(main, i, says, lambda x: x is not i and bool(re.search(r"tokeninput::nexttok\(", x.cname() or "")) and not same_head(main, x, i)), core.where(i), "declarations are inserted after %s class, which defines no class" % w)
    C.ob("class-definitions-only", "main", ins is not None, core.where(main), "the inserter is not entered for class heads")
    if ins is None or not ins.blocks:
        return
    F = ins
    for i in F.insts():
        n = i.callee.name if i.iscall and i.callee is not None and i.callee.kind == "func" else ""
        for t in printed(i, n) if PRINT.search(n) else ():
            if "CLASSDESC_ACCESS" in (t or ""):
                C.ob("between-members", "insert_friend: %s" % t.strip(), member_place(F, i), core.where(i), "inserted where no member declaration may be")
        if i.iscall and (PRINT.search(n) or "deal_with_commas" in (i.cname() or "")):
            k = known(F, i.bb)
            C.saw("class heads")
            C.ob("class-definitions-only", "insert_friend: %s" % (n if PRINT.search(n) else "deal_with_commas"), ("{", True) in k or opened(F, i), core.where(i), "inserted before the definition is opened")


def diag(o):
    """standard error"""
    if o.kind == "inst" and o.op == "load":
        o = o.ops[0]
    b = ana.strip(o)[0]
    return b.kind == "global" and (b.name == "stderr" or b.dem in ("std::cerr", "std::clog"))


def edges(F, says, case=None):
    good = set()
    for b in F.blocks:
        t = b.term
        if t.op == "br" and t.ops and t.succs[0] is not t.succs[1]:
            for truth, n in ((True, t.succs[0]), (False, t.succs[1])):
                if any(says(c, v) for c, v, _ in ana.flat([(t.ops[0], truth, t)])):
                    good.add((b, n))
        elif t.op == "switch" and case:
            for cv, n in t.cases:
                if case(t.ops[0], cv.s) and sum(x is n for _, x in t.cases) == 1 and t.succs[0] is not n:
                    good.add((b, n))
    return good


def member_place(F, i):
    """is every way to the instruction since the last token one on which a member declaration may follow: after {, or after private: or protected:"""
    def says(c, v):
        neg = False
        while c.kind == "inst" and c.op == "xor":
            neg = not neg
            c = c.ops[0]
        e = strops(c) if c.kind == "inst" and c.iscall else None
        return bool(e) and e[1] in ("{", "private", "protected", "public") and e[0] == (v != neg)
    takes = lambda x: bool(re.search(r"tokeninput::nexttok\(|gobble_delimited|get_template_args", x.cname() or ""))
    if with_flags(F, i, says, takes):
        return True
    good = edges(F, says)
    seen, work = set(), [(i.bb, i.idx)]
    while work:
        b, k = work.pop()
        if any(x.iscall and re.search(r"tokeninput::nexttok\(|gobble_delimited|get_template_args", x.cname() or "") for x in b.insts[:k]):
            return False
        if b is F.blocks[0]:
            return False
        for p in b.preds:
            if (p, b) not in good and p not in seen:
                seen.add(p)
                work.append((p, len(p.insts)))
    return True


def opened(F, i):
    """every way to the instruction leaves a comparison of the token with { as equal"""
    def says(c, v):
        neg = False
        while c.kind == "inst" and c.op == "xor":
            neg = not neg
            c = c.ops[0]
        e = strops(c) if c.kind == "inst" and c.iscall else None
        return bool(e) and e[1] == "{" and e[0] == (v != neg)
    return only_past(F, i.bb, says) or with_flags(F, i, says, lambda x: False)


def tokis(c, v, w, equal):
    neg = False
    while c.kind == "inst" and c.op == "xor":
        neg = not neg
        c = c.ops[0]
    e = strops(c) if c.kind == "inst" and c.iscall else None
    return bool(e) and e[1] == w and (e[0] == (v != neg)) == equal


def same_head(F, x, i):
    """the token taken between the test of a class head and the inserter: the name of the class, or what stands before it"""
    return F.dominates(x.bb, i.bb) and not any(h is not None and x.bb in body and i.bb not in body for h, body in F.loops())


class Flags:
    """outcomes of conditions kept in flags"""

    def __init__(s, F, says=lambda c, v: False):
        s.says, s.keep = says, set()
        isflag = s.isflag
        for b in F.blocks:
            for i in b.insts:
                if i.op == "phi" and isflag(i):
                    work = [i]
                    while work:
                        v = work.pop()
                        if isflag(v) and v not in s.keep:
                            s.keep.add(v)
                            work += [x for x, _ in v.inc] if v.op == "phi" else v.ops if v.op in ("xor", "and", "or", "select", "freeze") else []

    @staticmethod
    def isflag(v):
        return v.kind == "inst" and str(v.ty) == "i1"

    def ev(s, v, env):
        if v.kind == "const":
            return bool(v.s)
        if v in env:
            return env[v]
        if v.kind == "inst" and v.op == "xor" and s.isflag(v):
            a, b = (s.ev(o, env) for o in v.ops)
            return None if a is None or b is None else a != b
        if v.kind == "inst" and v.op == "select" and s.isflag(v):
            a = s.ev(v.ops[0], env)
            return None if a is None else s.ev(v.ops[1 if a else 2], env)
        return None

    def learn(s, v, truth, env, good):
        """(env, good) if it is truth; None if it cannot be"""
        x = s.ev(v, env)
        if x is not None:
            return (env, good) if x == truth else None
        env = dict(env)
        for c, t, _ in ana.flat([(v, truth, None)]):
            if c in env and env[c] != t:
                return None
            if c in s.keep:
                env[c] = t
            good = good or s.says(c, t)
        if v in s.keep:
            env[v] = truth
        return env, good

    def enter(s, b, pred, env, good):
        """[(env, good)] once the flags of the block have their values"""
        ways = [(dict(env), good, {})]
        for i in b.insts:
            if i.op != "phi":
                break
            if i in s.keep:
                v = next(x for x, p in i.inc if p is pred)
                ways = [(r[0], r[1], {**up, i: t}) for e, g, up in ways for t in (True, False) for r in [s.learn(v, t, e, g)] if r is not None]
        out = []
        for e, g, up in ways:
            e = {v: t for v, t in e.items() if v.bb is not b}
            e.update(up)
            out.append((e, g))
        return out

    def leave(s, b, env, good):
        t = b.term
        if t.op == "br" and t.ops and t.succs[0] is not t.succs[1]:
            for truth, n in ((True, t.succs[0]), (False, t.succs[1])):
                r = s.learn(t.ops[0], truth, env, good)
                if r is not None:
                    yield n, r[0], r[1]
        else:
            for n in ana.succs(b):
                yield n, env, good


def with_flags(F, target, says, resets, limit=20000):
    """on every way to the instruction a condition that says so held (and nothing reset it since); outcomes kept in flags are followed"""
    S = Flags(F, says)
    seen, work = set(), [(F.blocks[0], None, {}, False)]
    while work:
        b, pred, env, good = work.pop()
        for e, g in S.enter(b, pred, env, good):
            key = (b, frozenset(e.items()), g)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > limit:
                return False
            hit = False
            for i in b.insts:
                if i is target:
                    hit = True
                    break
                if i.iscall and resets(i):
                    g = False
            if hit:
                if not g:
                    return False
                continue
            work += [(n, b, e2, g2) for n, e2, g2 in S.leave(b, e, g)]
    return True


def goes_round(F, head, body, cut, edges, limit=20000):
    """is there a round of the loop, and another after it, that takes none of the edges and enters none of the blocks"""
    S = Flags(F)
    seen, work = set(), [(n, head, e) for n, e, _ in S.leave(head, {}, False) if (head, n) not in edges and n in body and n not in cut]
    if head in cut:
        return False
    while work:
        b, pred, env = work.pop()
        for e, g in S.enter(b, pred, env, False):
            if b is head and all((b, n) in edges or n not in body for n, _, _ in S.leave(b, e, False)):
                continue
            if b is head:
                return True
            key = (b, frozenset(e.items()))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > limit:
                return True
            work += [(n, b, e2) for n, e2, _ in S.leave(b, e, False) if (b, n) not in edges and n in body and n not in cut]
    return False


def only_past(F, bb, says, case=None):
    """every way to the block takes an edge on which the condition says so"""
    good = edges(F, says, case)
    seen, work = {F.blocks[0]}, [F.blocks[0]]
    while work:
        b = work.pop()
        if b is bb:
            return False
        for n in ana.succs(b):
            if (b, n) not in good and n not in seen:
                seen.add(n)
                work.append(n)
    return True


if __name__ == "__main__":
    core.main(run, "C15", RULE)
