#!/usr/bin/env python3
"""C14: the source processors terminate on every input and report what they cannot process."""
import os, re, string, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prep import Tree, BuildFailure, AnalysisBroken
import core, ir, ana
import C15

RULE = ("ranking of every loop and recursion of the processors (LLVM IR of classdesc.cc and insert-friend.cc): each way round takes input that is not put back, or moves a counter, iterator or position towards a tested end; "
        "at the end of input the reader declares it every time; character walks stop at the terminator; text written into fixed buffers fits; failed opens and repositionings end in a failure status")
OWN = ("classdesc.cc", "tokeninput.h", "insert-friend.cc")
EOFBIT = 256
ALL = (1 << 257) - 1
NUL = 1
CTYPE = {
    "isspace": " \t\n\v\f\r", "isalnum": string.ascii_letters + string.digits, "isalpha": string.ascii_letters, "isdigit": string.digits,
    "isupper": string.ascii_uppercase, "islower": string.ascii_lowercase, "ispunct": string.punctuation, "isxdigit": string.hexdigits,
    "isprint": "".join(chr(c) for c in range(32, 127)), "isgraph": "".join(chr(c) for c in range(33, 127)), "iscntrl": "".join(map(chr, list(range(32)) + [127])), "isblank": " \t"}
READ = re.compile(r"^(fgetc|getc|_IO_getc|getc_unlocked|getchar)$")
SCAN = re.compile(r"^(__isoc99_|__isoc23_)?fscanf$")
FIND = re.compile(r"::(find|find_first_of|find_first_not_of)\(")
SIZE = re.compile(r"::(size|length)\(\) const$|^strlen$")


def own(f):
    return bool(f) and f.endswith(OWN)


def cn(i):
    return (i.cname() or "") if i.iscall else ""


def nm(i):
    return i.callee.name if i.iscall and i.callee is not None and i.callee.kind == "func" else ""


def text_of(v):
    b, off, var = ana.strip(v)
    t = getattr(b, "string", None) if b.kind == "global" else None
    return t[off:] if t is not None and not var else None


class Prog:
    """one processor"""

    def __init__(s, T, src, C):
        s.src, s.C = src, C
        bc = T.compile(src, std="c++98", defs=("HAVE_LONGLONG",))
        keep = re.compile(r"tokeninput::(getnextc|nexttok|tokeninput|operator=|operator>)|mark_t")
        small = re.compile(r"^(inline )?(bool |int )?(is[A-Za-z]+|strip\w*)\(")
        s.M = ir.load(bc, T, inline=lambda d, f, n: own(f) and (d.startswith("tokeninput::") and not keep.search(d) and "eof" not in d or bool(small.match(d))),
                      roots=lambda d, f, n: n == "main" or bool(re.search(r"tokeninput::(getnextc|nexttok|tokeninput)\(", d)), recursion_ok=True)
        s.funcs = [F for F in s.M.defs() if F.blocks and own(F.file)]
        s.ofs = C15.fields(T)
        s.get = [F for F in s.funcs if re.search(r"\btokeninput::getnextc\(", F.dem)]
        s.next = [F for F in s.funcs if re.search(r"\btokeninput::nexttok\(", F.dem)]
        if not s.get or not s.next:
            raise AnalysisBroken("tokeninput::getnextc or nexttok not found")
        s.eats = {s.get[0]}
        s.undone = {}
        grown = True
        while grown:
            grown = False
            for F in s.funcs:
                if F not in s.eats and F.name != "main" and s.must_eat(F):
                    s.eats.add(F)
                    grown = True
        for F in s.funcs:     # that they always take something may have changed which blocks count
            s.undone.pop(F, None)

    # -- taking input
    def eating(s, F, body=None):
        """blocks in which input is taken that is not put back (in the loop)"""
        put = s.putback(F, body)
        return {b for b in (body or F.blocks) if any(i.iscall and i.callee in s.eats for i in b.insts) and b not in put}

    def putback(s, F, body=None):
        """blocks from which, having marked the input before, it may be put back to the mark"""
        if body is None and F in s.undone:
            return s.undone[F]
        r = set()
        for R in F.insts():
            if (body is None or R.bb in body) and R.iscall and re.search(r"tokeninput::operator=\(tokeninput::mark_t", cn(R)):
                A = ana.strip(R.ops[1])[0]
                M = [i for i in F.insts() if i.iscall and re.search(r"mark_t::mark_t\(", cn(i)) and i.ops and ana.strip(i.ops[0])[0] is A]
                if len(M) != 1:
                    r |= set(F.blocks)
                    continue
                m = M[0]
                if body is not None and m.bb not in body:
                    # marked before the loop: whatever leads here is undone
                    back, work = {R.bb}, [R.bb]
                    while work:
                        for p in work.pop().preds:
                            if p in body and p not in back:
                                back.add(p)
                                work.append(p)
                    r |= back - {R.bb} if any(i.iscall and i.callee in s.eats and i.idx > R.idx for i in R.bb.insts) else back
                    continue
                # between the mark and putting back, without marking again
                back, work = {R.bb}, [R.bb]
                while work:
                    b = work.pop()
                    if b is m.bb:
                        continue
                    for p in b.preds:
                        if p not in back and (body is None or p in body):
                            back.add(p)
                            work.append(p)
                fw, work = {m.bb}, [m.bb]
                while work:
                    b = work.pop()
                    for n in ana.succs(b):
                        if n not in fw and n is not m.bb:
                            fw.add(n)
                            work.append(n)
                for b in back & fw:
                    if b is m.bb:
                        if any(i.iscall and i.callee in s.eats and i.idx > m.idx for i in b.insts):
                            r.add(b)
                    elif b is R.bb:
                        if any(i.iscall and i.callee in s.eats and i.idx < R.idx for i in b.insts) and not any(i.iscall and i.callee in s.eats and i.idx > R.idx for i in b.insts):
                            r.add(b)
                    else:
                        r.add(b)
        if body is None:
            s.undone[F] = r
        return r

    def must_eat(s, F):
        s.undone.pop(F, None)
        cut = s.eating(F)
        reach, work = set(), [F.blocks[0]]
        while work:
            b = work.pop()
            if b in cut or b in reach:
                continue
            reach.add(b)
            work += ana.succs(b)
        rets = [b for b in reach if b.term.op == "ret"]
        if not rets:
            return bool(cut)
        if not cut or s.count(F) > 150:
            return False
        try:
            W = Ways(s, F, F.blocks[0], set(F.blocks), cut, {}, goal="ret")
        except TooMany:
            return False
        return not W.done

    def count(s, F):
        return len(F.blocks)


class TooMany(Exception):
    pass


class Ways:
    """the ways round a loop (or through a function) on which no input is taken"""

    def __init__(s, P, F, head, body, cut, inner, goal="head", limit=6000, fixed=None, depth=2):
        s.P, s.F, s.head, s.body, s.cut, s.inner, s.goal = P, F, head, body, cut, inner, goal
        s.done, s.n, s.fresh, s.limit, s.need = [], 0, 0, limit, set()
        s.lives, s.found = {}, set()
        env = {}
        base = {}
        if goal == "head":
            for i in head.insts:
                if i.op == "phi":
                    if fixed and i in fixed:
                        env[i] = fixed[i]
                        continue
                    env[i] = ("t", ("h", i), 0)
                    base[("h", i)] = (i, 0, True)
        s.base = base
        s.run(env)
        if goal == "head" and depth:
            # ways after which there is no further round, or one more at most
            keep, last = [], {}
            for end, facts, log in s.done:
                fx = {i: v for i, v in end.items() if v and v[0] == "k"}
                key = frozenset(fx.items())
                if fx and key not in last:
                    last[key] = not Ways(P, F, head, body, cut, inner, limit=limit, fixed=fx, depth=depth - 1).done
                if not fx or not last[key]:
                    keep.append((end, facts, log))
            s.done = keep

    def run(s, env):
        work = [(s.head, 0, None, dict(env), {}, frozenset())]
        seen = set()
        while work:
            b, k, pred, env, facts, log = work.pop()
            live = s.live(b, pred)
            env = {i: v for i, v in env.items() if i in live}
            ids = {v[1] for v in env.values() if v[0] == "t"} | {v[1][1] for v in env.values() if v[0] == "c" and len(v[1]) == 3}
            facts = {q: m for q, m in facts.items() if len(q) != 3 or q[1] in ids}
            key = (b, k, pred, frozenset(env.items()), frozenset(facts.items()), log)
            if key in seen:
                continue
            seen.add(key)
            s.n += 1
            if s.n > s.limit:
                raise TooMany()
            s.block(b, k, pred, env, facts, log, work)

    def live(s, b, pred):
        """values that may still matter in a block"""
        if b not in s.lives:
            seen, work = {b}, [b]
            while work:
                for n in ana.succs(work.pop()):
                    if n is not s.head and n in s.body and n not in seen:
                        seen.add(n)
                        work.append(n)
            r = set()
            for x in seen | {s.head}:
                for i in x.insts:
                    if i.op == "phi":
                        r.update(v for v, _ in i.inc)
                    else:
                        if x is s.head and x not in seen:
                            continue
                        r.update(i.ops)
                        r.update(v for v, _ in (i.var or ()))
            # what those are made from may be asked for again
            grown = list(r)
            while grown:
                v = grown.pop()
                if v.kind == "inst" and v.op in ("icmp", "and", "or", "xor", "select", "zext", "sext", "trunc", "freeze", "gep", "add", "sub", "shl", "lshr") or v.kind == "inst" and v.iscall and (nm(v) in CTYPE or nm(v) in ("strchr", "memchr")):
                    for o in list(v.ops) + [w for w, _ in (v.var or ())]:
                        if o not in r:
                            r.add(o)
                            grown.append(o)
            s.lives[b] = r
        return s.lives[b]

    def val(s, v, env):
        if v.kind == "const":
            return ("k", v.s)
        if v.kind == "null":
            return ("k", 0)
        if v in env:
            return env[v]
        if v.kind == "inst" and v.op in ("zext", "sext", "trunc", "freeze"):
            x = s.val(v.ops[0], env)
            return ("k", -x[1]) if x and x[0] == "k" and v.op == "sext" and wide(v.ops[0]) == 1 else x
        if v.kind == "inst" and v.iscall and v.bb not in s.body and SIZE.search(cn(v)) and v.ops and not changed(ana.strip(v.ops[0])[0], s.body):
            return ("len", 1 if s.pattern(root(v.ops[0])) else 0, root(v.ops[0]))
        return None

    def new(s, t, add, at=None):
        """a term at least add beyond t"""
        n = ("f", (at.bb.idx, at.idx), t[1:], add)
        b = s.base.get(t[1])
        if b:
            s.base[n] = (b[0], b[1] + t[2] + add, False)
        return ("t", n, 0)

    def lb(s, t):
        b = s.base.get(t[1])
        return (b[0], b[1] + t[2], b[2]) if b else None

    def place(s, p, env):
        """key of the character at a pointer"""
        if p.kind == "inst" and p.iscall and "operator[]" in cn(p) and len(p.ops) > 1:
            t = s.val(p.ops[1], env)
            r = root(p.ops[0])
            return (r, t[1], t[2]) if t and t[0] == "t" else ("fix", r, t) if t else None
        if p in env and env[p][0] == "t":
            return (None, env[p][1], env[p][2])
        b, off, var = ana.strip(p)
        if b in env and env[b][0] == "t" and not var:
            return (None, env[b][1], env[b][2] + off)
        if b in env and env[b][0] == "t" and len(var) == 1 and var[0][1] == 1:
            return None
        if not var and b.kind == "arg" and b.idx == 0 and off == s.P.ofs["c"][0] and "tokeninput::" in s.F.dem:
            return ("c",)
        if len(var) == 1 and var[0][1] == 1:
            t = s.val(var[0][0], env)
            if t and t[0] == "t":
                return ((b, 0), t[1], t[2] + off)
        return None

    def mask(s, key, facts):
        return facts.get(key, ALL if key == ("c",) else (1 << 256) - 1)

    # -- conditions on one character, worked out for each of its values
    def keys(s, v, env, depth=12):
        if v.kind in ("const", "null"):
            return set()
        w = env.get(v)
        if w is not None:
            if w[0] == "c":
                return {w[1]}
            if w[0] == "k":
                return set()
            if w[0] == "ref":
                return s.keys(w[1], env, depth - 1)
            return {None}
        if v.kind != "inst" or depth <= 0:
            return {None}
        if v.op in ("icmp", "add", "sub", "and", "or", "xor", "zext", "sext", "trunc", "select", "shl", "lshr", "freeze"):
            r = set()
            for o in v.ops:
                r |= s.keys(o, env, depth - 1)
            return r
        if v.iscall and (nm(v) in CTYPE or nm(v) in ("toupper", "tolower")):
            return s.keys(v.ops[0], env, depth - 1)
        if v.iscall and nm(v) in ("strchr", "memchr") and text_of(v.ops[0]) is not None:
            return s.keys(v.ops[1], env, depth - 1)
        return {None}

    def ev(s, v, env, key, c):
        if v.kind == "const":
            return v.s
        if v.kind == "null":
            return 0
        w = env.get(v)
        if w is not None:
            if w[0] == "c":
                return -1 if c == EOFBIT else c
            if w[0] == "k":
                return w[1]
            if w[0] == "ref":
                return s.ev(w[1], env, key, c)
        o = [s.ev(x, env, key, c) for x in v.ops] if v.op not in ("call", "invoke") else []
        wd = lambda x: getattr(x, "width", None) or 32
        if v.op in ("zext", "freeze"):
            return o[0]
        if v.op == "sext":
            return o[0]
        if v.op == "trunc":
            return o[0]
        if v.op == "add":
            return o[0] + o[1]
        if v.op == "sub":
            return o[0] - o[1]
        if v.op == "and":
            return o[0] & o[1]
        if v.op == "or":
            return o[0] | o[1]
        if v.op == "xor":
            return int(not o[0]) if v.ops[1].kind == "const" and o[1] in (1, -1) and o[0] in (0, 1) else o[0] ^ o[1]
        if v.op == "shl":
            return (o[0] << (o[1] & 63)) & (2 ** 64 - 1)
        if v.op == "lshr":
            return (o[0] & (2 ** 64 - 1)) >> (o[1] & 63)
        if v.op == "select":
            return o[1] if o[0] else o[2]
        if v.op == "icmp":
            a, b = o
            # characters as bytes: constants of either signedness
            if v.pred in ("eq", "ne"):
                same = a == b or (a != -1 and b != -1 and (a & 255) == (b & 255) and -128 <= a < 256 and -128 <= b < 256) or (isbyte(v.ops[0]) and (a & 255) == (b & 255))
                return int(same == (v.pred == "eq"))
            if v.pred[0] == "u":
                a, b = a & 0xffffffff, b & 0xffffffff
                if isbyte(v.ops[0]):
                    a, b = a & 255, b & 255
            elif isbyte(v.ops[0]):
                a, b = ((a + 128) & 255) - 128, ((b + 128) & 255) - 128
            return int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[v.pred[1:]])
        if v.iscall:
            x = s.ev(v.ops[1] if nm(v) in ("strchr", "memchr") else v.ops[0], env, key, c)
            if nm(v) in CTYPE:
                return int(0 <= x < 256 and chr(x) in CTYPE[nm(v)])
            if nm(v) in ("strchr", "memchr"):
                t = text_of(v.ops[0])
                if nm(v) == "memchr":
                    n = v.ops[2].s if v.ops[2].kind == "const" else len(t) + 1
                    return int(chr(x & 255) in (t + "\0")[:n])
                return int(chr(x & 255) in t + "\0")
            return ord(chr(x).lower() if nm(v) == "tolower" else chr(x).upper()) if 0 <= x < 128 else x
        raise AnalysisBroken("cannot evaluate " + v.op)

    def assume(s, c, truth, env, facts):
        if c.kind == "const":
            return [(env, facts)] if bool(c.s) == truth else []
        w = env.get(c)
        if w is not None and w[0] == "k":
            return [(env, facts)] if bool(w[1]) == truth else []
        if w is not None and w[0] == "ref":
            return [({**e, c: ("k", int(truth))}, f) for e, f in s.assume(w[1], truth, env, facts)]
        ks = s.keys(c, env)
        if not ks:
            return [(env, facts)] if bool(s.ev(c, env, None, 0)) == truth else []
        if len(ks) == 1 and None not in ks:
            key = next(iter(ks))
            m = s.mask(key, facts)
            r = 0
            for v in range(257):
                if m >> v & 1 and bool(s.ev(c, env, key, v)) == truth:
                    r |= 1 << v
            if not r:
                return []
            facts = dict(facts)
            facts[key] = r
            return [(env, facts)]
        if c.kind == "inst" and c.op == "xor" and c.ops[1].kind == "const":
            return s.assume(c.ops[0], not truth, env, facts)
        if c.kind == "inst" and (c.op in ("and", "or") or c.op == "select" and (c.ops[1].kind == "const" or c.ops[2].kind == "const")):
            if c.op == "select":
                isand = c.ops[2].kind == "const"
                a, d = c.ops[0], c.ops[1] if isand else c.ops[2]
                if isand and c.ops[2].s or not isand and not c.ops[1].s:
                    return [(env, facts)]
            else:
                isand = c.op == "and"
                a, d = c.ops
            if isand == truth:
                return [y for e, f in s.assume(a, truth, env, facts) for y in s.assume(d, truth, e, f)]
            return s.assume(a, truth, env, facts) + [y for e, f in s.assume(a, not truth, env, facts) for y in s.assume(d, truth, e, f)]
        if c.kind == "inst" and c.op == "icmp":
            a, b = s.val(c.ops[0], env), s.val(c.ops[1], env)
            if b and a and b[0] != "k" and a[0] == "k":
                a, b = b, a
            if a and b and c.pred in ("eq", "ne"):
                if a[0] == "t" and b == ("k", -1) and a[1] in s.found and a[2] >= 0:
                    return [(env, facts)] if (c.pred == "ne") == truth else []
                if a[0] == "t" and b == ("k", -1) and a[1][0] == "h" and a[2] == 0 and (c.pred == "eq") == truth:
                    return [({i: ("k", -1) if v == a else v for i, v in env.items()}, facts)]
                if a[0] == "t" and b[0] == "t" and a[1] == b[1]:
                    return [(env, facts)] if ((a[2] == b[2]) == (c.pred == "eq")) == truth else []
        if c.kind == "inst" and wide(c) == 1 and c not in env:
            env = dict(env)             # it is asked for again where flags are tested
            env[c] = ("k", int(truth))
        return [(env, facts)]

    def block(s, b, k, pred, env, facts, log, work):
        if k == 0 and pred is not None:
            up = {}
            inner = s.inner.get(b) if b is not s.head else None
            if inner is not None and pred in inner[0]:
                return            # another round of an inner loop: covered by the rounds left open below
            for i in b.insts:
                if i.op != "phi":
                    break
                for v, pb in i.inc:
                    if pb is pred:
                        x = s.val(v, env)
                        if x is None and v.kind == "inst" and wide(v) == 1:
                            x = ("ref", v)
                        up[i] = x
            for i, x in up.items():
                if x is None:
                    env.pop(i, None)
                else:
                    env[i] = x
            if inner is not None and not inner[3]:
                steps, need = inner[1], inner[2]
                e2 = dict(env)
                fresh = []
                ok = True
                for i in b.insts:
                    if i.op != "phi":
                        break
                    st = steps.get(i)
                    x = env.get(i)
                    e2.pop(i, None)
                    if x and x[0] == "t" and st is not None and st >= 0:
                        e2[i] = s.new(x, 1 if st >= 1 else 0, i)
                        if i in need:
                            log = log | {("need" if s.mask((None, x[1], x[2]), facts) & NUL else "met", x)}
                            fresh.append((None, e2[i][1], 0))
                        log = log | {("enter", x)}
                f2 = {a: v for a, v in facts.items() if a != ("c",)}
                for q in fresh:
                    f2[q] = ((1 << 256) - 1) & ~NUL
                # values inside the loop are of a later round
                for i in list(e2):
                    if i.kind == "inst" and i.bb in inner[0] and not (i.op == "phi" and i.bb is b):
                        del e2[i]
                work.append((b, s.nphi(b), None, e2, f2, log))
        for i in b.insts[k:]:
            if i.op == "phi":
                continue
            if i.op in ("add", "sub") and i.ops[1].kind == "const":
                x = s.val(i.ops[0], env)
                if x and x[0] == "t":
                    env[i] = ("t", x[1], x[2] + (i.ops[1].s if i.op == "add" else -i.ops[1].s))
                elif x and x[0] == "k":
                    env[i] = ("k", x[1] + (i.ops[1].s if i.op == "add" else -i.ops[1].s))
                else:
                    env.pop(i, None)
            elif i.op == "add":
                x, y = s.val(i.ops[0], env), s.val(i.ops[1], env)
                if x and y and y[0] == "t" and x[0] == "len":
                    x, y = y, x
                bit = [o for o in i.ops if o.kind == "inst" and o.op in ("sext", "zext") and wide(o.ops[0]) == 1]
                if len(bit) == 1 and ((x if bit[0] is i.ops[1] else y) or (0,))[0] == "t":
                    t0 = x if bit[0] is i.ops[1] else y
                    for truth in (True, False):
                        for e, f in s.assume(bit[0].ops[0], truth, env, facts):
                            e = dict(e)
                            e[i] = ("t", t0[1], t0[2] + (0 if not truth else -1 if bit[0].op == "sext" else 1))
                            work.append((b, i.idx + 1, None, e, f, log))
                    return
                if x and y and x[0] == "t" and y[0] == "len":
                    env[i] = s.new(x, y[1], i)
                else:
                    env.pop(i, None)
            elif i.op == "gep":
                x = s.val(i.ops[0], env)
                if x and x[0] == "t" and not i.var:
                    env[i] = ("t", x[1], x[2] + i.off)
                elif x and x[0] == "t" and len(i.var) == 1 and i.var[0][0].kind == "inst" and i.var[0][0].op in ("sext", "zext") and wide(i.var[0][0].ops[0]) == 1:
                    w, sc = i.var[0]
                    for truth in (True, False):
                        for e, f in s.assume(w.ops[0], truth, env, facts):
                            e = dict(e)
                            e[i] = ("t", x[1], x[2] + i.off + (0 if not truth else -sc if w.op == "sext" else sc))
                            work.append((b, i.idx + 1, None, e, f, log))
                    return
                else:
                    env.pop(i, None)
            elif i.op == "load":
                p = s.place(i.ops[0], env)
                if p is not None and (p == ("c",) or isbyte(i)):
                    env[i] = ("c", p)
                else:
                    env.pop(i, None)
            elif i.op in ("zext", "sext", "trunc", "freeze"):
                x = s.val(i.ops[0], env)
                if x is not None and x[0] in ("t", "c", "k", "len"):
                    if i.op == "trunc" and x[0] == "c" and x[1] == ("c",):
                        env.pop(i, None)        # the end of input and a byte may look the same
                    elif i.op == "sext" and x[0] == "k" and wide(i.ops[0]) == 1:
                        env[i] = ("k", -x[1])
                    else:
                        env[i] = x
                else:
                    env.pop(i, None)
            elif i.op == "select":
                cs = []
                for truth in (True, False):
                    for e, f in s.assume(i.ops[0], truth, env, facts):
                        cs.append((truth, e, f))
                if wide(i) != 1 and len(cs) > 1 and any(s.val(o, env) and s.val(o, env)[0] in ("t", "k") for o in i.ops[1:]):
                    for truth, e, f in cs:
                        e = dict(e)
                        x = s.val(i.ops[1 if truth else 2], e)
                        if x is None:
                            e.pop(i, None)
                        else:
                            e[i] = x
                        work.append((b, i.idx + 1, None, e, f, log))
                    return
                env.pop(i, None)
                if len(cs) == 1:
                    x = s.val(i.ops[1 if cs[0][0] else 2], env)
                    if x is not None:
                        env[i] = x
            elif i.op == "store":
                log = log | {("effect",)}
                t = i.ops[1]
                if t.kind == "inst" and t.iscall and "operator[]" in cn(t):
                    r = root(t.ops[0])
                    for key in [q for q in facts if q[0] == r]:
                        del facts[key]
            elif i.iscall:
                env.pop(i, None)
                n, d = nm(i), cn(i)
                if not re.search(r"\) const$|^(strcmp|strncmp|strlen|strchr|memchr|memcmp|is[a-z]+|llvm\.[us](min|max).*|llvm\.dbg.*|llvm\.lifetime.*)$|operator(==|!=|<|\[\]|\*|->)|::(begin|end|back|front|data|at|size|count|find)\(", d or n):
                    log = log | {("effect",)}
                if SIZE.search(d) or n == "strlen":
                    r = root(i.ops[0])
                    env[i] = ("len", 1 if s.pattern(r) else 0, r)
                if n.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
                    xs = [s.val(o, env) for o in i.ops[:2]]
                    if n.startswith("llvm.umin") and ("k", -1) in xs:
                        xs.remove(("k", -1))
                    if all(x and x[0] in ("t", "len", "k") for x in xs):
                        for x in xs:
                            e = dict(env)
                            e[i] = x
                            work.append((b, i.idx + 1, None, e, facts, log))
                        return
                m = FIND.search(d)
                if m and "basic_string" in d or m and "string::" in d:
                    pos = s.val(i.ops[2], env) if len(i.ops) > 2 else None
                    if pos == ("k", -1) or pos and pos[0] == "len" and pos[2] == root(i.ops[0]):
                        env[i] = ("k", -1)       # from the end on nothing is found
                    elif pos and pos[0] == "t":
                        st = text_of(i.ops[1])
                        kinds = [(("k", -1), facts)]
                        cm = None
                        if m.group(1) != "find" and st is not None:
                            cm = sum(1 << ord(ch) for ch in set(st))
                            if m.group(1) == "find_first_not_of":
                                cm = ((1 << 256) - 1) & ~cm
                        r = root(i.ops[0])
                        key = (r, pos[1], pos[2])
                        mk = s.mask(key, facts) & (cm if cm is not None else ALL)
                        if mk:
                            f = dict(facts)
                            f[key] = mk
                            kinds.append((pos, f))
                        nt = s.new(pos, 1, i)
                        s.found.add(nt[1])
                        f = dict(facts)
                        if cm is not None:
                            f[(r, nt[1], 0)] = cm
                        kinds.append((nt, f))
                        for v, f in kinds:
                            e = dict(env)
                            e[i] = v
                            work.append((b, i.idx + 1, None, e, f, log)) if i.op == "call" else s.leave(b, i.normal, e, f, log, work)
                        return
        t = b.term
        if t.op == "ret":
            if s.goal == "ret":
                s.done.append((env, facts, log))
            return
        if t.op == "switch":
            ks = s.keys(t.ops[0], env)
            cs = [(c if isinstance(c, int) else c.s, n) for c, n in t.cases]
            if len(ks) == 1 and None not in ks:
                key = next(iter(ks))
                m = s.mask(key, facts)
                rest = m
                for c, n in cs:
                    hit = sum(1 << v for v in range(257) if m >> v & 1 and (s.ev(t.ops[0], env, key, v) == c or isbyte(t.ops[0]) and (s.ev(t.ops[0], env, key, v) - c) % 256 == 0))
                    rest &= ~hit
                    if hit:
                        f = dict(facts)
                        f[key] = hit
                        s.leave(b, n, env, f, log, work)
                if rest:
                    f = dict(facts)
                    f[key] = rest
                    s.leave(b, t.succs[0], env, f, log, work)
                return
            x = s.val(t.ops[0], env)
            if x and x[0] == "k":
                s.leave(b, next((n for c, n in cs if c == x[1] or c & 0xffffffffffffffff == x[1] & 0xffffffffffffffff), t.succs[0]), env, facts, log, work)
                return
            s.leave(b, t.succs[0], env, facts, log, work)
            for c, n in cs:
                e = env
                if x and x[0] == "t" and c in (-1, (1 << 64) - 1):
                    if x[1] in s.found and x[2] >= 0:
                        continue
                    if x[1][0] == "h" and x[2] == 0:
                        e = {i: ("k", -1) if v == x else v for i, v in env.items()}
                s.leave(b, n, e, facts, log, work)
            return
        if t.op == "br" and t.ops and t.succs[0] is not t.succs[1]:
            for truth, n in ((True, t.succs[0]), (False, t.succs[1])):
                other = t.succs[1] if truth else t.succs[0]
                lg = log
                if other not in s.body:
                    lg = log | {("test", x) for x in s.tested(t.ops[0], env)}
                for e, f in s.assume(t.ops[0], truth, env, facts):
                    s.leave(b, n, e, f, lg, work)
            return
        for n in ana.succs(b):
            s.leave(b, n, env, facts, log, work)

    def pattern(s, r):
        """is it what is searched for (names searched for are not empty)"""
        return any(i.iscall and FIND.search(cn(i)) and len(i.ops) > 2 and root(i.ops[1]) == r for i in s.F.insts())

    def tested(s, c, env, depth=6):
        """positions compared with something in a condition"""
        if c.kind != "inst" or not depth:
            return []
        w = env.get(c)
        if w is not None and w[0] == "ref":
            c = w[1]
        if c.op == "icmp":
            r = []
            for o in c.ops:
                x = s.val(o, env)
                if x and x[0] == "t":
                    r.append(x)
            return r
        if c.op in ("and", "or", "xor", "select", "freeze"):
            return [x for o in c.ops for x in s.tested(o, env, depth - 1)]
        return []

    def nphi(s, b):
        return sum(1 for i in b.insts if i.op == "phi")

    def leave(s, b, n, env, facts, log, work):
        if s.goal == "head" and n is s.head:
            end = {}
            for i in s.head.insts:
                if i.op != "phi":
                    break
                for v, pb in i.inc:
                    if pb is b:
                        end[i] = s.val(v, env)
                        if v is i:
                            end[i] = ("t", ("h", i), 0)
            s.done.append((end, facts, log))
            return
        if n in s.cut or n not in s.body:
            return
        work.append((n, 0, b, env, facts, log))

    # -- what the ways say
    def step(s, P):
        """(least, greatest) change of a position on any way round; None unknown"""
        lo, hi = None, None
        first = True
        for end, facts, log in s.done:
            x = end.get(P)
            l = s.lb(x) if x and x[0] == "t" else None
            if l is None or l[0] is not P:
                return None
            h = l[1] if l[2] else float("inf")
            lo = l[1] if first else min(lo, l[1])
            hi = h if first else max(hi, h)
            first = False
        return (lo, hi)

    def bounded(s, P):
        """on every way round the position is compared with something and the loop left for one outcome"""
        for end, facts, log in s.done:
            if end[P] and end[P][0] == "t" and end[P][1] in s.found:        # a place something was found at
                continue
            if not any(k == "test" and (s.base.get(x[1], (None,))[0] is P) for k, x in pairs(log)):
                return False
        return True

    def walks(s, P, shift=0):
        """on every way round no position is left behind (or, entered within the text, reached) whose character may be the terminator"""
        for end, facts, log in s.done:
            if any(k == "need" for k, x in pairs(log)):
                return False
            for last, t in [(0, end[P])] + [(1, x) for k, x in pairs(log) if k == "enter" and s.base.get(x[1], (None,))[0] is P]:
                start = 1 if shift and t[1] == ("h", P) else 0
                stop = t[2] + (shift and not last)
                for j in range(start, stop):
                    ok = False
                    for key, m in facts.items():
                        if len(key) == 3 and key[1] == t[1] and key[2] == j and not m & NUL:
                            ok = True
                    if not ok:
                        return False
        return True


def pairs(log):
    return [x for x in log if len(x) == 2]


def root(p):
    return ana.strip(p)[:2]


def isbyte(v):
    return wide(v) == 8


def wide(v):
    if v.kind == "const":
        return v.width
    m = re.match(r"i(\d+)$", str(getattr(v, "ty", "")))
    return int(m.group(1)) if m else 0


def cyclic(head, body, cut, edges=()):
    """is there a way round from head to head avoiding blocks and edges"""
    seen, work = set(), [head]
    if head in cut:
        return False
    while work:
        b = work.pop()
        for n in ana.succs(b):
            if (b, n) in edges or n in cut or n not in body:
                continue
            if n is head:
                return True
            if n not in seen:
                seen.add(n)
                work.append(n)
    return False


def iterators(F, body):
    """[(iterator object, blocks advancing it, blocks leaving the loop when it compares)]"""
    r = {}
    for b in body:
        for i in b.insts:
            if i.iscall and re.search(r"operator(\+\+|--)\(", cn(i)) and i.ops:
                a = ana.strip(i.ops[0])[0]
                if a.kind == "inst" and a.op == "alloca":
                    r.setdefault(a, (set(), set()))[0].add(b)
    for a, (adv, ex) in r.items():
        for b in body:
            t = b.term
            if t.op == "br" and t.ops and any(n not in body for n in t.succs):
                for c in conds(t.ops[0]):
                    if c.iscall and re.search(r"operator(!=|==|<)", cn(c)) and any(ana.strip(o)[0] is a for o in c.ops):
                        ex.add(b)
    return [(a, v[0], v[1]) for a, v in r.items()]


def conds(c, depth=6):
    if c.kind != "inst" or not depth:
        return []
    if c.iscall:
        return [c]
    if c.op in ("xor", "and", "or", "select", "freeze", "icmp", "trunc", "zext"):
        return [c] + [x for o in c.ops for x in conds(o, depth - 1)]
    return [c]


def sources(c, depth=8, seen=None):
    """instructions a condition is made from"""
    seen = seen if seen is not None else set()
    if c.kind != "inst" or c in seen or not depth:
        return seen
    seen.add(c)
    if c.op == "phi":
        for v, _ in c.inc:
            sources(v, depth - 1, seen)
    elif not c.iscall and c.op != "load":
        for o in c.ops:
            sources(o, depth - 1, seen)
    return seen


def streams(body):
    """(blocks in which a character is read, edges on which a read is known not to have met the end)"""
    adv, edge, scans = set(), set(), set()
    for b in body:
        for i in b.insts:
            if READ.match(nm(i)):
                adv.add(b)
    for b in body:
        t = b.term
        if t.op == "switch":
            rd = [x for x in sources(t.ops[0]) if x.iscall and (READ.match(nm(x)) or SCAN.match(nm(x)))]
            if rd:
                eofto = [n for c, n in t.cases if (c if isinstance(c, int) else c.s) == -1]
                for n in set(t.succs):
                    if eofto and n not in eofto:
                        edge.add((b, n))
                    cs = [c if isinstance(c, int) else c.s for c, m in t.cases if m is n]
                    if cs and min(cs) > 0 and n is not t.succs[0] and any(SCAN.match(nm(x)) for x in rd):
                        scans.add((b, n))
                    if cs and min(cs) >= 0 and n is not t.succs[0]:
                        edge.add((b, n))
        if t.op != "br" or not t.ops or t.succs[0] is t.succs[1]:
            continue
        for truth, n in ((True, t.succs[0]), (False, t.succs[1])):
            for c, v, _ in ana.flat([(t.ops[0], truth, t)]):
                if c.kind == "inst" and c.op == "icmp":
                    for l, r, sw in ((c.ops[0], c.ops[1], False), (c.ops[1], c.ops[0], True)):
                        rd = [x for x in sources(l) if x.iscall]
                        if r.kind == "const" and rd and all(READ.match(nm(x)) or SCAN.match(nm(x)) for x in rd):
                            if (c.pred == "eq" and v and r.s >= 0) or (c.pred == "ne" and not v and r.s >= 0) or (c.pred == "ne" and v and r.s == -1) or (c.pred == "eq" and not v and r.s == -1) \
                               or (c.pred == "sgt" and v and r.s >= -1 and not sw) or (c.pred == "slt" and not v and r.s >= 0 and not sw):
                                edge.add((b, n))
                            if any(SCAN.match(nm(x)) for x in rd) and ((c.pred == "eq" and v and r.s > 0) or (c.pred == "ne" and not v and r.s > 0) or (c.pred == "sgt" and v and r.s >= 0 and not sw)):
                                scans.add((b, n))
    return adv, edge, scans


def unread(body):
    return any(nm(i) == "ungetc" for b in body for i in b.insts)


def least(h, body, cut):
    """fewest characters taken, less those put back, on a way round"""
    val = {}

    def go(b, path):
        if b in val:
            return val[b]
        w = sum(1 for i in b.insts if READ.match(nm(i))) - sum(1 for i in b.insts if nm(i) == "ungetc")
        r = []
        for n in ana.succs(b):
            if n is h:
                r.append(0)
            elif n in body and n not in cut and n not in path:
                r.append(go(n, path | {b}))
        val[b] = w + min(r) if r else float("inf")
        return val[b]
    return go(h, frozenset())


def lo(v, P, depth=12, seen=()):
    """least v - P along the operands"""
    if v is P:
        return 0
    if v.kind != "inst" or not depth:
        return None
    if v.op == "add" and v.ops[1].kind == "const":
        x = lo(v.ops[0], P, depth - 1, seen)
        return None if x is None else x + v.ops[1].s
    if v.op == "gep" and not v.var:
        x = lo(v.ops[0], P, depth - 1, seen)
        return None if x is None else x + v.off
    if v.op in ("zext", "sext", "trunc", "freeze"):
        return lo(v.ops[0], P, depth - 1, seen)
    if v.op == "phi" and v not in seen:
        r = []
        fl = dict(v.bb.fn.loops())
        for x, pb in v.inc:
            if x is v:
                continue
            if pb in fl.get(v.bb, ()):
                d = lo(x, v, depth - 1, seen + (v,))
                if d is None or d < 0:
                    return None
                continue
            y = lo(x, P, depth - 1, seen + (v,))
            if y is None:
                return None
            r.append(y)
        return min(r) if r else None
    if v.op == "select":
        a, b = lo(v.ops[1], P, depth - 1, seen), lo(v.ops[2], P, depth - 1, seen)
        return None if a is None or b is None else min(a, b)
    return None


def simple(F, head, body, cut):
    """a counter that moves the same way on every way round, tested on every way round"""
    for P in head.insts:
        if P.op != "phi":
            break
        for sign in (1, -1):
            ok = True
            for v, pb in P.inc:
                if pb not in body:
                    continue
                if pb in cut:
                    continue
                d = lo(v, P) if sign > 0 else hi(v, P)
                if d is None or (d < 1 if sign > 0 else d > -1):
                    ok = False
                    break
            if not ok:
                continue
            ex = set()
            for b in body:
                t = b.term
                if t.op == "br" and t.ops and any(n not in body for n in t.succs):
                    for c in conds(t.ops[0]):
                        if c.op == "icmp" and any(lo(o, P) is not None or hi(o, P) is not None for o in c.ops) and not (c.pred in ("eq",) and False):
                            ex.add(b)
            if ex and not cyclic(head, body, cut | ex):
                return P
    return None


def hi(v, P, depth=12):
    if v is P:
        return 0
    if v.kind != "inst" or not depth:
        return None
    if v.op == "add" and v.ops[1].kind == "const":
        x = hi(v.ops[0], P, depth - 1)
        return None if x is None else x + v.ops[1].s
    if v.op == "gep" and not v.var:
        x = hi(v.ops[0], P, depth - 1)
        return None if x is None else x + v.off
    if v.op in ("zext", "sext", "trunc", "freeze"):
        return hi(v.ops[0], P, depth - 1)
    if v.op == "select":
        a, b = hi(v.ops[1], P, depth - 1), hi(v.ops[2], P, depth - 1)
        return None if a is None or b is None else max(a, b)
    return None


def shrinking(head, body, cut):
    """a container that is popped on every way round and tested for emptiness"""
    pops, tests = {}, {}
    for b in body:
        for i in b.insts:
            if i.iscall and re.search(r"::(pop|pop_back|pop_front)\(\)", cn(i)):
                pops.setdefault(ana.strip(i.ops[0])[0], set()).add(b)
        t = b.term
        if t.op == "br" and t.ops and any(n not in body for n in t.succs):
            for c in conds(t.ops[0]):
                if c.iscall and re.search(r"::(empty|size)\(\) const", cn(c)):
                    tests.setdefault(ana.strip(c.ops[0])[0], set()).add(b)
    return any(not cyclic(head, body, cut | pops[a]) and not cyclic(head, body, cut | tests.get(a, set())) and tests.get(a) for a in pops)


def loops(C, P):
    """every loop of the processor"""
    for F in P.funcs:
        ls = sorted(F.loops(), key=lambda x: len(x[1]))
        name = F.dem.split("(")[0].split(" ")[-1]
        inner = {}
        for n, (h, body) in enumerate(ls):
            where = core.where(next((i for i in h.insts if i.op != "phi" and i.loc), h.insts[-1]))
            C.saw("loops", "%s %s" % (name, where))
            how, why, W = judge(P, F, h, body, P.eating(F, body), inner)
            steps = {}
            if W is not None:
                for p in h.insts:
                    if p.op == "phi":
                        d = W.step(p)
                        steps[p] = d[0] if d else None
            else:
                for p in h.insts:
                    if p.op == "phi":
                        ds = [lo(v, p) for v, pb in p.inc if pb in body]
                        steps[p] = min(ds) if ds and None not in ds else None
            inner[h] = (body, steps, W.need if W is not None else set(), how == "input taken")
            if how:
                C.saw("loops shown to end by: " + how)
                C.ob("ends", "%s: %s" % (name, how), True)
            elif why:
                C.bad("ends", name, where, why)
            else:
                C.saw("loops not decided", "%s %s" % (name, where))


def judge(P, F, h, body, eat, inner):
    """(how it ends, why it may not, ways)"""
    if eat and not cyclic(h, body, eat):
        return "input taken", None, None
    cut = set(eat)
    for a, adv, ex in iterators(F, body):
        if not cyclic(h, body, cut | adv) and not cyclic(h, body, cut | ex):
            return "iterator", None, None
    adv, ne, sc = streams(body)
    if (adv or sc) and not cyclic(h, body, cut | adv, sc) and (not cyclic(h, body, cut, ne) or not C15.goes_round(F, h, body, cut, ne)) and (not unread(body) or least(h, body, cut) >= 1):
        return "stream read to its end", None, None
    if simple(F, h, body, cut):
        return "counter", None, None
    if shrinking(h, body, cut):
        return "container emptied", None, None
    W = None
    try:
        W = Ways(P, F, h, body, cut, inner)
    except TooMany:
        pass
    if W is not None:
        if not W.done:
            return "input taken" if eat else "no way round", None, W
        for p in h.insts:
            if p.op != "phi":
                break
            d = W.step(p)
            if d and d[0] is not None:
                if d[0] >= 1 and W.bounded(p):
                    return "position", None, W
                if d[1] <= -1 and W.bounded(p):
                    return "position", None, W
                if d[0] >= 1 and W.walks(p):
                    return "characters up to the terminator", None, W
                if d[0] >= 1 and p.ty == "ptr" and W.walks(p, 1):
                    W.need = {p}
                    return "characters up to the terminator", None, W
    # why not
    if eat or token_loop(P, F, h, body):
        return None, "there is a way round on which no input is taken", W
    if adv or sc:
        return None, "a stream is read past its end", W
    if W is not None:
        for p in h.insts:
            if p.op != "phi":
                break
            d = W.step(p)
            if d and d[0] is not None and d[0] >= 1 and walked(F, p, body):
                return None, "characters are walked over that may be the terminator", W
        if any(still(P, F, h, body, end, log) for end, f, log in W.done):
            return None, "there is a way round on which nothing changes that could end it", W
    return None, None, W


def walked(F, p, body):
    """is a character read through it"""
    for b in body:
        for i in b.insts:
            if i.op == "load" and isbyte(i):
                bs, off, var = ana.strip(i.ops[0])
                if lo(bs, p) is not None or any(lo(v, p) is not None for v, _ in var):
                    return True
                if bs.iscall and "operator[]" in cn(bs) and len(bs.ops) > 1 and lo(bs.ops[1], p) is not None:
                    return True
    return False


def token_loop(P, F, h, body):
    """is it left only by what the token or the current character is"""
    r = False
    for b in body:
        t = b.term
        if t.op in ("br", "switch") and t.ops and any(n not in body for n in t.succs):
            src = set()
            for c in conds(t.ops[0]):
                src |= sources(c)
            m = False
            for c in src:
                if c.iscall:
                    for o in c.ops:
                        bs = ana.strip(o)[0]
                        if bs.kind == "arg" and "tokeninput" in str(F.dem) and bs.idx == 0:
                            m = True
                        if bs.kind == "inst" and bs.iscall and "operator[]" in cn(bs):
                            bs = ana.strip(bs.ops[0])[0]
                        if bs.kind == "arg" and re.search(r"\(tokeninput&", F.dem) and bs.idx == 0:
                            m = True
                if c.op == "load":
                    bs, off, var = ana.strip(c.ops[0])
                    if bs.iscall if bs.kind == "inst" else False:
                        bs = ana.strip(bs.ops[0])[0] if bs.ops else bs
                    if bs.kind == "arg" and bs.idx == 0 and re.search(r"tokeninput::|\(tokeninput&", F.dem):
                        m = True
            r = r or m
    return r


def still(P, F, h, body, end, log=()):
    """on that way nothing changes that the conditions for leaving depend on"""
    if ("effect",) not in log and all(v == ("t", ("h", i), 0) for i, v in end.items()):
        return True
    src = set()
    for b in body:
        t = b.term
        if t.op in ("br", "switch") and t.ops and any(n not in body for n in t.succs):
            for c in conds(t.ops[0]):
                src |= sources(c)
    work = list(src)
    while work:                 # and what those calls and reads are given
        i = work.pop()
        if i.bb in body and (i.iscall or i.op in ("load", "gep")):
            for o in list(i.ops) + [v for v, _ in (i.var or ())]:
                if o.kind == "inst":
                    n = sources(o) - src
                    src |= n
                    work += n
    for i in src:
        if i.bb is h and i.op == "phi":
            x = end.get(i)
            if not (x and x[0] == "t" and x[1][0] == "h" and x[2] == 0 and end.get(x[1][1]) == x):
                return False
        elif i.iscall and i.bb in body:
            if not re.search(r"\) const$|^(strcmp|strncmp|isspace|isalnum|isdigit|isalpha|strchr)$|operator(==|!=)", cn(i)):
                return False
            for o in i.ops:
                if changed(ana.strip(o)[0], body):
                    return False
        elif i.op == "load" and i.bb in body:
            if changed(ana.strip(i.ops[0])[0], body):
                return False
    return True


def changed(base, body):
    for b in body:
        for i in b.insts:
            if i.op == "store" and ana.strip(i.ops[1])[0] is base:
                return True
            if i.iscall and not re.search(r"\) const$|^llvm\.", cn(i)):
                ops = i.ops
                if re.match(r"std::string::[\w+=~\[\]]+\((std::string const&)?[^&*]*\)$", cn(i)):
                    ops = ops[:1]       # what it is made from stays
                if any(ana.strip(o)[0] is base for o in ops):
                    return True
    return False


def shorter_text(F, call):
    """the call is handed a text made as the beginning of one held, up to a
    place found in it, and is only made where that place was found"""
    if not any(o.kind == "inst" and o.op == "alloca" or o.kind == "arg" for o in call.ops):
        return False
    for u in F.insts():
        n = cn(u) if u.iscall else ""
        if re.search(r"::substr\(|::resize\(|::erase\(", n) or \
           re.search(r"::(basic_string|assign)\(std::string const&, unsigned long, unsigned long", n):
            for o in u.ops:
                x = place(o)
                if x is not None and found_before(F, x, call):
                    return True
    return False


def place(v):
    """the search whose outcome the value is"""
    if v.kind == "inst" and v.op == "load":
        base = ana.strip(v.ops[0])[0]
        st = [i for i in v.bb.fn.insts() if i.op == "store" and ana.strip(i.ops[1])[0] is base]
        if len(st) == 1:
            v = st[0].ops[0]
    if v.kind == "inst" and v.iscall and re.search(r"::r?find(_\w+)?\(", cn(v)):
        return v
    return None


def found_before(F, x, call):
    """every way to the call passes where the search was seen to succeed"""
    def found(t, truth):
        for c, v, _ in ana.flat([(t.ops[0], truth, t)]):
            if c.kind == "inst" and c.op == "icmp" and c.pred in ("eq", "ne") and (c.pred == "ne") == bool(v):
                for a, b in ((c.ops[0], c.ops[1]), (c.ops[1], c.ops[0])):
                    if (a is x or place(a) is x) and b.kind == "const" and b.s == -1:
                        return True
        return False
    seen, work = set(), [F.blocks[0]]
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        if b is call.bb:
            return False
        t = b.term
        two = t.op == "br" and len(t.succs) == 2 and t.ops
        work.extend(s for n, s in enumerate(t.succs) if not (two and found(t, n == 0)))
    return True


def recursion(C, P):
    """calls back into a function being executed"""
    callees = {F: {i.callee for i in F.insts() if i.iscall and i.callee in P.funcs} for F in P.funcs}
    reach = {}
    for F in P.funcs:
        seen, work = set(), [F]
        while work:
            for g in callees[work.pop()]:
                if g not in seen:
                    seen.add(g)
                    work.append(g)
        reach[F] = seen
    # on every cycle of calls some function takes input before it calls on
    safe = {}
    for F in P.funcs:
        if F not in reach[F]:
            continue
        eat = P.eating(F)
        for i in F.insts():
            if i.iscall and i.callee in P.funcs and F in reach[i.callee] | {i.callee}:
                # reachable without taking input
                ok = not reach_without(F, i, eat, P)
                sub = not ok and shorter_text(F, i)
                safe.setdefault((F, i.callee), True)
                safe[(F, i.callee)] &= ok or sub
                C.saw("recursive calls", "%s in %s" % (i.callee.dem.split("(")[0], F.dem.split("(")[0]))
    bad = {}
    for (F, G), ok in safe.items():
        if not ok:
            bad.setdefault(F, set()).add(G)
    for F in bad:
        seen, work = set(), [F]
        while work:
            for g in bad.get(work.pop(), ()):
                if g is F:
                    C.bad("recursion-takes-input", F.dem.split("(")[0], core.where(F), "it calls itself without having taken input")
                if g not in seen:
                    seen.add(g)
                    work.append(g)
    C.ob("recursion-takes-input", "all", True)


def reach_without(F, inst, eat, P):
    seen, work = {F.blocks[0]}, [F.blocks[0]]
    while work:
        b = work.pop()
        if b is inst.bb:
            if not any(i.iscall and i.callee in P.eats and i.idx < inst.idx for i in b.insts) or b not in eat:
                return True
            continue
        if b in eat:
            continue
        for n in ana.succs(b):
            if n not in seen:
                seen.add(n)
                work.append(n)
    return False


class EndReader(C15.Reader):
    """the reader entered at the end of input, or run without an output stream"""

    def __init__(s, F, ofs, ctor, atend, echo):
        s.echo, s.atend = echo, atend
        s.backs = []
        super().__init__(F, ofs, not ctor, not ctor)

    def run(s, st):
        if s.atend:
            st.facts[0] = (C15.EOF, frozenset())
        super().run(st)

    def take(s, st, i):
        again = st.last is not None and st.iseof(st.last)
        a = super().take(st, i)
        if again:                       # the end of input stays where it is
            st.facts[a[1]] = (C15.EOF, frozenset())
        return a

    def put(s, st, v, what):
        if s.echo:
            return super().put(st, v, what)

    def block(s, b, st, work):
        if not s.echo and len(st.pending) > 3:
            st.pending = st.pending[-3:]
        n = len(work)
        super().block(b, st, work)
        for w in work[n:]:
            if s.F.dominates(w[0], b):
                s.backs.append((b, w[2]))

    def assume(s, c, truth, st):
        if not s.echo and c.kind == "inst" and c.op == "icmp" and c.ops[1].kind == "null":
            v = s.val(c.ops[0], st) if c.ops[0].kind == "inst" else None
            if v and v[0] == "out":
                return [st] if (c.pred == "eq") == truth else []
        return super().assume(c, truth, st)


def reader(C, T):
    """the reader itself, as C15 sees it: it takes a character or declares the end"""
    bc = T.compile("insert-friend.cc", std="c++98")
    isread = lambda d: bool(re.match(r"(char|int|void)? ?tokeninput::(getnextc|nexttok)\(", d) or re.match(r"tokeninput::(getnextc|nexttok|tokeninput)\(", d))
    M = ir.load(bc, T, inline=lambda d, f, n: d.startswith("tokeninput::") and not isread(d) and "mark_t" not in d and "eof" not in d,
                roots=lambda d, f, n: isread(d) or n == "main", recursion_ok=True)
    ofs = C15.fields(T)
    for F in M.defs():
        m = re.match(r"(?:\w+ )?tokeninput::(getnextc|tokeninput)\(", F.dem)
        if not m or "tokeninput const&" in F.dem or not F.blocks:
            continue
        ctor = m.group(1) == "tokeninput"
        for echo in (True, False):
            C.saw("readers analysed", m.group(1))
            if not ctor:
                R = EndReader(F, ofs, False, True, echo)
                C.ob("end-is-declared", m.group(1), not [x for x in R.out if x[0] == "ret"], core.where(F), "at the end of input the reader goes on returning characters")
                C.ob("end-is-declared", m.group(1) + ": thrown", [x for x in R.out if x[0] == "throw"], core.where(F), "at the end of input the reader does not say so")
            R = EndReader(F, ofs, ctor, False, echo)
            # what makes a loop of the reader go round again is a character, not the end
            for b, st in R.backs:
                C.saw("rounds of the reader's loops")
                last = [v for v in st.pending if v[0] == "a"]
                ok = not last or st.noteof(last[-1]) or st.iseof(last[-1]) and not (len(last) > 1 and st.iseof(last[-2]))
                C.ob("reader-stops-at-the-end", m.group(1), ok, core.where(b.insts[-1]), "the reader goes on reading past the end of input")
            for kind, _, i, st in R.out:
                if kind == "ret" and not ctor:
                    C.saw("ways through the reader")
                    C.ob("reader-takes-a-character", m.group(1), st.cf is not None and st.cf != ("a", 0), core.where(i), "the reader returns without having taken a character")
    C.floor("ways through the reader", 2)


def fmtmax(f, arr=None):
    """most characters a format writes, terminator included; None if unbounded"""
    n, i = 1, 0
    while i < len(f):
        if f[i] != "%":
            n += 1
            i += 1
            continue
        m = re.match(r"%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j)?([a-zA-Z%])", f[i:])
        if not m:
            return None
        fl, w, pr, ln, cv = m.groups()
        size = {"hh": 4, "h": 6, "l": 20, "ll": 20, "z": 20, "j": 20}.get(ln, 11)
        if cv in "di":
            k = size
        elif cv in "uxXo":
            k = size + 2
        elif cv == "c":
            k = 1
        elif cv == "%":
            k = 1
        elif cv == "s" and pr:
            k = int(pr)
        else:
            return None
        n += max(k, int(w or 0))
        i += m.end()
    return n


def buffers(C, P):
    """text written into buffers of fixed size"""
    for F in P.funcs:
        name = F.dem.split("(")[0].split(" ")[-1]
        for i in F.insts():
            n = nm(i)
            if n == "sprintf":
                size = room(i.ops[0])
                t = text_of(i.ops[1])
                need = fmtmax(t) if t is not None else None
                # numbers counted up from zero are not negative
                if need is not None and size is not None and need > size and t.count("%") == 1 and re.search(r"%-?\d*d", t) and nonneg(i.ops[2]):
                    need -= 1
                C.saw("writes into fixed buffers", "%s in %s" % (n, name))
                C.ob("fits-the-buffer", "%s: sprintf %r" % (name, t), size is not None and need is not None and need <= size, core.where(i), "up to %s characters into a buffer of %s" % (need, size))
            elif n == "snprintf":
                size = room(i.ops[0])
                C.saw("writes into fixed buffers", "%s in %s" % (n, name))
                C.ob("fits-the-buffer", "%s: snprintf" % name, size is not None and i.ops[1].kind == "const" and i.ops[1].s <= size, core.where(i), "more than the buffer holds")
            elif SCAN.match(n) or n in ("scanf", "sscanf", "__isoc99_sscanf", "__isoc99_scanf"):
                t = text_of(i.ops[1 if "f" == n.replace("__isoc99_", "")[0] or "sscanf" in n else 0])
                conv = re.findall(r"%(\*?)(\d*)(?:\.\d+)?(hh|h|ll|l)?(\[\^?\]?[^\]]*\]|[a-zA-Z])", t or "")
                args = [o for o in i.ops[2:]]
                k = 0
                C.saw("writes into fixed buffers", "%s in %s" % (n, name))
                for sup, w, ln, cv in conv:
                    if sup:
                        continue
                    if cv[0] == "[" or cv == "s":
                        size = room(args[k]) if k < len(args) else None
                        C.ob("fits-the-buffer", "%s: %s" % (name, t), bool(w) and size is not None and int(w) + 1 <= size, core.where(i), "up to %s characters into a buffer of %s" % (w or "any number of", size))
                    k += 1
            elif n in ("strcpy", "strcat", "gets", "vsprintf", "stpcpy"):
                t = text_of(i.ops[1]) if len(i.ops) > 1 else None
                size = room(i.ops[0])
                C.saw("writes into fixed buffers", "%s in %s" % (n, name))
                C.ob("fits-the-buffer", "%s: %s" % (name, n), n == "strcpy" and t is not None and size is not None and len(t) < size, core.where(i), "text of any length into a buffer of fixed size")
            elif n in ("fgets", "strncpy", "fread"):
                size = room(i.ops[0])
                C.saw("writes into fixed buffers", "%s in %s" % (n, name))
                k = i.ops[1] if n == "fgets" else i.ops[2]
                C.ob("fits-the-buffer", "%s: %s" % (name, n), size is None or k.kind == "const" and k.s <= size, core.where(i), "more than the buffer holds")


def nonneg(v):
    """a static counter from zero, or a local one"""
    if v.kind == "inst" and v.op == "load":
        b, off, var = ana.strip(v.ops[0])
        if b.kind == "global":
            return True
    if v.kind == "inst" and v.op == "phi":
        return all(x.kind == "const" and x.s >= 0 or lo_any(x, v) for x, _ in v.inc)
    return False


def lo_any(x, P):
    d = lo(x, P)
    return d is not None and d >= 0


def room(p):
    b, off, var = ana.strip(p)
    if b.kind == "inst" and b.op == "alloca" and not var:
        m = re.match(r"\[(\d+) x i8\]$", str(b.aty))
        return int(m.group(1)) - off if m else None
    return None


FAIL = re.compile(r"^(exit|_exit|_Exit|quick_exit)$")


def fails(F, b, pred=None):
    """does everything from here end in failure: a non-zero status, an abort, or an exception other than the end of input"""
    seen, work = set(), [(b, pred, {})]
    while work:
        x, pb, env = work.pop()
        up = {}
        for i in x.insts:
            if i.op != "phi":
                break
            for v, q in i.inc:
                if q is pb:
                    up[i] = v.s if v.kind == "const" else env.get(v)
        env = {k: v for k, v in {**env, **up}.items() if v is not None}
        key = (x, frozenset((k, v) for k, v in env.items()))
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 5000:
            return False
        known = lambda v: v.s if v.kind == "const" else env.get(v)
        stop = False
        for i in x.insts:
            if FAIL.match(nm(i)):
                if i.ops[0].kind == "const" and i.ops[0].s != 0:
                    stop = True
                    break
                return False
            if nm(i) in ("abort", "__assert_fail", "_ZSt9terminatev") or cn(i) == "std::terminate()":
                stop = True
                break
            if nm(i) == "__cxa_throw":
                t = ana.strip(i.ops[1])[0]
                if "eof" in getattr(t, "name", ""):
                    return False
                stop = True
                break
        if stop:
            continue
        if x.term.op == "ret":
            if F.name != "main" or not x.term.ops:
                return False
            v = known(x.term.ops[0])
            if v is None or v == 0:
                return False
            continue
        t = x.term
        to = ana.succs(x)
        if t.op == "switch" and known(t.ops[0]) is not None:
            k = known(t.ops[0])
            to = [n for c, n in t.cases if (c if isinstance(c, int) else c.s) == k] or [t.succs[0]]
        elif t.op == "br" and t.ops and truthof(t.ops[0], known) is not None:
            to = [t.succs[0 if truthof(t.ops[0], known) else 1]]
        for n in to:
            work.append((n, x, env))
    return True


def truthof(c, known):
    k = known(c)
    if k is not None:
        return bool(k)
    if c.kind == "inst" and c.op == "icmp" and c.pred in ("eq", "ne"):
        a, b = known(c.ops[0]), known(c.ops[1])
        if a is not None and b is not None:
            return (a == b) == (c.pred == "eq")
    return None


def fail_edges(F, says):
    """[(block, successor)] taken when the condition says so"""
    r = []
    for b in F.blocks:
        t = b.term
        if t.op == "br" and t.ops and t.succs[0] is not t.succs[1]:
            for truth, n in ((True, t.succs[0]), (False, t.succs[1])):
                if any(says(c, v) for c, v, _ in ana.flat([(t.ops[0], truth, t)])):
                    r.append((b, n))
    return r


def failures(C, P):
    """opens and repositionings that fail"""
    for F in P.funcs:
        name = F.dem.split("(")[0].split(" ")[-1]
        opens = [i for i in F.insts() if nm(i) in ("fopen", "fopen64", "freopen", "popen")]
        for o in opens:
            C.saw("files opened", "%s %s" % (name, core.where(o)))
            flow, work = {o}, [o]
            uses = []
            while work:
                v = work.pop()
                for u in F.insts():
                    if u.op in ("phi",) and any(x is v for x, _ in u.inc) or u.op in ("select", "freeze") and v in u.ops:
                        if u not in flow:
                            flow.add(u)
                            work.append(u)
                    elif u.iscall and v in u.ops:
                        uses.append((u, v))
                    elif u.op == "store" and u.ops[0] is v:
                        uses.append((u, v))
            isnull = lambda c, t: c.kind == "inst" and c.op == "icmp" and c.pred in ("eq", "ne") and (c.pred == "eq") == t and any(a in flow and b.kind == "null" for a, b in (c.ops, c.ops[::-1]))
            notnull = lambda c, t: c.kind == "inst" and c.op == "icmp" and c.pred in ("eq", "ne") and (c.pred == "ne") == t and any(a in flow and b.kind == "null" for a, b in (c.ops, c.ops[::-1]))
            ne = set(fail_edges(F, notnull))
            for u, v in uses:
                if nm(u) in ("free",):
                    continue
                C.ob("opened-before-use", "%s: %s" % (name, nm(u) or cn(u).split("(")[0]), not path(o.bb, u.bb, ne, o), core.where(u), "a file is used without knowing that it could be opened")
            mode = text_of(o.ops[1]) or ""
            needed = mode[:1] in "aw" or any("tokeninput" in cn(u) for u, v in uses)
            if needed and uses:
                for b, n in fail_edges(F, isnull):
                    C.ob("failed-open-is-failure", "%s: mode %s" % (name, mode), fails(F, n, b), core.where(b.term), "a file that cannot be opened does not lead to a failure status")
        for r in F.insts():
            if nm(r) in ("fsetpos", "fseek", "fsetpos64", "fseeko"):
                C.saw("repositionings", name)
                bad = lambda c, t: c.kind == "inst" and c.op == "icmp" and r in c.ops and any(x.kind == "const" and x.s == 0 for x in c.ops) and (c.pred == "ne") == t and c.pred in ("eq", "ne")
                es = fail_edges(F, bad)
                C.ob("failed-reposition-is-failure", name, es and all(fails(F, n, b) for b, n in es), core.where(r), "input that cannot be put back is taken for the end of input, or goes unnoticed")


def path(a, b, cut, o):
    """is b reachable from a without those edges (a itself excluded once left)"""
    if a is b:
        return True
    seen, work = {a}, [a]
    while work:
        x = work.pop()
        for n in ana.succs(x):
            if (x, n) in cut or n in seen:
                continue
            if n is b:
                return True
            seen.add(n)
            work.append(n)
    return False


def run():
    C = core.Check("C14", RULE, ["input files are finite", "the standard library does what it documents; containers are not changed while they are iterated over", "names searched for are not empty"])
    T = Tree(need_cds=False)
    reader(C, T)
    for src in ("classdesc.cc", "insert-friend.cc"):
        P = Prog(T, src, C)
        N = P.next[0]
        C.ob("token-takes-input", src, N in P.eats, core.where(N), "a token may be returned without input having been taken")
        loops(C, P)
        recursion(C, P)
        buffers(C, P)
        failures(C, P)
    C.floor("loops", 60)
    C.floor("writes into fixed buffers", 3)
    C.floor("files opened", 2)
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C14", RULE)
