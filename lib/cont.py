"""Model of the standard containers, smart pointers and iterators for the walk of text.py: results are terms, uses are events.

    ("index", vec, idx)       an element was addressed without a check by the container
    ("at", vec, idx)          with a check
    ("deref", it)             an iterator was followed
    ("vcall", p, slot)        a virtual function was called on the object at p
    ("resize", vec, n)        a container was given n elements
Objects of smart pointers keep the address they hold in their first word.
"""
import re
import ana, text

NULL = ("p", "null", 0)
SMART = re.compile(r"^std::(tr1::|__detail::|__1::)?(__)?(shared_ptr|shared_ptr_access|unique_ptr|auto_ptr|weak_ptr)<|^std::(tr1::)?__shared_ptr|^std::auto_ptr_ref|^std::__uniq_ptr")
VEC = re.compile(r"^std::(vector|deque|array|__vector_base)<")
MAP = re.compile(r"^std::(map|unordered_map|set|multimap|tr1::unordered_map)<")
ITER = re.compile(r"^std::(_Rb_tree_(const_)?iterator|__detail::_Node_|tr1::__detail::_Hashtable_)|^__gnu_cxx::__normal_iterator")


def term(*x):
    return ("p", x, 0)


def u(*x):
    return ("u", x)


def core(v):
    """a number without its conversions"""
    while v[0] == "u" and isinstance(v[1], tuple) and v[1][0] in ("zext", "sext", "trunc") and len(v[1]) == 3:
        v = v[1][2]
    return v


def event(st, *e):
    st.ev += (e,)


def held(W, st, p, i):
    return W.load(st, p, "ptr", i) if p[0] == "p" else term("held", p)


def either(W, st, c, yes, no):
    r = []
    for tr, v in ((True, yes), (False, no)):
        s2 = st.fork()
        if W.assume(s2, c, tr):
            r.append((s2, v))
    return r


def bare(n):
    """a demangled name without the return type a template instance carries"""
    d, cut = 0, 0
    k = n.find("operator ")
    for j, ch in enumerate(n):
        if j == k:
            break
        if ch in "<(":
            if ch == "(" and d == 0 and not n.startswith("(anonymous", j) and "operator()" not in n[max(0, j - 8):j + 2]:
                break
            d += 1
        elif ch in ">)":
            d -= 1
        elif ch == " " and d == 0:
            cut = j + 1
    return n[cut:]


def model(W, st, i, n):
    """library calls; NotImplemented for the others"""
    a = [W.v(st, o) for o in i.ops]
    f = ana.fname(n)
    if not n.startswith("virtual "):
        n = bare(n)
    if n == "__cxa_guard_acquire":
        return text.K(0)
    if n.startswith("virtual "):
        m = re.match(r"virtual (\S+) slot (\d+)", n)
        event(st, "vcall", a[0], n, i.idx, i.bb.idx, i.ty, len(a))
        if i.ty == "void":
            return None
        return term("vc", n, a[0]) if i.ty == "ptr" else u("vc", n, a[0])
    if n == "__dynamic_cast":
        p = a[0]
        if p == NULL:
            return NULL
        return term("dyn", p)
    if n.startswith("operator new"):
        st.seq += 1
        return term("new", i.bb.idx, i.idx)
    if VEC.match(n):
        v = a[0]
        if f in ("size", "capacity"):
            return u("size", v)
        if f == "empty":
            return W.cmp(st, "eq", u("size", v), text.K(0), 64)
        if f == "operator[]":
            event(st, "index", v, a[1], len(st.hist))
            return term("elt", v, a[1])
        if f == "at":
            event(st, "at", v, a[1], len(st.hist))
            return term("elt", v, a[1])
        if f == "resize":
            event(st, "resize", v, a[1])
            return None
        return NotImplemented
    if MAP.match(n):
        m = a[0]
        if f in ("find", "lower_bound", "upper_bound"):
            if i.ty == "ptr":
                return term(f, m, key(W, st, i, n, a[1]))
        if f in ("end", "cend") and i.ty == "ptr":
            return term("end", m)
        if f in ("begin", "cbegin") and i.ty == "ptr":
            return term("begin", m)
        if f in ("count", "contains"):
            t = u("count", m, key(W, st, i, n, a[1]))
            return t if i.ty != "i1" else ("b", "not", u("cmp", "eq", text.K(0), t))
        if f == "at":
            event(st, "mapat", m, key(W, st, i, n, a[1]))
            return term("mapelt", m, key(W, st, i, n, a[1]))
        if f == "operator[]":
            event(st, "mapindex", m, key(W, st, i, n, a[1]))
            return term("mapelt", m, key(W, st, i, n, a[1]))
        if f in ("insert", "emplace") and len(a) >= 2 and i.ty != "void":
            e = pair(W, st, i, n, a[1:])
            if e is not None:
                event(st, "mapinsert", m, *e)
                return u("ins", m, i.bb.idx, i.idx)
        return NotImplemented
    if re.match(r"_ZNSt4pairI.*EC[12]I", n) and len(a) == 3:        # a constrained constructor, whose name is not readable
        num = "K?[ijlmsthcab]"
        first = bool(re.match(r"_ZNSt4pairI%s" % num, n))
        ts = ["int&" if (j == 0) == first else "char const*&" if "PKc" in n else "std::string&" for j in (0, 1)]
        st.mem[("pair", W.key(a[0]))] = tuple(part(W, st, i, p, t) for p, t in zip(a[1:], ts))
        return None
    m = re.match(r"std::(pair<|make_pair<)", n)
    if m:
        ps = text.params(n)
        if f == "make_pair" and len(a) == 3 or f == "pair" and len(a) == 3:
            st.mem[("pair", W.key(a[0]))] = tuple(part(W, st, i, p, t) for p, t in zip(a[1:], ps))
            return None
        if f == "pair" and len(a) == 2 and ("pair", W.key(a[1])) in st.mem:
            st.mem[("pair", W.key(a[0]))] = st.mem[("pair", W.key(a[1]))]
            return None
        return NotImplemented
    if f in ("operator==", "operator!=") and ("_iterator" in n):
        x, y = (W.load(st, p, "ptr", i) for p in a[-2:])
        return W.cmp(st, "eq" if f == "operator==" else "ne", x, y, 64)
    if ITER.match(n):
        it = W.load(st, a[0], "ptr", i)
        if f in ("operator@a", "operator*"):
            event(st, "deref", it)
            return term("at", it)
        return NotImplemented
    if f in ("operator==", "operator!=") and re.search(r"shared_ptr|unique_ptr", n):
        x, y = (held(W, st, p, i) if j < 1 or "nullptr_t" not in n else NULL for j, p in enumerate(a[-2:]))
        return W.cmp(st, "eq" if f == "operator==" else "ne", x, y, 64)
    if re.search(r"(dynamic|static|const)_pointer_cast", f):
        p = held(W, st, a[1], i)
        r = p if not f.startswith("dynamic") else (NULL if p == NULL else term("dyn", p))
        st.mem[W.key(a[0])] = r
        return None
    if SMART.match(n):
        p = a[0]
        if n.endswith("::*() const") and "::operator " in n:        # C++98 unspecified boolean type
            return either(W, st, W.cmp(st, "eq", held(W, st, p, i), NULL, 64), text.K((1 << 64) - 1), text.K(0))
        if f == "operator bool":
            return W.cmp(st, "ne", held(W, st, p, i), NULL, 64)
        if f == "operator!":
            return W.cmp(st, "eq", held(W, st, p, i), NULL, 64)
        if f in ("get", "operator@a", "operator*"):
            return held(W, st, p, i)
        if f == "release":
            r = held(W, st, p, i)
            st.mem[W.key(p)] = NULL
            return r
        ps = text.params(n)
        if f in ("shared_ptr", "__shared_ptr", "unique_ptr", "auto_ptr", "reset", "operator=", "__uniq_ptr_impl"):
            if f == "reset" and len(a) > 1 and p[0] == "p":
                event(st, "reset", p, a[1])
            if len(a) == 1 or ps and ps[0] == "decltype(nullptr)" or ps and "nullptr_t" in ps[0]:
                st.mem[W.key(p)] = NULL
            elif ps and ("_ptr<" in ps[0]):
                st.mem[W.key(p)] = held(W, st, a[1], i)
                if "const" not in ps[0]:
                    st.mem[W.key(a[1])] = NULL
            else:
                st.mem[W.key(p)] = a[1]
                if f != "reset":
                    event(st, "reset", p, a[1])
            return p if i.ty == "ptr" else None
        if f.startswith("~"):
            return None
        if f == "swap":
            x, y = held(W, st, p, i), held(W, st, a[1], i)
            st.mem[W.key(p)], st.mem[W.key(a[1])] = y, x
            return None
        return NotImplemented
    return NotImplemented


def part(W, st, i, p, t):
    """the text or number a reference stands for"""
    if "basic_string" in t or "std::string" in t:
        return ("text", st.content(W.key(p)))
    if "char const*" in t:
        return ("text", st.cstr(W.load(st, p, "ptr", i)))
    m = re.match(r"(?:unsigned |signed )?(int|long|char|short|bool)\b.*&", t)
    if m:
        return W.load(st, p, {"int": "i32", "long": "i64", "short": "i16", "char": "i8", "bool": "i8"}[m.group(1)], i)
    return p


def pair(W, st, i, n, a):
    """(key, value) of what is inserted"""
    ps = text.params(n)
    if ana.fname(n) == "emplace":
        return tuple(part(W, st, i, p, t) for p, t in zip(a, ps)) if len(a) == 2 else None
    return st.mem.get(("pair", W.key(a[0])))


def key(W, st, i, n, p):
    """the key looked for: the text or number the reference stands for"""
    ps = text.params(n)
    if ps and "string" in ps[-1] and p[0] == "p":
        return ("text", st.content(W.key(p)))
    if ps and p[0] == "p" and re.match(r"(unsigned |signed )?(int|long|char|short|bool)\b", ps[-1]):
        return W.load(st, p, {"int": "i32", "long": "i64", "short": "i16", "char": "i8", "bool": "i8"}[re.split(r"[ &]", ps[-1].replace("unsigned ", "").replace("signed ", ""))[0]], i)
    return p


# ---- facts
def facts(st):
    """(relation, a, b, truth) known on this way, a and b without conversions"""
    for c, tr in st.hist:
        while c[0] == "b" and c[1] == "not":
            c, tr = c[2], not tr
        if c[0] == "u" and isinstance(c[1], tuple) and c[1][0] == "cmp":
            yield c[1][1], c[1][2], c[1][3], tr


def nonnull(st, p):
    if p[0] != "p":
        return False
    b = p[1]
    if b == "null":
        return False
    if isinstance(b, tuple) and b[0] in ("A", "g", "f", "new", "arg", "C", "vc"):
        return True
    return any(r == "eq" and not tr and {x, y} == {p, NULL} for r, x, y, tr in facts(st))


def signed(k):
    return text.sg(k[1], 64 if k[1] >> 32 else 32) if k[0] == "k" else None


def off(v):
    """(term, constant) of a number, conversions left out"""
    v = core(v)
    if v[0] == "k":
        return None, signed(v)
    c = 0
    while v[0] == "u" and isinstance(v[1], tuple) and len(v[1]) == 4 and v[1][0] in ("add", "sub") and v[1][3][0] == "k":
        c += signed(v[1][3]) * (1 if v[1][0] == "add" else -1)
        v = core(v[1][2])
    return v, c


def inside(st, idx, size, low=True):
    """is 0 <= idx < size known; size: predicate on terms"""
    b, c = off(idx)
    lo, hi = not low or b is None and c >= 0, False
    for r, x, y, tr in facts(st):
        x, y = off(x), off(y)
        if r not in ("slt", "sle", "ult", "ule"):
            continue
        if not tr:
            x, y = y, x
            r = {"slt": "sle", "sle": "slt", "ult": "ule", "ule": "ult"}[r]
        d = 0 if r[1:] == "lt" else 1               # x < y + d
        if x[0] == b and y[0] is not None and size(y[0]) and c - x[1] + y[1] + d <= 0:
            hi = True
            lo |= r[0] == "u" and c == x[1]
        if y[0] == b and b is not None and x[0] is None and r[0] == "s":       # b + y1 > x1 - d
            lo |= x[1] - d + 1 - y[1] + c >= 0
    return lo and hi
