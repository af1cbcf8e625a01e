"""C07: graphs are serialised once per node, and no state leaks between calls.

The graph functions keep their bookkeeping in function-local statics: a table from nodes to IDs (or back), a list of nodes whose
contents have been deferred and the current depth. Every way through the functions, including every exceptional one, is followed
in the linear value domain, with calls on the table and the list, transfers of IDs and transfers of contents as events.
The recursive transfer of contents is assumed to obey the same rules (induction over depth).
"""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir
from ana import fname
from core import Check, main, where
from prep import Tree, AnalysisBroken
from pathlin import Walk, addl, sub, canon, show

RULE = ("every way, normal or exceptional, through the graph functions: depth restored; bookkeeping emptied exactly at the outermost level; each new node's ID "
        "recorded before its contents, known ones only referred to; deferred contents held by lasting addresses and all processed before the outermost call returns; "
        "both directions defer under the same condition")
KEEP = re.compile(r"access_(un)?pack<|pack_error|::exception|basic_string")
PAIR = re.compile(r"_ZNSt4pairI(?!.*basic_string)|std::pair<(?!.*basic_string).*::pair|std::(pair|__decay|enable_if)<.*std::make_pair<|std::pair<.* std::make_pair<|.*std::(forward|move)<|std::remove_reference")
GRAPH = re.compile(r"^(?:void )?classdesc::(un)?pack_graph<(.*)>\(classdesc::pack_t&")


def load(T, std):
    bc = T.compile("w_graph.cc", std=std, defs=("TR1", "HAVE_LONGLONG"), extra=("-flto", "-fwhole-program-vtables"))
    return ir.load(bc, T, inline=lambda d, f, n: (not f.startswith("/usr") or bool(PAIR.match(d))) and f != "" and not KEEP.search(d),
                   roots=lambda d, f, n: bool(GRAPH.match(d)) or d.startswith(("w_", "f_")) or bool(re.search(r"classdesc::(un)?pack<[^(]*\(classdesc::(un)?pack_t&, std::string const&, classdesc::is_treenode", d)))


class Graph:
    def __init__(self, C, F, un, rmoff, tag):
        self.C, self.F, self.un, self.tag, self.rmoff = C, F, un, tag, rmoff
        self.name = ("unpack" if un else "pack") + "_graph"
        self.thr = {"direct": set(), "defer": set()}
        self.find_state()
        w = Walk(F, on_inst=self.inst, on_ret=lambda st, t: self.leave(st, t, False), on_exc=lambda st, i: self.leave(st, i, True),
                 on_cond=self.cond, on_back=self.back, trust=True, limit=40000)
        self.n = w.n

    def find_state(self):
        """the depth counter is the static the function adds one to; the table and the list are the containers its methods are called on"""
        F = self.F
        lv, mp, rs = set(), set(), set()
        for i in F.insts():
            if i.op == "store" and i.ops[1].kind == "global" and i.ops[0].kind == "inst" and i.ops[0].op == "add" and i.ops[0].ops[0].kind == "inst" \
               and i.ops[0].ops[0].op == "load" and i.ops[0].ops[0].ops[0] is i.ops[1]:
                lv.add(i.ops[1])
            if i.iscall and i.ops and i.ops[0].kind == "global":
                n = i.cname() or ""
                if re.match(r"std::(unordered_)?map<", n):
                    mp.add(i.ops[0])
                elif re.match(r"std::(vector|list|deque|queue|stack)<", n):
                    rs.add(i.ops[0])
        if not (len(lv) == len(mp) == len(rs) == 1):
            raise AnalysisBroken("%s: cannot identify the bookkeeping (depth %d, tables %d, lists %d)" % (F.dem, len(lv), len(mp), len(rs)))
        self.lv, self.mp, self.rs = lv.pop(), mp.pop(), rs.pop()
        self.L0 = "*(%r)" % self.lv

    # ---- transfer
    def ev(self, st, *e):
        st.trail = st.trail + (e,)

    def depth(self, st, above):
        """the k for which depth on entry + k is known to be over the limit, or within it"""
        lim, lev = st.load({"a0": 1, "": self.rmoff}, "i32")[0], {self.L0: 1}
        if above:
            th = [k for k in (-1, 0, 1, 2) if st.prove(sub(addl(lev, {"": k}), addl(lim, {"": 1})))]
            return min(th) if th else None
        th = [k for k in (-1, 0, 1, 2) if st.prove(sub(lim, addl(lev, {"": k})))]
        return max(th) if th else None

    def keyof(self, st, a):
        """what a key argument refers to"""
        return canon(st.load(st.mod(a), "ptr" if not self.un else "i32")[0])

    def inst(self, st, i):
        if i.op == "load" and i.ops[0].kind == "global" and i.ops[0].name.startswith("_ZGV"):
            st.val[id(i)] = ({"": 1}, {"": 1})
            return True
        if i.op == "store" and i.ops[1].kind != "global":
            a = st.mod(i.ops[1])
            r = st.root(a)
            if r.startswith("slot{"):
                st.store(a, st.both(i.ops[0]))
                self.ev(st, "record", r, canon(st.mod(i.ops[0])), i)
                return True
            if r == "a1" and a == {"a1": 1}:
                st.store(a, st.both(i.ops[0]))
                self.ev(st, "assign", canon(st.mod(i.ops[0])), i)
                return True
            return
        if not i.iscall:
            return
        n = i.cname() or ""
        at = "i%d.%d" % (i.bb.idx, i.idx)

        def give(l):
            st.val[id(i)] = (l, l)
            return True
        m = re.match(r"virtual classdesc::pack_t slot (\d+)|virtual classdesc::pack_t::(\w+)", n)
        if m:
            d = st.load(st.mod(i.ops[1]), "ptr")[0]
            if m.group(1) == "1" or m.group(2) == "append":
                self.ev(st, "put", canon(st.load(d, "i32")[0]), canon(d), i)
            else:
                r = {at: 1}
                st.ubs[at] = (1 << 32) - 1
                st.store(d, (r, r))
                self.ev(st, "get", canon(r), canon(d), i)
            return True
        if re.search(r"access_(un)?pack<[^(]*::operator\(\)", n):
            self.ev(st, "contents", canon(st.mod(i.ops[3])), self.depth(st, False), i)
            # the recursive call may change the table, the list and, through cycles, the target
            for r in [st.root(dict(k)) for k in list(st.mem)]:
                if r.startswith(("key{", "iter{", "size{")):
                    st.forget(r, at)
            st.tag["epoch"] = st.tag.get("epoch", 0) + 1
            st.tag["empty"] = False
            return True
        g = i.ops[0] if i.ops and i.ops[0].kind == "global" else None
        meth = fname(n) if "std::" in n else ""
        if g is self.mp:
            e = st.tag.get("epoch", 0)
            if meth in ("count", "find", "operator[]", "at", "contains"):
                k = self.keyof(st, i.ops[1])
                if meth == "operator[]":
                    self.ev(st, "slot", k, i)
                    st.tag["epoch"] = e + 1
                    return give({"slot{%s}" % show(dict(k)): 1})
                if meth == "at":
                    return give({"slot{%s}" % show(dict(k)): 1})
                if meth == "find":
                    self.ev(st, "find", k, i)
                    return give({"iter{%s}" % show(dict(k)): 1})
                a = "count{%s}%d" % (show(dict(k)), e)
                st.ubs[a] = 1
                st.tag[a] = k
                return give({a: 1})
            if meth in ("insert", "emplace"):
                if meth == "insert":
                    b = st.mod(i.ops[1])
                    k, v = st.load(b, "ptr" if not self.un else "i32")[0], st.load(addl(b, {"": 8}), "i32" if not self.un else "ptr")[0]
                else:
                    k, v = [st.load(st.mod(i.ops[j]), t)[0] for j, t in ((1, "i32" if self.un else "ptr"), (2, "ptr" if self.un else "i32"))]
                r = "slot{%s}" % show(k)
                st.store({r: 1}, (v, v))
                self.ev(st, "slot", canon(k), i)
                self.ev(st, "record", r, canon(v), i)
                st.tag["epoch"] = e + 1
                return None if i.ty == "void" else give({"inserted": 1})
            if meth == "end":
                return give({"end": 1})
            if meth == "size":
                self.ev(st, "size", e, i)
                return give({"size%d" % e: 1})
            if meth == "clear":
                self.ev(st, "clear", "table", i)
                return True
            if meth in ("map", "~map", "unordered_map"):
                return True
            raise AnalysisBroken("%s: operation %s on the table is not modelled" % (self.F.dem, meth))
        if g is self.rs:
            if meth in ("push_back", "emplace_back", "push_front"):
                p = st.load(st.mod(i.ops[1]), "ptr")[0]
                self.ev(st, "defer", canon(p), self.depth(st, True), i)
                st.tag["empty"] = False
                return True
            if meth in ("back", "front"):
                e = st.tag.get("pops", 0)
                self.ev(st, "peek", e, i)
                return give({"last%d" % e: 1})
            if meth in ("pop_back", "pop_front"):
                self.ev(st, "pop", i)
                st.tag["pops"] = st.tag.get("pops", 0) + 1
                return True
            if meth in ("size", "empty"):
                st.tag["q" + at] = meth
                return give({"q%s.%s" % (at, st.tag.get("pops", 0)): 1})
            if meth == "clear":
                self.ev(st, "clear", "list", i)
                st.tag["empty"] = True
                return True
            if meth in ("vector", "~vector", "list", "deque"):
                return True
            raise AnalysisBroken("%s: operation %s on the list is not modelled" % (self.F.dem, meth))
        m = re.match(r"std::_Rb_tree_(const_)?iterator<.*::operator(->|\*)\(\) const$", n)
        if m:
            a = st.load(st.mod(i.ops[0]), "ptr")[0]
            r = st.root(a)
            return give({("node{" if r.startswith("iter{") else "node?{") + r + "}": 1})
        if re.match(r"(bool )?std::operator[!=]=\(std::_Rb_tree_", n):
            x, y = [st.root(st.load(st.mod(o), "ptr")[0]) for o in i.ops[:2]]
            if {x[:4], y[:3]} == {"iter", "end"} or {y[:4], x[:3]} == {"iter", "end"}:
                k = x if x.startswith("iter") else y
                a = "found{%s}%s" % (k, n.count("operator=="))
                st.ubs[a] = 1
                st.tag[a] = (k, "operator==" in n)
                return give({a: 1})
        if "operator new(" in n:
            st.tag["new"] = at
            return give({at: 1})
        if re.search(r"virtual classdesc::PtrStoreBase slot \d+$|virtual classdesc::PtrStoreBase::data", n):
            return give({"fresh.%s" % at: 1})
        return None

    def cond(self, st, c, tr, r):
        k, v = None, None
        if r and r[0] in ("eq", "ne", "ugt", "ult", "uge", "ule"):
            p, a, b = r
            x, y = st.lin(a), st.lin(b)
            for l, o in ((x, y), (y, x)):
                if len(l) == 1 and not any(q for q in o if o[q]):
                    k = list(l)[0]
            if k:
                v = not (p == "eq" and not (y or {}).get("", 0) and not x.get("", 0))
        elif r is None and c.kind == "inst":
            l = st.lin(c)
            if len(l) == 1:
                k, v = list(l)[0], tr
        if k is None:
            return
        if k.startswith("count{") and k in st.tag:
            st.tag["known"] = (st.tag[k], v)
        elif k.startswith("found{") and k in st.tag:
            it, eq = st.tag[k]
            st.tag["known"] = (it, v != eq)
        elif k.startswith("q"):
            m = st.tag.get(k.rsplit(".", 1)[0])
            e = (not v) if m == "size" else v
            st.tag["empty"] = e
            if e:
                self.ev(st, "drained", c)


    # ---- rules
    def ob(self, rule, what, ok, i, why):
        self.C.ob(rule, "%s: %s" % (self.name, what), ok, where(i), "%s [%s]" % (why, self.tag))

    def outer(self, st):
        """True: outermost call, False: nested one, None: not distinguished on this way"""
        l = {self.L0: 1}
        if st.prove(sub({}, l)):
            return True
        if st.prove(addl(l, {"": -1})):
            return False
        return None

    def back(self, st, h):
        """once around the loop over deferred nodes"""
        ev = [e for e in st.trail]
        j = max([n for n, e in enumerate(ev) if e[0] in ("peek", "pop")] or [-1])
        if j < 0:
            return
        tail = [e for e in ev if e[0] in ("peek", "pop", "contents")]
        # events of this iteration: from the last peek before the last pop
        pk = [n for n, e in enumerate(tail) if e[0] == "peek"]
        it = tail[pk[0]:] if pk else tail
        pops = [e for e in it if e[0] == "pop"]
        con = [e for e in it if e[0] == "contents"]
        i = (it[-1])[-1]
        self.ob("drain", "each deferred node is taken once and its contents transferred once",
                len(pops) == 1 and len(con) == 1 and bool(pk), i, "%d taken, %d transferred" % (len(pops), len(con)))
        if len(pops) == 1 and len(con) == 1:
            self.ob("drain", "a deferred node is taken off the list before its contents are transferred", it.index(pops[0]) < it.index(con[0]), con[0][-1],
                    "contents may defer further nodes, so that another one would be taken off")
            t = con[0][1]
            self.ob("drain", "the contents transferred are those of the node taken", len(t) == 1 and re.match(r"\*\(\*\(last\d+\)\)", t[0][0]) is not None, con[0][-1], show(dict(t)))
        self.ob("drain", "deferred nodes are processed by the outermost call only", self.outer(st) is True, i, "")

    def leave(self, st, i, exc):
        C = self.C
        C.saw("ways out of the graph functions")
        L = st.load({repr(self.lv): 1}, "i32")[0]
        ok = st.same(L, {self.L0: 1}) or st.prove(sub(L, {self.L0: 1})) and st.prove(sub({self.L0: 1}, L))
        kind = "exception from %s" % (re.sub(r"<.*|\(.*", "", i.cname() or "?") if i.iscall else "throw") if exc else "return"
        self.ob("depth", "depth restored on " + kind, ok, i, "depth is %s on leaving, %s on entering" % (show(L), self.L0))
        out = self.outer(st)
        ev = st.trail
        started = any(e[0] in ("record", "slot", "contents", "defer", "put", "get") for e in ev) or not st.same(st.load({repr(self.lv): 1}, "i32")[0], {self.L0: 1})
        cl = {k: max([n for n, e in enumerate(ev) if e[0] == "clear" and e[1] == k] or [-1]) for k in ("table", "list")}
        dirty = {"table": max([n for n, e in enumerate(ev) if e[0] in ("record", "slot", "contents")] or [-1]),
                 "list": max([n for n, e in enumerate(ev) if e[0] in ("defer", "contents")] or [-1])}
        dr = max([n for n, e in enumerate(ev) if e[0] == "drained"] or [-1])
        for k in ("table", "list"):
            if out is not False:
                self.ob("clean", "%s emptied when the outermost call ends by %s" % (k, kind),
                        dirty[k] < 0 or cl[k] > dirty[k] or k == "list" and dr > dirty[k], i, "what it holds would confuse the next call")
            if out is not True:
                self.ob("clean", "%s kept when a nested call ends by %s" % (k, kind), cl[k] < 0 or not started, i, "the nodes already met would be forgotten")
        if not exc:
            self.transfer(st, i, out, ev)

    def transfer(self, st, i, out, ev):
        # split off the processing of deferred nodes: it follows the first look at the list
        io = [e for e in ev if e[0] in ("put", "get")]
        rm = canon({"a0": 1, "": self.rmoff})
        hd = [e for e in io if e[2] == rm]
        ids = [e for e in io if e[2] != rm]
        if out is None:
            self.ob("outermost", "outermost and nested calls are told apart", False, i, "the limit on recursion is agreed on once per graph")
            return
        self.ob("header", "the limit on recursion is transferred once, by the outermost call",
                len(hd) == (1 if out else 0) and (not hd or io[0] is hd[0]), i, "%d transfers" % len(hd))
        self.ob("once", "one ID is transferred for each node", len(ids) == 1, i, "%d transfers" % len(ids))
        if len(ids) != 1:
            return
        ident = ids[0][1]
        con = [e for e in ev if e[0] == "contents"]
        dfr = [e for e in ev if e[0] == "defer"]
        rec = [e for e in ev if e[0] == "record"]
        asg = [e for e in ev if e[0] == "assign"]
        known = st.tag.get("known")
        if not self.un:
            node = ({"*(a1)": 1})
            null = st.prove(sub({}, node))
            nk = canon(node)
        else:
            null = st.prove(sub({}, dict(ident)))
            nk = ident
        self.C.saw("ways of transferring a node", "%s: %s" % (self.name, "null" if null else "known" if known and known[1] else "new"))
        if null:
            self.ob("null", "nothing but the ID 0 is transferred for a null reference", not con and not dfr and not rec, i, "")
            if not self.un:
                self.ob("null", "a null reference is written as 0", not ident, i, "written as " + show(dict(ident)))
            else:
                self.ob("null", "a null reference is read as null", bool(asg) and not asg[-1][1], i, "")
            return
        if known is None:
            self.ob("known", "whether the node is already known is looked up", False, i, "")
            return
        kk = known[0] if not isinstance(known[0], str) else None
        self.ob("known", "the node looked up is the one transferred", kk == nk or isinstance(known[0], str) and known[0] == "iter{%s}" % show(dict(nk)), i,
                "looked up %s" % (show(dict(kk)) if kk else known[0]))
        slot = "slot{%s}" % show(dict(nk))
        if known[1]:
            self.ob("known", "a known node's contents are not transferred again", not con and not dfr, i, "")
            self.ob("known", "a known node's entry stays as it is", not rec, i, "")
            held = {"*(%s)" % slot, "*(node{iter{%s}}+8)" % show(dict(nk))}
            v = ident if not self.un else asg[-1][1] if asg else ()
            self.ob("known", "a known node is referred to by its entry", len(v) == 1 and v[0][0] in held, i, "by " + show(dict(v)))
            return
        # a node met for the first time
        self.ob("new", "an entry is made for a node met for the first time", len(rec) == 1 and rec[0][1] == slot, i, "%d entries" % len(rec))
        if len(rec) != 1:
            return
        r = rec[0]
        pos = {id(e): n for n, e in enumerate(ev)}
        if not self.un:
            self.ob("new", "the ID written is the one recorded", r[2] == ident, i, "%s written, %s recorded" % (show(dict(ident)), show(dict(r[2]))))
            s = [k for k, c in r[2] if re.match(r"size\d|trunc32\[\+1\*size", k) and c == 1]
            sz = [e for e in ev if e[0] == "size"]
            sl = [e for e in ev if e[0] == "slot"]
            k = dict(r[2]).get("", 0)
            before = sz and sl and pos[id(sz[0])] < pos[id(sl[0])]
            self.ob("new", "the ID recorded is positive and not in use", len(s) == 1 and len([x for x in dict(r[2]) if x]) == 1 and (k >= 1 if before else k >= 0) and bool(sz), i,
                    "%s, the number of entries taken %s this one is made" % (show(dict(r[2])), "before" if before else "after"))
        else:
            v = dict(r[2])
            self.ob("new", "the node recorded is a new one, the one the target is made to refer to", len(v) == 1 and list(v)[0].startswith("fresh") and bool(asg) and asg[-1][1] == r[2], i,
                    "%s recorded, target %s" % (show(v), show(dict(asg[-1][1])) if asg else "not assigned"))
        self.ob("new", "the contents of a node met for the first time are transferred or deferred, once", len([c for c in con if not self.restarted(c)]) + len(dfr) == 1, i,
                "%d transferred, %d deferred" % (len(con), len(dfr)))
        for c in con:
            if self.restarted(c):
                continue
            self.ob("new", "a node is recorded before its contents are transferred", pos[id(r)] < pos[id(c)], c[-1], "on a cycle the node would be met as new again")
            if not self.un:
                self.ob("new", "the ID is written before the contents", pos[id(ids[0])] < pos[id(c)], c[-1], "")
            n = dict(c[1])
            want = [nk] if not self.un else [r[2]]
            self.ob("new", "the contents transferred are the node's", c[1] in want, c[-1], show(n))
            self.thr["direct"].add(c[2])
        for d in dfr:
            root = st.root(dict(d[1]))
            self.ob("lasting", "a deferred node is remembered by an address inside the table", root.startswith(("slot{", "node{")), d[-1],
                    "%s need not exist any more when the contents are transferred" % show(dict(d[1])))
            key = show(dict(nk))
            self.ob("lasting", "the deferred node is this one", "{" + key + "}" in root and (dict(d[1]).get("", 0) == 0), d[-1], show(dict(d[1])))
            self.thr["defer"].add(d[2])
        if out:
            self.ob("drain", "no deferred node is left when the outermost call returns",
                    any(e[0] == "drained" and not any(x[0] in ("defer", "contents") for x in ev[n:]) and not any(x[0] == "clear" and x[1] == "list" for x in ev[:n]) for n, e in enumerate(ev)),
                    i, "nodes still deferred are dropped")

    @staticmethod
    def restarted(c):
        return len(c[1]) == 1 and "last" in c[1][0][0]


def trees(C, M, tag):
    """tree nodes: absent nodes by a flag alone, others by the flag and the contents, once"""
    for F in M.defs():
        m = re.search(r"classdesc::(un)?pack<(\w+)>\(classdesc::(un)?pack_t&, std::string const&, classdesc::is_treenode", F.dem)
        if not m:
            continue
        un = bool(m.group(1))
        name = ("un" if un else "") + "pack(is_treenode)"

        def inst(st, i):
            if not i.iscall:
                return
            n = i.cname() or ""
            v = re.match(r"virtual classdesc::pack_t slot (\d+)|virtual classdesc::pack_t::(\w+)", n)
            if v:
                d = st.load(st.mod(i.ops[1]), "ptr")[0]
                if un:
                    r = {"flag": 1}
                    st.store(d, (r, r))
                    st.trail += (("io", canon(r), i),)
                else:
                    st.trail += (("io", canon(st.load(d, "i32")[0]), i),)
                return True
            if re.search(r"access_(un)?pack<[^(]*::operator\(\)", n):
                st.trail += (("contents", canon(st.mod(i.ops[3])), i),)
                return True
            if re.search(r"virtual classdesc::PtrStoreBase slot \d+$|virtual classdesc::PtrStoreBase::data", n):
                st.val[id(i)] = ({"fresh": 1},) * 2
                return True

        def ret(st, t):
            C.saw("ways through the tree functions")
            io = [e for e in st.trail if e[0] == "io"]
            con = [e for e in st.trail if e[0] == "contents"]
            C.ob("tree", name + ": one flag is transferred", len(io) == 1, where(t), tag)
            if len(io) != 1:
                return
            f = dict(io[0][1])
            tgt = st.load({F.args[-1] and "a%d" % F.args[-1].idx: 1}, "ptr")[0]
            null = st.prove(sub({}, tgt if not un else f))
            C.ob("tree", name + ": the flag tells whether the node exists", un or bool(f.get("", 0)) != null and not [k for k in f if k], where(t), "%s [%s]" % (show(f), tag))
            C.ob("tree", name + ": contents are transferred once if the node exists, and not otherwise", len(con) == (0 if null else 1), where(t), tag)
            if un and null:
                C.ob("tree", name + ": an absent node is read as null", not tgt, where(t), show(tgt))
            for c in con:
                C.ob("tree", name + ": the contents are the node's", c[1] == canon(tgt) and (not un or list(dict(c[1]))[0] == "fresh"), where(t), "%s [%s]" % (show(dict(c[1])), tag))
        Walk(F, on_inst=inst, on_ret=ret, trust=True)


def run():
    C = Check("C07", RULE, trusted=["std::map and std::vector behave as specified", "recursive calls for other nodes obey the same rules (induction)"])
    T = Tree()
    for std in ("c++98", "c++11", "c++17") if C.thorough else ("c++98", "c++11"):
        M = load(T, std)
        rm = None
        for F in M.defs():
            if F.dem.startswith("f_recur_max("):
                v = F.blocks[-1].term.ops[0]
                rm = v.ops[0].off if v.kind == "inst" and v.op == "load" and v.ops[0].op == "gep" else None
        if rm is None:
            raise AnalysisBroken("cannot locate the limit on recursion")
        thr = {}
        for F in M.defs():
            m = GRAPH.match(F.dem)
            if m and not F.decl:
                g = Graph(C, F, bool(m.group(1)), rm, std)
                C.saw("graph functions", F.dem)
                for k, v in g.thr.items():
                    thr.setdefault((g.name, k), set()).update(v)
        p = [thr.get(("pack_graph", k)) for k in ("direct", "defer")]
        u = [thr.get(("unpack_graph", k)) for k in ("direct", "defer")]
        C.ob("limit", "contents are transferred directly under the same limit in both directions", p == u and None not in (p[0] or {None}), "pack_graph.h", "packing %s, unpacking %s [%s]" % (p, u, std))
        C.ob("limit", "recursion is limited", bool(p[1]) and None not in p[1] and bool(u[1]), "pack_graph.h", "no node is ever deferred [%s]" % std)
        trees(C, M, std)
    C.floor("graph functions", 4)
    C.floor("ways through the tree functions", 4)
    T.close()
    return C.finish()


if __name__ == "__main__":
    main(run, "C07", RULE)
