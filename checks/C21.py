#!/usr/bin/env python3
"""C21: a class that declares the access hook is describable by every shipped descriptor, privates included."""
import os, re, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prep import Tree, BuildFailure, AnalysisBroken, VERIF
import prep, core, ir, ana, descforms
import C12

RULE = ("witness classes whose parts are private but which declare the hook, and the descriptors the working tree's processor generates for them, type-check with access control on; "
        "every class template the shipped descriptors use to reach members may touch a private member of a hooked class; and in the IR of each generated descriptor the address of every private member and base is handed to a call")
HOOKS = ["CLASSDESC_ACCESS", "CLASSDESC_ACCESS_TEMPLATE"]
# action sets, headers, instrument type
DESC = {
    "pack": ("pack unpack", "pack_base.h", ["pack_base.h", "pack_stl.h", "typeName_epilogue.h"]),
    "xml_pack": ("xml_pack", "xml_pack_base.h", ["xml_pack_base.h"]),
    "xml_unpack": ("xml_unpack", "xml_unpack_base.h", ["xml_unpack_base.h"]),
    "dump": ("dump", "dump_base.h", ["dump_base.h"]),
    "xsd_generate": ("xsd_generate", "xsd_generate_base.h", ["xsd_generate_base.h"]),
    "random_init": ("random_init", "random_init_base.h", ["random_init_base.h"]),
    "isa": ("isa", "isa_base.h", ["isa_base.h"]),
}
TYPES = ["Hidden", "Guarded", "Mixed", "ByDefault", "Tmpl<int>", "Tmpl<Hidden>", "Tmpl2<int,Hidden>", "OldTmpl<double>", "Outer", "Outer::Inner"]
# private or protected members of each, and those only public: what a full descriptor reaches
MEMBERS = {"Hidden": "i d arr s v", "Guarded": "p b pub", "Mixed": "open h hs hv", "ByDefault": "x", "Tmpl<int>": "t n", "Tmpl<Hidden>": "t n",
           "Tmpl2<int,Hidden>": "u", "OldTmpl<double>": "t", "Outer": "o inner", "Outer::Inner": "in"}
BASES = {"Mixed": "wacc::Guarded", "ByDefault": "wacc::Guarded", "Tmpl2<int,Hidden>": "wacc::Tmpl<int>"}


def errors(T, cc, std, extra=()):
    cmd = [prep.CLANGXX, "-std=" + std, "-fsyntax-only", "-w", "-ferror-limit=0", "-DTR1", "-DHAVE_LONGLONG", "-I" + T.src, "-I" + os.path.join(VERIF, "witness", "access"), "-I" + C12.DESC] + list(extra) + [cc]
    r = prep.run(cmd, cwd=T.src, check=False)
    e = re.findall(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stderr, re.M)
    return r.returncode, [(a.replace(T.src + "/", ""), int(b), c) for a, b, c in e], r.stderr


def write(T, name, text):
    p = os.path.join(T.src, name)
    with open(p, "w") as f:
        f.write(text)
    return p


# ---- which templates reach members
def accessors(T):
    """{name: (number of parameters, header)}: the primary access_ templates of the shipped headers"""
    r = {}
    for h in sorted(os.listdir(T.src)):
        if not h.endswith(".h"):
            continue
        t = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(os.path.join(T.src, h), errors="replace").read(), flags=re.S)
        for m in re.finditer(r"template\s*<([^<>;{}]*)>\s*(?:struct|class)\s+access_(\w+)\s*(?=[;{:])", t):
            n = len([x for x in m.group(1).split(",") if x.strip()])
            if n and "#" not in m.group(1):
                r.setdefault(m.group(2), (n, h))
    return r


def probe(name, n, hook):
    par = ["T"] + ["E%d" % k for k in range(1, n)]
    full = lambda t: ",".join([t] + ["void"] * (n - 1))
    return """#include "classdesc_access.h"
namespace classdesc_access {template <%s> struct access_%s;}
namespace wacc {
  class Base {int low; %s(Base);};
  class P: Base {int secret; static int shared; int method(); class N {}; %s(P);};
  template <class T> class Q {T secret; %s(Q);};
}
namespace classdesc_access {
  template <> struct access_%s<%s > {void f(wacc::P& p) {p.secret=1; wacc::P::shared=2; int (wacc::P::*m)()=&wacc::P::method; (void)m;}};
  template <> struct access_%s<%s > {void f(wacc::Base& p) {p.low=1;}};
  template <class T> struct access_%s<%s > {void f(wacc::Q<T>& p) {p.secret=1;}};
  void use(access_%s<%s >& a, wacc::Q<int>& q) {a.f(q);}
}
""" % (",".join("class " + p for p in par), name, hook, hook, hook, name, full("wacc::P"), name, full("wacc::Base"), name, full("wacc::Q<T>"), name, full("wacc::Q<int>"))


def probes(C, T):
    acc = accessors(T)
    jobs = []
    for name, (n, h) in sorted(acc.items()):
        C.saw("access templates", "access_%s (%s)" % (name, h))
        for hook in HOOKS:
            for std in ("c++98", "c++11", "c++17", "c++20"):
                jobs.append((name, hook, std, write(T, "p_%s_%s.cc" % (name, hook), probe(name, n, hook))))
    with ThreadPoolExecutor(8) as ex:
        for (name, hook, std, cc), (rc, e, err) in zip(jobs, ex.map(lambda j: errors(T, j[3], j[2]), jobs)):
            C.ob("befriended", "access_%s by %s (%s)" % (name, hook, std), rc == 0, "classdesc_access.h", e[0][2] if e else err[-200:])
    return acc


# ---- the shipped descriptors on hooked classes
def matrix(C, T):
    h = os.path.join(VERIF, "witness", "access", "w_acc.h")
    jobs = []
    for d, (acts, hdr, incs) in DESC.items():
        r = prep.run([T.tool(), "-nodef", "-typeName", "-onbase", "-I", T.src, "-i", h] + acts.split(), cwd=T.src, timeout=60)
        write(T, "x_%s.cd" % d, r.stdout)
        text = ['#include "classdesc.h"'] + ['#include "%s"' % i for i in incs] + ['#include "w_acc.h"', '#include "x_%s.cd"' % d, '#include "classdesc_epilogue.h"', "using namespace wacc;"]
        first = len(text)
        who = []
        for k, t in enumerate(TYPES):
            for a in acts.split():
                text.append("extern \"C\" void use_%s_%d(classdesc::%s_t& d, %s& x) {%s(d,\"x\",x);}" % (a, k, "pack" if a == "unpack" else a, t, a))
                who.append((t, a))
            text.append("extern const unsigned long off_%d[]={%s};" % (k, ",".join("__builtin_offsetof(%s,%s)" % (t.replace(",", " COMMA "), m) for m in MEMBERS[t].split())))
            who.append((t, ""))
        body = [x for x in text if not x.startswith("extern const")]
        cc = write(T, "x_%s.cc" % d, "\n".join(body) + "\n")
        ccd = write(T, "y_%s.cc" % d, "#define COMMA ,\n" + "\n".join(text) + "\n")
        for std in ("c++98", "c++11", "c++17", "c++20"):
            jobs.append((d, acts, std, cc, ccd))
    fail = set()
    with ThreadPoolExecutor(8) as ex:
        for (d, acts, std, cc, ccd), (rc, e, err) in zip(jobs, ex.map(lambda j: errors(T, j[3], j[2]), jobs)):
            C.saw("descriptor and standard pairs", "%s %s" % (d, std))
            if rc:
                fail.add(d)
            cls = sorted({m for m in re.findall(r"access_\w+<(?:struct |class )?::?wacc::(\w+)", err)} | {m for m in re.findall(r"wacc::(\w+)", err)})
            C.ob("type-checks", "%s of hooked classes (%s)" % (acts, std), rc == 0, e[0][0] if e else "", "%s%s" % (e[0][2] if e else err[-200:], "; classes involved: " + " ".join(cls[:5]) if cls else ""))
    todo = [d for d in DESC if d not in fail]
    bcs = T.compile_many([(("y_%s.cc" % d,), dict(std="c++17", defs=("TR1", "HAVE_LONGLONG"), incs=(os.path.join(VERIF, "witness", "access"),))) for d in todo])
    for d, bc in zip(todo, bcs):
        reach(C, T, bc, d, DESC[d][0].split())


def reach(C, T, bc, d, acts):
    M = ir.load(bc, T, inline=lambda dm, f, n: False, roots=lambda dm, f, n: n.startswith("use_") or "access_" in dm)
    for a in acts:
        for k, t in enumerate(TYPES):
            g = M.globals.get("off_%d" % k)
            if g is None:
                raise AnalysisBroken("layout of %s not found" % t)
            want = [x.s for x in g.init.ops] if getattr(g.init, "ops", None) else [g.init.s if g.init.kind == "const" else 0]
            got, fns = set(), 0
            norm = lambda s: re.sub(r"\s|wacc::", "", s)
            for F in M.defs():
                m = re.match(r"(?:void )?classdesc_access::access_%s<(.*)>::(?:operator\(\)|_)\w*(?:<.*>)?\(" % a, F.dem)
                if not m or norm(m.group(1)) != norm(t):
                    continue
                fns += 1
                for b in F.blocks:
                    for i in b.insts:
                        if i.iscall:
                            for o in i.ops:
                                base, off, var = ana.strip(o)
                                if base.kind == "inst" and base.op == "load":
                                    base = spilled(F, base)
                                if base in F.args and not var:
                                    got.add((off, i.cname() or ""))
            C.saw("descriptors of hooked classes")
            if not C.ob("described", "%s of %s" % (a, t), fns > 0, "classdesc.cc", "no descriptor of it is instantiated"):
                continue
            if a == "isa":        # visits types only
                continue
            for m, off in zip(MEMBERS[t].split(), want):
                C.saw("members reached")
                C.ob("reached", "%s of %s::%s" % (a, t, m), any(o == off for o, _ in got), "classdesc.cc", "the member is not handed to any call")


def spilled(F, load):
    """the argument a load of its spill slot gives"""
    slot = load.ops[0]
    st = [i for b in F.blocks for i in b.insts if i.op == "store" and i.ops[1] is slot]
    return st[0].ops[0] if len(st) == 1 else load


# ---- the forms of class definitions, hooked, with access control on
def forms(C, T):
    pre = open(os.path.join(C12.DESC, "wd_base.h")).read()
    write(T, "wp_base.h", re.sub(r"\bwd(?=\b|_)", "random_init", pre.replace("access_wd", "access_random_init")).replace('template <class T> struct access_random_init;', ""))
    F = [f for f in descforms.FORMS if not re.search(r"CLASSDESC_ACCESS|class N\$ \{int q|\{int q; private: int r", f[0])]      # nested classes with privates declare no hook there
    ws = []
    for i, f in enumerate(F):
        for j, head in enumerate((("struct", "", ()), ("class", "", ()))):
            ws.append(C12.compose("C%d" % len(ws), [f], head=head))
            ws.append(C12.compose("C%d" % len(ws), [("private: int z$; static int y$; protected: int x$(int); private:", [], "private"), f, F[(i * 7 + j) % len(F)]], head=head))
    for h in descforms.HEADS:
        for f in (F[0], F[4]):
            ws.append(C12.compose("H%d" % len(ws), [f], head=h))
    for w in ws:
        w.body += "CLASSDESC_ACCESS(%s);\n" % w.name
    groups = [ws[k::8] for k in range(8)]

    def one(a):
        k, opt, ws = a
        base = "f_%s_%d" % (opt, k)
        hf = write(T, base + ".h", C12.header(ws))
        r = prep.run([T.tool(), "-I", T.src, "-nodef"] + C12.OPTS[opt].split() + ["-i", hf, "random_init"], cwd=T.src, timeout=120)
        cd = re.sub(r"(?m)^#include.*$", "", r.stdout)
        write(T, base + ".cd", cd)
        src = ['#include "prelude.h"', '#include "wp_base.h"', "namespace wt {using namespace std;}", '#include "%s.h"' % base, '#include "%s.cd"' % base, ""]
        cc = write(T, base + ".cc", "\n".join(src + ["void u_%s(classdesc::random_init_t& t, wt::%s& c) {classdesc_access::access_random_init<wt::%s>()(t,\"\",c);}" % (w.name, w.inst, w.inst) for w in ws]) + "\n")
        rc, e, err = errors(T, cc, "c++17")
        lines = cd.split("\n")
        bad = {}
        for f, l, msg in e:
            nm = None
            if f.endswith(".cd"):
                while l > 0:
                    l -= 1
                    m = re.search(r"struct access_random_init<.*\b([CH]\d+)\b", lines[l]) if l < len(lines) else None
                    if m:
                        nm = m.group(1)
                        break
            bad.setdefault(nm or "?", msg)
        return rc, bad
    jobs = [(k, opt, g) for opt in ("all", "pointers", "names") + (("overload",) if C.thorough else ()) for k, g in enumerate(groups)]
    jobs = [(k, opt, [w for w in g if opt != "overload" or not any("), a$" in p[0] for p in w.parts)]) for k, opt, g in jobs]     # -overload takes the return type from the declarator: one to a declaration
    with ThreadPoolExecutor(8) as ex:
        for (k, opt, g), (rc, bad) in zip(jobs, ex.map(one, jobs)):
            for w in g:
                C.saw("hooked class definitions")
                C.ob("definition-type-checks", "%s (%s)" % (w.label, opt), w.name not in bad, "classdesc.cc", bad.get(w.name, ""))
            if rc and not set(bad) & {w.name for w in g}:
                C.bad("definition-type-checks", "module %d (%s)" % (k, opt), "classdesc.cc", next(iter(bad.values()), ""))


def run():
    C = core.Check("C21", RULE, ["clang's access control", "the witness classes stand for hooked classes"])
    T = Tree()
    acc = probes(C, T)
    for d in DESC:
        for a in DESC[d][0].split():
            if a not in acc:
                raise AnalysisBroken("no access_%s template is declared" % a)
    matrix(C, T)
    forms(C, T)
    C.floor("access templates", 10)
    C.floor("hooked class definitions", 100)
    C.floor("members reached", 50)
    return C.finish()


if __name__ == "__main__":
    core.main(run, "C21", RULE)
