"""Scratch build of the analysed tree.

Copies the sources of /repo's current working tree (never its build products) into a
scratch directory, builds the classdesc tool there, and generates the descriptor
(.cd) files and header links the library headers need, so that the witness
translation units can be compiled to LLVM bitcode against exactly that tree.
"""
import os, shutil, subprocess, sys, tempfile, atexit, hashlib, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18/bin"
CLANGXX = LLVM + "/clang++"
ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C")
for k in ("LD_LIBRARY_PATH", "CPLUS_INCLUDE_PATH", "CPATH", "MAKEFLAGS"):
    ENV.pop(k, None)


class AnalysisBroken(Exception):
    """The machinery could not analyse the tree (neither a pass nor a violation)."""


def run(cmd, cwd=None, timeout=600, check=True, **kw):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout, text=True, **kw)
    if check and r.returncode:
        raise AnalysisBroken("command failed (%d): %s\n%s" % (r.returncode, cmd if isinstance(cmd, str) else " ".join(cmd), r.stderr[-4000:]))
    return r


class BuildFailure(AnalysisBroken):
    """A witness using only the public interface no longer builds."""

    def __init__(self, witness, err):
        AnalysisBroken.__init__(self, "witness %s does not build: %s" % (witness, err))
        self.witness, self.err = witness, err


class Tree:
    """A scratch copy of the tree with generated files."""

    def __init__(self, need_cds=True, regen_functiondb=False):
        self.dir = tempfile.mkdtemp(prefix="cdverif.")
        atexit.register(self.close)
        self.src = os.path.join(self.dir, "src")
        os.mkdir(self.src)
        self.out = os.path.join(self.dir, "out")
        os.mkdir(self.out)
        for n in sorted(os.listdir(REPO)):
            p = os.path.join(REPO, n)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            if n.endswith((".h", ".cc", ".sh", ".c")) or n in ("Makefile", "fix-privates"):
                shutil.copy(p, os.path.join(self.src, n))
        for a, b in (("unpack_base.h", "pack_base.h"), ("json_unpack_base.h", "json_pack_base.h")):
            t = os.path.join(self.src, a)
            if not os.path.exists(t):
                os.symlink(b, t)
        self.have_cds = False
        if regen_functiondb:
            r = run(["bash", "functiondb.sh"], cwd=self.src)
            with open(os.path.join(self.src, "functiondb.h"), "w") as f:
                f.write(r.stdout)
        if need_cds:
            self.gen_cds()

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            return
        shutil.rmtree(self.dir, ignore_errors=True)

    def tool(self, name="classdesc"):
        exe = os.path.join(self.src, name)
        if not os.path.exists(exe):
            run(["g++", "-std=c++98", "-g", "-I.", "-DXDR_PACK", "-DHAVE_LONGLONG", name + ".cc", "-o", name], cwd=self.src)
        return exe

    def mkvar(self, name):
        mk = open(os.path.join(self.src, "Makefile")).read()
        m = re.search(r"^%s=(.*)$" % name, mk, re.M)
        if not m:
            raise AnalysisBroken("Makefile variable %s not found" % name)
        return m.group(1).split()

    def gen_cds(self):
        if self.have_cds:
            return
        exe = self.tool()
        flags = {
            "dump": "-nodef -onbase", "pack": "-nodef -onbase", "json_pack": "-nodef -onbase -respect_private",
            "xml_pack": "-nodef -onbase -respect_private", "xsd_generate": "-nodef -onbase -respect_private",
            "random_init": "-nodef -onbase", "RESTProcess": "-nodef -onbase -respect_private", "typeName": "-nodef -typeName"}
        acts = {"pack": "pack unpack", "json_pack": "json_pack json_unpack", "xml_pack": "xml_pack xml_unpack", "typeName": ""}
        jobs = []
        for h in self.mkvar("CDHEADERS"):
            for d in self.mkvar("DESCRIPTORS"):
                jobs.append((h, d))

        def one(j):
            h, d = j
            cmd = [exe] + flags[d].split() + ["-i", h + ".h"] + acts.get(d, d).split()
            try:
                r = run(cmd, cwd=self.src, timeout=120)
            except subprocess.TimeoutExpired:
                raise AnalysisBroken("classdesc processor hangs on " + h + ".h")
            with open(os.path.join(self.src, "%s-%s.cd" % (h, d)), "w") as f:
                f.write(r.stdout)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        self.have_cds = True

    def descriptor(self, header, out, args):
        """Generate a descriptor for a witness header with the tree's own processor (as a user's build does)."""
        src = os.path.join(VERIF, "witness", header)
        try:
            r = run([self.tool(), "-I", self.src] + args[0].split() + ["-i", src] + args[1].split(), cwd=self.src, timeout=120)
        except subprocess.TimeoutExpired:
            raise AnalysisBroken("classdesc processor hangs on " + header)
        with open(os.path.join(self.src, out), "w") as f:
            f.write(r.stdout)

    def rel(self, path):
        """Path as shown in reports."""
        if path.startswith(self.src + "/"):
            return path[len(self.src) + 1:]
        if path.startswith(VERIF + "/"):
            return "/verif/" + path[len(VERIF) + 1:]
        return path

    def compile(self, witness, std="c++11", defs=(), incs=(), opt=("-O0", "-Xclang", "-disable-O0-optnone"),
                name=None, extra=(), cxx=None):
        """Compile a source file to bitcode; returns the .bc path."""
        src = witness if os.path.isabs(witness) else os.path.join(VERIF, "witness", witness)
        if not os.path.exists(src):
            src = os.path.join(self.src, witness)
        name = name or os.path.basename(src)
        out = os.path.join(self.out, "%s.%s.%s.bc" % (name, std, hashlib.md5(repr((defs, incs, extra)).encode()).hexdigest()[:6]))
        cmd = [CLANGXX, "-std=" + std, "-emit-llvm", "-c", "-g", "-w", "-fno-discard-value-names", "-fno-access-control"] + list(opt) + \
            ["-I" + self.src, "-I" + os.path.join(VERIF, "witness"), "-I/usr/include/tirpc"] + \
            ["-I" + i for i in incs] + ["-D" + d for d in defs] + list(extra) + [src, "-o", out]
        r = run(cmd, cwd=self.src, check=False)
        if r.returncode:
            m = re.search(r"^\S+?:\d+:\d+: (?:fatal )?error: .*$", r.stderr, re.M)
            raise BuildFailure(os.path.basename(src), (m.group(0) if m else r.stderr[-400:]).replace(self.src + "/", ""))
        return out

    def compile_many(self, jobs):
        with ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(self.compile, *a, **k) for a, k in jobs]
            return [f.result() for f in fs]
