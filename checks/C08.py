#!/usr/bin/env python3
"""C08: XML output is well formed for every string value, and read back as it was."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prep import Tree
import core, ir, text
import xmltext as X

RULE = ("dataflow over characters and texts (compiled to LLVM IR from the working tree): the 256 row table of xml_quote is computed and composed with the reader's tokeniser, "
        "extracted as a transducer; every text a writer appends to its stream is quoted, a number, a name or a literal; strings are quoted from the first to the last character; "
        "element content, CDATA sections and string values are carried over whole")
LEGAL = {b for b in range(256) if b >= 32 or b in (9, 10, 13)} - {0x26, 0x3c, 0x3e}
SKIP = re.compile("(%s)|(%s)|(%s)" % (X.TOKEN.pattern, X.PARSE.pattern, X.ISSPACE.pattern))


def quoting(C, F, readers, std):
    tab, odd = X.quote_table(F)
    name = "xml_quote"
    for o in odd:
        C.bad("quoted", name, core.where(F), "what is written for a character isn't determined: %s" % (o,))
    if tab is None:
        return
    raw = {b for b in tab if tab[b] == {bytes([b])}}
    follow = frozenset(raw | {0x3c, 0x26})
    ents = {}
    for b in range(256):
        C.saw("characters")
        outs = tab.get(b, set())
        if not C.ob("quoted", "%s byte %d" % (name, b), bool(outs), core.where(F), "nothing is written for the character"):
            continue
        for o in outs:
            if o is None:
                continue
            if o == bytes([b]):
                C.ob("quoted", "%s byte %d" % (name, b), b in LEGAL, core.where(F), "the character is written as it is, though it isn't legal in text")
                for R in readers:
                    p = X.plain(R, b, follow)
                    C.ob("read-back", "%s byte %d as it is" % (R.F.dem, b), not p, core.where(R.F), "; ".join(sorted(set(p)))[:300])
            else:
                m = re.fullmatch(rb"&([^&;<>]+);", o)
                if not C.ob("quoted", "%s byte %d" % (name, b), m, core.where(F), "written as %r" % o):
                    continue
                for R in readers:
                    k = (R.F.dem, m.group(1))
                    if k not in ents:
                        ents[k] = X.entity(R, m.group(1))
                    got, p = ents[k]
                    C.ob("read-back", "%s byte %d as %s" % (R.F.dem, b, o.decode("latin-1")), not p and got == {bytes([b])}, core.where(R.F),
                         "read back as %s %s" % (sorted(got, key=str), "; ".join(sorted(set(p)))[:200]))


def values(C, F, kind, std):
    """the string value found is stored whole in the target"""
    tgt = (("arg", 2), 0)
    n = [0]

    def source(t):
        return len(t) == 1 and t[0][0] == "a" and t[0][1][0] == "S" and t[0][1][1][1] == 32

    def on_ret(s, i, v):
        t, m = s.content(tgt), s.mem.get(tgt)
        if m is not None and kind == "char":
            n[0] += 1
            ok = m[0] == "t" and m[1][0] == "at" and source(m[1][1]) and m[1][2] == text.K(0) and all(a == b for a, b in m[2])
            C.ob("value-stored", F.dem, ok, core.where(i), "the character stored isn't the first of the text read")
        elif t == (("a", ("S", tgt)),) and m is None:
            pass
        elif kind == "string":
            n[0] += 1
            C.ob("value-stored", F.dem, source(t), core.where(i), "the string stored is %s, not the text read" % text.show(t))
        else:
            # extracted by a stream, which skips white space: never for a text of one character
            one = [tr for k, tr in s.hist if k[0] == "u" and isinstance(k[1], tuple) and k[1][0] == "cmp" and text.K(1) in k[1][2:4] and
                   any(x[0] == "n" and source(x[1]) for x in k[1][2:4])]
            C.ob("value-stored", F.dem, one, core.where(i), "a text of a single character is extracted by a stream, which skips white space")
    text.Walk(F, on_ret=on_ret)
    C.saw("value readers", F.dem)
    C.ob("value-stored", F.dem, n[0], core.where(F), "the text read is never stored")


def run():
    C = core.Check("C08", RULE, trusted=("std::string, stream insertion and strtol behave as the standard says", "the program runs in the C locale (isgraph, isspace)",
                                         "element names are C++ identifiers"))
    T = Tree()
    T.descriptor("wtypes.h", "wtypes-xml.cd", ("-nodef -typeName -onbase -respect_private", "xml_pack xml_unpack xsd_generate"))
    stds = ("c++98", "c++17") + (("c++11", "c++20") if C.thorough else ())
    bcs = T.compile_many([(("w_xml.cc",), dict(std=s, defs=("TR1", "HAVE_LONGLONG"), extra=("-flto", "-fwhole-program-vtables"))) for s in stds])
    for std, bc in zip(stds, bcs):
        one_std(C, T, std, bc)
    C.floor("tokenisers", 2 * len(stds))
    C.floor("elements", 2 * len(stds))
    C.floor("cdata writers", len(stds))
    C.floor("string writers", len(stds))
    C.floor("writers", 20 * len(stds))
    C.floor("value readers", 5 * len(stds))
    C.floor("texts written", 500 * len(stds))
    return C.finish()


def one_std(C, T, std, bc):
    M = ir.load(bc, T, inline=lambda d, f, n: X.library(d, f, n) and not SKIP.search(d) and not X.FN.search(d),
                roots=lambda d, f, n: bool(SKIP.search(d)) or d.startswith("w_") or bool(X.FN.search(d)))
    fns = list(M.defs())
    readers = []
    for F in fns:
        if X.TOKEN.search(F.dem):
            C.saw("tokenisers", F.dem)
            R = X.Reader(F)
            if C.ob("tokeniser", F.dem, R.head is not None and R.mark is not None, core.where(F), "the text collected, or whether it is markup, cannot be told"):
                readers.append(R)
    for F in fns:
        n = F.dem.split("(")[0]
        if X.QUOTE.search(F.dem):
            C.saw("quoting functions", F.dem)
            quoting(C, F, readers, std)
        elif "operator<<(std::ostream&, classdesc::CDATA" in F.dem:
            C.saw("cdata writers", F.dem)
            for p in X.cdata_written(F) or [""]:
                C.ob("cdata-written", F.dem, not p, core.where(F), p)
        elif X.PARSE.search(F.dem) and readers:
            C.saw("elements", F.dem)
            E = X.Element(F, readers[0].mark[1])
            if C.ob("content", F.dem, E.head is not None, core.where(F), "the loop collecting the content of an element was not found"):
                for p in sorted(set(E.content_problems())) or [""]:
                    C.ob("content", F.dem, not p, core.where(F), p)
        if re.match(r"classdesc::xml_pack\(classdesc::xml_pack_t&, std::string const&, std::string&\)", F.dem):
            C.saw("string writers", F.dem)
            for p in sorted(set(X.string_writer(F))) or [""]:
                C.ob("string-whole", F.dem, not p, core.where(F), p)
        m = re.match(r"w_u_(string|cdata|char|schar|uchar)\(", F.dem)
        if m:
            values(C, F, "string" if m.group(1) in ("string", "cdata") else "char", std)
        if X.FN.search(F.dem) and "unpack" not in n and not X.QUOTE.search(F.dem) and "CDATA const&" not in F.dem:
            C.saw("writers", F.dem[:160])
            bad, cnt = X.sinks(F)
            for k in range(cnt):
                C.saw("texts written")
            for p in bad or [""]:
                C.ob("sink", F.dem[:200], not p, core.where(F), "text reaches the output unquoted: " + p)
    for R in readers:
        for p in sorted(set(X.marks(R))) or [""]:
            C.ob("markup-flag", R.F.dem, not p, core.where(R.F), p)
        cd = X.cdata_read(R)
        C.ob("cdata-read", R.F.dem, cd is not None, core.where(R.F), "no CDATA section is recognised")
        for p in sorted(set(cd or ())):
            C.bad("cdata-read", R.F.dem, core.where(R.F), p)


if __name__ == "__main__":
    core.main(run, "C08", RULE)
