"""C01: data written reads back as equal data."""
from vf import Part
import ohdata as D
from hypothesis import strategies as st

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: round trip through pipes, files and processes, independent literal reader as oracle"
ASSUMPTIONS = ["the harness's own literal reader (lib/ohdata.py) and source quoting are correct",
               "symbols mixing the joining characters , . / : = @ ~ or $ with others are excluded (known finding)"]

JOIN = set(",./:=@~$")


def symtext():
    """Any symbol text that is not a mixture with joining characters."""
    def ok(x):
        return "".join(c for c in x if c not in JOIN)
    odd = D.text_st(8).map(ok)
    return st.one_of(D.word_st(), D.word_st(), odd, st.sampled_from([",", ".", "/", ":", "=", "@", "~", "", "else", "true",
                     "cons", "number", "symbol", "status", "-1", "1.5".replace(".", ""), "(|", "|)", "()"]))


def datum():
    leaf = st.one_of(st.none(), st.builds(D.s, D.text_st()), st.builds(D.y, symtext()),
                     st.builds(D.n, D.rational_st()), st.builds(D.t, D.rational_st()),
                     st.builds(D.y, D.word_st()))
    return st.recursive(leaf, lambda c: st.one_of(
        st.lists(c, max_size=5).map(D.lst),
        st.builds(lambda a, t: D.lst(a, t), st.lists(c, min_size=1, max_size=3), c),
        st.builds(D.p, c, c)), max_leaves=14)


def size(d):
    return 1 if d is None or d[0] != "p" else 1 + size(d[1]) + size(d[2])


def strat():
    return st.fixed_dictionaries({"data": st.lists(datum(), min_size=1, max_size=6),
                                  "mode": st.sampled_from(["pipe", "file", "shells", "stdin", "chan-free"]),
                                  "style": st.integers(0, 2)})


PRELUDE = """define out: method (d) {
    write $d
}
define rd: method (p) = {
    define d: p read
    out $d
    out (equal? $d $d)
    define k: pipe
    k write $d
    define z: k read
    out $z
    out (equal? $d $z)
    out (equal? $z $d)
    k close
}
"""


def check(ctx, case):
    data, mode = case["data"], case["mode"]
    ctx.nontrivial = any(size(d) > 1 or (d and d[0] in "sy" and not d[1].isalnum()) for d in data)
    ctx.label("mode:" + mode)
    for d in data:
        ctx.label("null" if d is None else "type:" + d[0])
        if d and d[0] == "p" and D.unlist(d) is None:
            ctx.label("improper")
    src = PRELUDE
    if mode == "pipe" or mode == "chan-free":
        src += "define p: pipe\n"
        for d in data:
            src += "define v %s\np write $v\nout $v\n" % D.source(d, case["style"])
            if mode == "pipe":
                src += "rd $p\n"
        if mode != "pipe":
            src += "rd $p\n" * len(data)
    elif mode == "file":
        src += "define p: open w 'f'\n"
        for d in data:
            src += "define v %s\np write $v\nout $v\n" % D.source(d, case["style"])
        src += "p close\ndefine q: open r- 'f'\n" + "rd $q\n" * len(data)
    elif mode == "stdin":
        for d in data:
            src += "define v %s\nout $v\n" % D.source(d, case["style"])
        src += "block {\n" + "".join("    write %s\n" % D.source(d, case["style"]) for d in data) + "} | block {\n"
        src += "    rd $stdin\n" * len(data) + "}\n"
    else:
        for d in data:
            src += "define v %s\nout $v\n" % D.source(d, case["style"])
        child = "".join("write %s\n" % D.source(d, 0) for d in data)
        src += "%s -c %s | block {\n" % (ctx.paths["oh"], D.quote(child)) + "    rd $stdin\n" * len(data) + "}\n"
    r = ctx.script(src)
    if r.hang:
        return "%s while writing and reading data: %r" % (r.hang, r)
    if r.err:
        return "error output: %r" % r.err[:300]
    try:
        got = D.lines(r.out)
    except (D.Bad, ValueError, IndexError, TypeError) as ex:
        return "unreadable output (%s): %r" % (ex, r.out[:300])
    exp_w = [[d] for d in data]
    exp_r = [[[d], [D.y("true")], [d], [D.y("true")], [D.y("true")]] for d in data]
    # Order: each v is printed as it is written, then what was read.
    exp = []
    if mode == "pipe":
        for w, x in zip(exp_w, exp_r):
            exp += [w] + x
    else:
        exp = exp_w + [l for x in exp_r for l in x]
    if got != exp:
        for i, e in enumerate(exp):
            if i >= len(got) or got[i] != e:
                return "datum differs at line %d: expected %r got %r (mode %s)" % (i, e, got[i] if i < len(got) else None, mode)
        return "extra output: %r" % got[len(exp):][:3]
    # Text written again is the same text.
    ls = r.out.split(b"\n")
    k = 0
    for j in range(len(data)):
        if mode == "pipe":
            w, a, b = ls[6 * j], ls[6 * j + 1], ls[6 * j + 3]
        else:
            m = len(data) + 5 * j
            w, a, b = ls[j], ls[m], ls[m + 2]
        if not (w == a == b):
            return "text changes when written again: %r %r %r" % (w, a, b)
    return None


def kf_check(ctx, case):
    """Compound symbols: what is read back must be the symbol again."""
    r = ctx.script("define p: pipe\np write (symbol %s)\nwrite (p read)\n" % D.quote(case["symbol"]))
    try:
        got = D.lines(r.out)
    except (D.Bad, ValueError, IndexError):
        got = None
    return None if got == [[D.y(case["symbol"])]] else "symbol %r reads back as %r" % (case["symbol"], r.out)


def compound(ctx, case):
    """Compound symbols read back as an expression whose value is the symbol."""
    ctx.nontrivial = True
    r = ctx.script("define p: pipe\ndefine v: symbol %s\np write $v\nwrite (equal? $v (eval (p read)))\n" % D.quote(case["symbol"]))
    if r.out != b"true\n":
        return "compound symbol %r: %r" % (case["symbol"], r)


PARTS = [
    Part("roundtrip", strat, check, 2400, 60000,
         "1-6 recursive data (strings over all bytes, symbols, rationals, statuses, (), proper/improper lists) written by "
         "write and read back by read through a pipe, a file, a pipeline or another oh process; both sides compared with the "
         "generated value by an independent literal reader. Non-trivial: some datum is a cons or has a non-alphanumeric text"),
    Part("compound", lambda: st.builds(lambda a, j, b: {"symbol": a + j + b}, D.word_st(),
                                       st.sampled_from(list(",./:@~")), D.word_st()).filter(lambda c: "(|" not in c["symbol"]),
         compound, 80, 800, "symbols with joining characters: eval of what is read back gives the symbol; all non-trivial"),
    Part("kf", None, kf_check, 0, 0, "known finding probe"),
]
