"""C11: no arguments can crash the shell; wrong counts are refused."""
import os

from hypothesis import strategies as st
import ohcalls as C
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "fuzzing: structured random calls of everything callable with values of every type; argument counts against a table of what each takes"
ASSUMPTIONS = ["runs as an unprivileged user with no external programs but the helper; data is finite (no cyclic lists) and sizes are small",
               "reading is only tried on conduits at end of file, so that no call can wait for ever by right"]
USER = 65534

SENTINELS = """define s-list: list 1 (list 2 'three') 4
define s-map: map
s-map set key 'kept'
define s-var 'unchanged'
export S_EXP exported
define s-f: method (n) {
 return (add $n 1)
}
define s-o: object {
 define n 7
 export up: method () {
  set n: add $n 1
  return $n
 }
}
"""
CHECK = "write end $s-list (s-map get key) $s-var $S_EXP (s-f 41) (s-o up)\n"
# The number of times the check may have run is not known (continuations).
WANT = ["end", "x"]


def value(): return st.sampled_from(C.VALUES)


def callee():
    names = sorted((set(C.FUNCS) | set(C.LIBRARY)) - {"exit", "fatal", "mill"})
    return st.one_of(
        st.sampled_from(names).map(lambda n: [n]),
        st.sampled_from(names).map(lambda n: [n]),
        st.sampled_from(sorted(C.STR)).map(lambda n: ["str", n]),
        st.tuples(st.sampled_from(["$vl", "()", "(list 1 2)", "(cons 1 2)", "(list)"]), st.sampled_from(sorted(C.LIST))).map(list),
        st.tuples(st.sampled_from(["$vc", "$vp", "$vf", "(chan 5)", "(open w vout)"]), st.sampled_from(sorted(C.CONDUIT))).map(list).map(noblock),
        st.tuples(st.sampled_from(["$ve", "$vo", "$sys", "(map)"]), st.sampled_from(sorted(C.ENV) + ["define", "export", "set", "hidden", "shown", "has", "del"])).map(list),
        st.sampled_from(C.SYNTAXES).map(lambda n: [n]),
        value().map(lambda v: [v]),
        st.tuples(value(), value()).map(list).map(noblock),
    )


def noblock(c):
    # Reading an open channel or pipe may wait for ever.
    if c[0].startswith("(chan") and c[1].startswith("read"):
        return ["$vc", c[1]]
    return c


def fuzz_st():
    call = st.tuples(callee(), st.lists(value(), max_size=4)).map(lambda t: t[0] + t[1])
    return st.lists(call, min_size=4, max_size=14)


def body(calls):
    out = []
    for i, c in enumerate(calls):
        # A continuation may start things over: only a few times.
        out.append("set s-turns: add $s-turns 1\nif (gt? $s-turns 60) {\n write end-by-turns\n exit 0\n}\n"
                   "(method () {\n catch ex {\n  write ex %d\n  return ()\n }\n" % i + " " + " ".join(c) + "\n write ok %d\n})\n" % i)
    return out


SPAWNERS = {"spawn", "process-substitution", "capture", "pipe-output-to", "pipe-output-errors-to"}


def fuzz(ctx, case):
    # A continuation called in another task (as the handler of an exception
    # thrown there does) goes on with the program there, beside this one.
    spawns = any(w in SPAWNERS for c in case for w in c)
    # Counting that far takes too long.
    case = [["20" if "seq" in c and w in ("99999999999999999999", "1e400", "inf") else w for w in c] for c in case]
    # No list that contains itself.
    case = [c[:2] + ["(list 4)" if w == "$vl" else w for w in c[2:]] if c[0] == "$vl" else c for c in case]
    src = SENTINELS + "define s-turns 0\ndefine s-home $PWD\n" + "".join("cd $s-home\n" + C.SETUP + b for b in body(case)) + CHECK
    cwd = ctx.dir()
    os.chmod(cwd, 0o777)
    r = ctx.script(src, cwd=cwd, user=USER, quiet=2.0 if spawns else 15.0)
    ok, ex = r.out.count(b"ok "), r.out.count(b"ex ")
    ctx.nontrivial = ok >= 1 and ex >= 1
    for c in case:
        ctx.label(("member " if len(c) > 1 and c[0][0] in "$(" else "") + (c[1] if c[0] == "str" or (len(c) > 1 and c[0][0] in "$(") else c[0]))
    crash = r.hang and not spawns or r.rc not in (0, -9) or b"goroutine " in r.err or b"fatal error:" in r.err
    if crash:
        return "the shell %s: rc %s, standard error %r\n%s" % (r.hang or "died", r.rc, r.err[-1500:], src)
    if spawns:
        return None
    last = r.out.rstrip(b"\n").split(b"\n")[-1]
    if last == b"end-by-turns":
        return None
    want = b"end (1 (2 $'three') 4) $'kept' $'unchanged' exported (|number 42|) (|number "
    if not last.startswith(want):
        return "the program did not carry on as before: last line %r, standard error %r\n%s" % (last, r.err[-800:], src)


# Counts.
KINDS = {"func": [((n,), n, a) for n, a in sorted(C.FUNCS.items())], "library": [((n,), n, a) for n, a in sorted(C.LIBRARY.items())],
         "str": [(("str", n), n, a) for n, a in sorted(C.STR.items())], "list": [(("c-l", n), n, a) for n, a in sorted(C.LIST.items())],
         "conduit": [((c, n), n, a) for n, a in sorted(C.CONDUIT.items()) for c in ("c-c", "c-p", "c-f")],
         "env": [(("c-e", n), n, a) for n, a in sorted(C.ENV.items())],
         "object": [(("c-o", n), n, a) for n, a in (("get", (1, 1)), ("has", (1, 1)), ("del", (1, 1)))],
         "user": [(("c-m0",), "m0", (0, 0)), (("c-m2",), "m2", (2, 2)), (("c-s1",), "s1", (1, 1))]}
ALL = [(k,) + x for k, xs in sorted(KINDS.items()) for x in xs]
WRONG = [x for x in ALL if x[3][0] > 0 or x[3][1] is not None]
PLAIN = [v for v in C.VALUES if v not in ("nosuch*", "*", "[", "(nosuch)", "$novar", "(splice (list 1 2))", "~")]

COUNT_SETUP = """define c-l: list 1 2 3
define c-c: chan 3
c-c write kept
define c-p: pipe
c-p write kept
define c-f: open w+ cfile
define c-e: (method () e {
 define c-x 1
 return $e
})
define c-o: map
c-o set key kept
define c-m0: method () {
 write effect
}
define c-m2: method (a b) {
 write effect
}
define c-s1: syntax (a) {
 write effect
}
"""
# Whatever a refused call might have changed.
COUNT_AFTER = """write c-l $c-l
write c-c (c-c read)
write c-p (c-p read)
write c-o (c-o get key)
c-f write-line still open
write pwd (equal? $PWD $s-pwd) (exists vnew)
"""


@st.composite
def count_st(draw):
    kind, head, name, (lo, hi) = draw(st.sampled_from(WRONG))
    few = lo > 0 and (hi is None or draw(st.booleans()))
    n = draw(st.integers(0, lo - 1)) if few else hi + draw(st.integers(1, 3))
    return {"head": list(head), "lo": lo, "hi": hi, "args": draw(st.lists(st.sampled_from(PLAIN), min_size=n, max_size=n)), "kind": kind}


def every():
    """Each callable with each wrong count nearby."""
    for kind, head, name, (lo, hi) in WRONG:
        for n in list(range(lo)) + ([hi + 1, hi + 2] if hi is not None else []):
            yield {"head": list(head), "lo": lo, "hi": hi, "kind": kind, "args": ["foo", "'a b'", "(|number 3|)", "vnew", "(list 1)", "()"][:n]}


def count(ctx, case):
    n = len(case["args"])
    ctx.nontrivial = True
    ctx.label("too few" if n < case["lo"] else "too many", case["kind"])
    want = case["lo"] if n < case["lo"] else case["hi"]
    msg = "expected %d argument%s, passed %d" % (want, "" if want == 1 else "s", n)
    src = (C.SETUP + COUNT_SETUP + "define s-pwd $PWD\n(method () {\n catch ex {\n  write ex $ex\n  return ()\n }\n " + " ".join(case["head"] + case["args"]) +
           "\n write not refused\n})\n" + COUNT_AFTER)
    r = ctx.script(src)
    out = "ex $'%s'\nc-l (1 2 3)\nc-c (kept)\nc-p kept\nc-o kept\npwd true ()\n" % msg
    out2 = out.replace("c-c (kept)", "c-c kept")
    if r.hang or r.out.decode("latin-1") not in (out, out2) or r.err:
        return "want %r, got %r\n%s" % (out, r, src)


PARTS = [
    Part("counts", count_st, count, 1200, 20000,
         "every builtin, member and library procedure called with fewer or more arguments than it takes, with values of every type: refused with the "
         "expected and passed counts, and lists, conduits, maps, directory and files as before. All enumerated near the limits, then random. Every case is non-trivial",
         enumerate=every),
    Part("any-arguments", fuzz_st, fuzz, 1200, 40000,
         "programs of 4 to 14 calls of random callables and values with random arguments of every type, each under a handler: the shell neither dies nor hangs, "
         "and earlier bindings are intact at the end. Non-trivial: at least one call returns and one throws"),
]
