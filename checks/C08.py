"""C08: exceptions unwind to the nearest handler and nowhere else."""
import ohdiff
import ohdata as D
from vf import Part
from hypothesis import strategies as st

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: differential, random throw/catch programs against a reference interpreter; task isolation by construction"
ASSUMPTIONS = ["lib/ohmodel.py is the language definition of throw and catch"]


# An uncaught exception ends its task only.
def tasks_st():
    return st.fixed_dictionaries({
        "kinds": st.lists(st.sampled_from(["ok", "throw", "nosuch", "arity", "caught", "nested", "undef", "loop"]), min_size=1, max_size=6),
        "wait": st.sampled_from(["all", "each"]), "inside": st.booleans()})


def tasks(ctx, case):
    ks = case["kinds"]
    ctx.nontrivial = len(set(ks) - {"ok", "caught"}) > 0 and len(ks) > 1
    src = "define n: method (x) {\n  return $x\n}\n"
    bodies = {
        "ok": "write start %d\n write end %d\n",
        "throw": "write start %d\n throw msg%d\n write never\n",
        "nosuch": "write start %d\n nosuch%d a\n write never\n",
        "arity": "write start %d\n n 1 %d\n write never\n",
        "undef": "write start %d\n write $undefined%d\n write never\n",
        "caught": "define m: method () {\n  catch ex {\n   return caught\n  }\n  throw x\n }\n write start %d\n m\n write end %d\n",
        "nested": "define m: method () {\n  list (list (throw deep))\n }\n write start %d\n block {\n  if true {\n   m\n  }\n }\n write never %d\n",
        "loop": "write start %d\n while true {\n  throw in-loop%d\n }\n write never\n",
    }
    ctx.label(*ks)
    for i, k in enumerate(ks):
        src += "define t%d: spawn {\n %s}\n" % (i, bodies[k] % (i, i))
    src += "".join("wait $t%d\n" % i for i in range(len(ks))) if case["wait"] == "each" else "wait\n"
    src += "write main (n 7)\n"
    if case["inside"]:
        src = "block {\n" + src + "}\nwrite outside\n"
    r = ctx.script(src)
    if r.hang or r.rc:
        return "%r for\n%s" % (r, src)
    got = sorted(r.out.split(b"\n"))
    want = [b""]
    for i, k in enumerate(ks):
        want.append(b"start %d" % i)
        if k in ("ok", "caught"):
            want.append(b"end %d" % i)
    want.append(b"main 7")
    if case["inside"]:
        want.append(b"outside")
    if got != sorted(want):
        return "wrote %s, should be %s (standard error %r) for\n%s" % (got, sorted(want), r.err[:500], src)
    errs = sorted(l for l in r.err.split(b"\n") if l.startswith(b"error: "))
    msg = {"throw": b"error: msg%d", "nosuch": b"error: nosuch%d: command not found", "arity": b"error: expected 1 argument, passed 2",
           "undef": b"error: 'undefined%d' not defined", "nested": b"error: deep", "loop": b"error: in-loop%d"}
    werrs = sorted((msg[k] % i if b"%d" in msg[k] else msg[k]) for i, k in enumerate(ks) if k in msg)
    if errs != werrs:
        return "errors reported %s, should be %s for\n%s" % (errs, werrs, src)


# Handlers in the scopes of methods, syntaxes, objects and tasks that lie between.
@st.composite
def guards(draw):
    def i(n): return draw(st.integers(0, n - 1))

    def handler(m):
        c = i(7)
        h = [["write", "h%d" % m, "$ex"]] if i(5) else []
        if c <= 1: h.append(["return", "r%d" % m])
        elif c == 2: h.append(["throw", "$ex"])
        elif c == 3: h.append(["throw", "t%d" % m])
        elif c == 4: h.append(["if", ["equal?", "$ex", i(2) and "e0" or "t%d" % (m + 1)], {"b": [["return", "was%d" % m]]}])
        elif c == 5: h.append(["nosuch", "%d" % m])
        return h or [["write", "passed"]]

    def nested(b, d):
        while d > 0:
            c = i(4)
            b = [[["block", {"b": b}], ["if", "true", {"b": b}], ["while", "true", {"b": b + [["return", "loop"]]}],
                  ["list", [["method", [], {"b": b}]]]][c]]
            d -= 1
        return b

    n = 2 + i(4)
    prog = [["define", "m%d:" % n, "method", [], {"b": [["write", "deepest"]] + [[["throw", "e0"], ["div", "1", "0"], ["list", "$nowhere"], ["return", "fine"]][i(4)]]}]]
    for m in range(n - 1, -1, -1):
        call = ["m%d" % (m + 1)]
        c = i(5)
        if c == 0: call = ["eval", ["quote", call]]
        elif c == 1: call = ["list", call]
        b = ([["catch", "ex", {"b": handler(m)}]] if i(3) else []) + nested([["write", "v%d" % m, call]] if i(2) else [call], i(3))
        if i(2): b.append(["write", "after%d" % m])
        if i(2): b = [["export", "pub%d" % m, "1"]] + b
        k = i(3)
        if k == 0:
            # Its argument is the call.
            b2 = ([["catch", "ex", {"b": handler(m)}]] if i(4) else []) + nested([["write", "s%d" % m, ["e", "eval", "$x"]]] if i(2) else [["e", "eval", "$x"]], i(3))
            prog.append(["define", "g%d:" % m, "syntax", ["x"], "e", {"b": b2 + ([["write", "past%d" % m]] if i(2) else [])}])
            b = nested([["g%d" % m, call]], i(2)) if i(2) else b + [["g%d" % m, call]]
        what = ["method", [], {"b": b}]
        c = i(3)
        if c == 0: prog.append(["define", "m%d:" % m] + what)
        elif c == 1: prog.append(["define", "m%d:" % m, "block", {"b": [["export", "marker%d" % m, "1"], what]}])
        else: prog += [["define", "o%d:" % m, "object", {"b": [["export", "go"] + [what]]}], ["define", "m%d:" % m, "method", [], {"b": [["o%d" % m, "go"]]}]]
    prog.append(["write", "result", ["m0"]])
    prog.append(["write", "still", "here"])
    return prog


PARTS = [
    ohdiff.part("programs", ["exc", "err"], ["error|call"], 2400, 60000,
                "random programs with throw, errors from builtins, catch with handlers that return, re-throw, throw anew or fail, in nested methods, "
                "blocks, loops and handlers; output and final error must be the reference interpreter's. Non-trivial: two lines and a call or error"),
    ohdiff.part("programs-mixed", ["exc", "scope", "code", "obj", "err"], ["call"], 800, 20000,
                "the same mixed with exports, syntaxes, eval and objects. Non-trivial: two lines and a call"),
    Part("guards", guards, ohdiff.differential([], ["error|call"]), 1500, 40000,
         "chains of two to five methods, some members of objects or made in scopes that export, calling the next directly, as an argument, through eval or a syntax that evaluates the call, "
         "most with handlers that return, re-throw, throw, fail or pass on; output and final error must be the reference interpreter's. Non-trivial: two lines and a call or error"),
    Part("tasks", tasks_st, tasks, 320, 5000,
         "1 to 6 tasks of which some end in an uncaught exception, then waited for; every other command runs, each error is reported once. "
         "Non-trivial: several tasks, one failing"),
]
