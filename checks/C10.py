"""C10: user-defined syntax, eval and quasiquote treat code as data faithfully."""
import ohdiff
import ohmodel as M, ohprog as P
from vf import Part
from hypothesis import strategies as st

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: differential against a reference interpreter; metamorphic, code run directly and run as data"
ASSUMPTIONS = ["lib/ohmodel.py is the language definition of syntax, eval, quote and quasiquote"]


# The same program run directly, quoted and evaluated, or read from a pipe or file.
def meta_st():
    return st.fixed_dictionaries({"prog": P.program(["err", "scope", "exc"], 14, 4, 5), "how": st.sampled_from(["quote", "eval-each", "read", "string", "built", "syntax", "quasi"])})


def run(ctx, src, stdin=b""):
    r = ctx.script(src, stdin=stdin)
    return r


def tail(err):
    """The message an uncaught error ends in."""
    i = err.rfind(b"error: ")
    return err[i:] if i >= 0 else err


def meta(ctx, case):
    feats = ["err", "scope", "exc"]
    pro, prog, how = P.prologue(feats), case["prog"], case["how"]
    try:
        res = M.run(pro + prog)
    except M.OutOfModel:
        ctx.label("outside the model")
        return None
    ctx.nontrivial = len(prog) > 1 and len(res.lines) > 1
    ctx.label(how)
    base = M.render(pro)
    stdin = b""
    if how == "quote":
        src = base + "".join("define code: quote %s\neval $code\n" % M.elem(list(c), 0) for c in prog)
    elif how == "eval-each":
        src = base + "".join("eval (quote %s)\n" % M.elem(list(c), 0) for c in prog)
    elif how == "read":
        stdin = M.render(prog).encode("latin-1")
        # Evaluated one by one in the program's own scope.
        src = base + "define now ()\n" + "".join("set now: read-list\neval $now\n" for _ in prog)
    elif how == "string":
        # Written as data and read back before being run.
        src = base + "define pipe0: pipe\n" + "".join(
            "spawn {\n  pipe0 write (splice (quote %s))\n}\ndefine code: pipe0 read-list\neval $code\n" % M.elem(list(c), 0) for c in prog)
    elif how == "built":
        src = base + "".join("define code ()\n" + "".join("set code: cons (quote %s) $code\n" % M.elem(x, 0) for x in reversed(flat(c))) + "eval $code\n" for c in prog)
    elif how == "syntax":
        src = base + "define run-it: syntax ((body)) e {\n  e eval $body\n}\n" + "".join("run-it %s" % M.line(c) for c in prog)
    else:
        src = base + "".join("eval: quasiquote: %s %s" % (M.elem(flat(c)[0], 0), M.line(flat(c)[1:]) if len(flat(c)) > 1 else "\n")
                             for c in []) + "".join("define code (quasiquote (unquote (quote %s)))\neval $code\n" % M.elem(list(c), 0) for c in prog)
    r = run(ctx, src, stdin)
    if r.hang:
        return "%s: %r\n%s" % (how, r, src)
    import ohdata as D
    try:
        got = D.lines(r.out)
    except D.Bad as ex:
        return "%s: unreadable output %r (%s)\n%s" % (how, r.out, ex, src)
    if got != res.lines:
        return "%s: wrote %s, running it directly writes %s (standard error %r)\n%s" % (how, got, res.lines, r.err[:500], src)
    if (res.error is None) != (not r.err):
        return "%s: standard error %r, running it directly gives error %r\n%s" % (how, r.err[:500], res.error, src)
    if isinstance(res.error, str) and not r.err.endswith(b"error: %s\n" % res.error.encode("latin-1")):
        return "%s: standard error %r, running it directly gives error %r\n%s" % (how, r.err[:500], res.error, src)


def flat(c):
    out = []
    for x in c:
        if isinstance(x, dict) and "b" in x:
            out += x["b"]
        else:
            out.append(x)
    return out


# Syntax arguments arrive as written, and evaluating code leaves it as it was.
def code_st():
    return st.lists(P.program(["err", "scope", "exc", "code", "obj"], 10, 4, 3), min_size=1, max_size=2).map(lambda l: [c for p in l for c in p])


def verbatim(ctx, case):
    import ohdata as D
    feats = ["err", "scope", "exc", "code", "obj"]
    pro = P.prologue(feats)
    src = M.render(pro) + "define show: syntax ((args)) {\n  return $args\n}\ndefine try: method (c) e {\n  catch ex {\n    return failed\n  }\n  e eval $c\n}\n"
    want = []
    safe = []
    for c in case:
        src += "write (show %s)\n" % M.elem(list(c), 0)[1:-1]
        want.append(["show", M.datum(M.code(list(c)))])
    r = ctx.script(src)
    ctx.nontrivial = any(len(str(c)) > 40 for c in case)
    if r.hang or r.err:
        return "%r\n%s" % (r, src)
    got = D.lines(r.out)
    if got != [[w[1]] for w in want]:
        return "syntax got %s, written was %s\n%s" % (got, [w[1] for w in want], src)
    # Evaluating quoted code twice does not change the code.
    prog = pro + [["define", "code0", ["quote", list(c)]] for c in case[:1]] + [["define", "m", ["method", [], {"b": [["catch", "ex", {"b": [["return", "failed"]]}], ["eval", "$code0"], ["return", "ok"]]}]],
                  ["m"], ["write", "$code0"], ["m"], ["write", "$code0"]]
    try:
        res = M.run(prog)
    except M.OutOfModel:
        ctx.label("outside the model")
        return None
    if res.error is None:
        ctx.label("evaluated twice")
        return M.compare(ctx, prog, res)


PARTS = [
    ohdiff.part("programs", ["code", "err"], ["eval|syntax call"], 2000, 50000,
                "random programs defining and using syntaxes that evaluate, repeat, skip or return their arguments in the caller's environment, with eval, "
                "quote and quasiquote of random code; output must be the reference interpreter's. Non-trivial: two lines and an eval or syntax call"),
    Part("as-data", meta_st, meta, 900, 20000,
         "a random program run as quoted code, as code read from standard input, written to a pipe and read back, built with cons, passed to a "
         "syntax or through quasiquote; same output as running it directly. Non-trivial: several commands and lines"),
    Part("verbatim", code_st, verbatim, 600, 10000,
         "random code passed to a syntax arrives as written; evaluating quoted code leaves it unchanged. Non-trivial: code of some size"),
]
