"""C02: surface syntax always means its documented expansion."""
import base64
from vf import Part
import ohdata as D, ohsyntax as S
from hypothesis import strategies as st

NEEDS = ("oh", "probe")
TECHNIQUE = "property-based testing: grammar-generated trees rendered with random layout, documented expansion as oracle"
ASSUMPTIONS = ["the expansion and precedence table in lib/ohsyntax.py are the documented ones",
               "layouts are limited to those the grammar allows: newlines inside parentheses only after ( and after | && ||",
               "prefix assignments are not combined with process substitution",
               "text between double quotes is valid UTF-8 (known finding)"]


def b64(s):
    return base64.b64encode(s.encode("latin-1")).decode()


def commands(rep):
    return [base64.b64decode(c) for c in rep["cmds"]]


def strat():
    return st.fixed_dictionaries({"lines": st.lists(S.line(2), min_size=1, max_size=3),
                                  "lay": st.lists(st.integers(0, 11), min_size=1, max_size=12)})


def check(ctx, case):
    text = S.render(case["lines"], case["lay"])
    ctx.nontrivial = S.size(case["lines"]) > 12
    for k in ("sub", "redir", "seq", "pipe", "and", "or", "blk", "refl", "refb", "bql", "par", "dq", "meta"):
        if '"%s"' % k in repr(case["lines"]).replace("'", '"'):
            ctx.label(k)
    rep = ctx.probe({"op": "parse", "chunks": [b64(text)]})
    if rep["status"] != "incomplete" or rep.get("bad"):
        return "valid text refused: %s %s: %r" % (rep["status"], rep.get("error") or rep.get("bad"), text)
    want = [S.expand(l) for l in case["lines"]]
    got = []
    for c in commands(rep):
        try:
            got.append(D.lst(D.Reader(c).line()))
        except (D.Bad, ValueError, IndexError, TypeError) as ex:
            # An improper command (never expanded to here) or unreadable.
            return "unreadable command %r (%s) for %r" % (c, ex, text)
    if got != want:
        for g, w in zip(got + [None] * len(want), want):
            if g != w:
                return "text %r: expected %r got %r" % (text, w, g)
        return "text %r: extra commands %r" % (text, got[len(want):])
    return None


# Trailing colons take effect when the command is evaluated.
def colon_st():
    val = st.one_of(st.builds(lambda a: (["list"] + a), st.lists(D.word_st(), max_size=3)),
                    st.builds(lambda a: (["add"] + a), st.lists(st.integers(-9, 9).map(str), min_size=1, max_size=3)))
    return st.fixed_dictionaries({"op": st.sampled_from(["define", "export", "set"]),
                                  "name": st.text(alphabet="abcxyz", min_size=3, max_size=5),
                                  "val": val, "obj": st.booleans()})


def colon(ctx, case):
    op, name, val = case["op"], "v" + case["name"], " ".join(case["val"])
    ctx.nontrivial = True
    ctx.label(op)

    def prog(form):
        p = "define %s 0\n" % name if op == "set" else ""
        return p + form + "\nwrite $%s\n" % name
    a = ctx.script(prog("%s %s: %s" % (op, name, val)))
    b = ctx.script(prog("%s %s (%s)" % (op, name, val)))
    if (a.out, a.err, a.rc) != (b.out, b.err, b.rc) or not a.out or a.err:
        return "%s %s: with and without colon: %r / %r" % (op, name, a, b)


def kf(ctx, case):
    rep = ctx.probe({"op": "parse", "chunks": [b64(case["text"])]})
    got = [D.Reader(c).line() for c in commands(rep)]
    if got != [[["y", "x"], D.lst([["y", "interpolate"], ["s", case["string"]]])]]:
        return "%r read as %r" % (case["text"], got)


PARTS = [
    Part("expansion", strat, check, 4500, 60000,
         "1-4 commands from the surface grammar (all operators, quotes, joins, blocks, substitutions, literals) with random layout; "
         "non-trivial: tree of more than 12 nodes"),
    Part("colon", colon_st, colon, 120, 1200, "define/export/set with and without a trailing colon; all non-trivial"),
    Part("kf", None, kf, 0, 0, "known finding probe"),
]
