"""C16: equality is structural, symmetric and consistent; truth; types."""
from fractions import Fraction

from hypothesis import strategies as st
import ohcalc as K
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: random data, and mutations of it, compared by oh and structurally in Python; metamorphic (symmetry, reflexivity, adjacency)"
ASSUMPTIONS = ["data: (), symbols, strings, numbers, statuses and finite proper and improper lists of these"]


def atom():
    word = st.sampled_from(["a", "b", "1", "2", "true", "0", "", "1/2", "foo"])
    num = st.sampled_from(["0", "1", "-1", "1/2", "2"])
    return st.one_of(word.map(D.y), word.map(D.s), num.map(D.n), num.map(D.t), st.none(), D.text_st(5).map(D.s), D.rational_st().map(D.n), D.text_st(4).map(D.y))


def datum(): return st.recursive(atom(), lambda c: st.one_of(st.lists(c, max_size=4).map(D.lst), st.tuples(st.lists(c, min_size=1, max_size=3), atom()).map(lambda t: D.lst(*t))), max_leaves=12)


def paths(d, p=()):
    out = [p]
    if d is not None and d[0] == "p":
        out += paths(d[1], p + (1,)) + paths(d[2], p + (2,))
    return out


def put(d, p, v):
    if not p:
        return v
    d = list(d)
    d[p[0]] = put(d[p[0]], p[1:], v)
    return d


def at(d, p):
    for i in p:
        d = d[i]
    return d


def near(x, k):
    """An atom of the same kind with almost the same value."""
    t = x[1]
    if x[0] in "nt":
        f = Fraction(t)
        f = [f + 1, f - 1, -f, f * 2, f / 2, f + Fraction(1, 1000), f + 2 ** 32, f + 2 ** 64, f * 10 ** 20, 1 / f if f else f + 3][k % 10]
        return [x[0], str(f)]
    return [x[0], [t + "a", t[:-1], t.swapcase(), t[::-1], t + t, "a" + t, t + " ", t[1:], t + "0", "-" + t][k % 10]]


@st.composite
def mutate(draw, d):
    """d with one place changed, perhaps to something equal."""
    p = draw(st.sampled_from(paths(d)))
    x = at(d, p)
    k = draw(st.integers(0, 7))
    if k == 0 or x is None:
        return put(d, p, draw(atom()))
    if k >= 6 and x[0] in "ntsy":
        return put(d, p, near(x, draw(st.integers(0, 9))))
    if k == 1 and x[0] in "sy":
        return put(d, p, ["y" if x[0] == "s" else "s", x[1]])
    if k == 2 and x[0] in "nt":
        return put(d, p, ["t" if x[0] == "n" else "n", x[1]])
    if k == 3 and x[0] in "nt":
        return put(d, p, ["y", x[1]])
    if k == 3 and x[0] == "p":
        return put(d, p, x[2])
    if k == 4:
        return put(d, p, ["p", x, None])
    if k == 5 and x[0] == "p":
        return put(d, p, None)
    return d


@st.composite
def equal_st(draw):
    a = draw(datum())
    ds = [a]
    for _ in range(draw(st.integers(1, 3))):
        how = draw(st.integers(0, 4))
        ds.append(ds[-1] if how <= 1 else draw(mutate(ds[-1])) if how <= 3 else draw(datum()))
    return {"ds": ds, "how": draw(st.lists(st.integers(0, 2), min_size=len(ds), max_size=len(ds)))}


def build(d, how):
    """Source for the same value made in another way."""
    if how == 1:
        # Cell by cell.
        if d is None:
            return "()"
        if d[0] == "p":
            return "(cons %s %s)" % (build(d[1], 1), build(d[2], 1))
        if d[0] == "n" and "/" in d[1]:
            a, b = d[1].split("/")
            return "(div %d %d)" % (int(a) * 3, int(b) * 3)
        if d[0] == "n":
            return "(add %s 1 -1)" % d[1]
        if d[0] == "s" and len(d[1]) > 1:
            return "(mend %s %s %s)" % (D.quote(""), D.quote(d[1][:1]), D.quote(d[1][1:]))
    if how == 2:
        items = D.unlist(d) if d is not None else None
        if items:
            return "(((list %s) append %s) slice 0)" % (" ".join(build(x, 2) for x in items[:-1]), build(items[-1], 2))
    return D.source(d)


def norm(d):
    return d


def equal(ctx, case):
    ds = case["ds"]
    setup = "".join("define d%d %s\n" % (i, build(d, h)) for i, (d, h) in enumerate(zip(ds, case["how"])))
    n = len(ds)
    exprs, want = [], []
    T = ["y", "true"]
    for i in range(n):
        for j in range(n):
            exprs.append("(equal? $d%d $d%d)" % (i, j))
            want.append(T if ds[i] == ds[j] else None)
    exprs.append("(equal? %s)" % " ".join("$d%d" % i for i in range(n)))
    want.append(T if all(a == b for a, b in zip(ds, ds[1:])) else None)
    exprs.append("(equal? %s)" % " ".join("$d%d" % (i % n) for i in range(n + 1)))
    want.append(T if all(a == b for a, b in zip(ds + ds[:1], (ds + ds[:1])[1:])) else None)
    exprs += ["(not (equal? $d0 $d1))", "(equal? (list $d0 1) (list $d1 1))", "(equal? (cons $d0 $d1) (cons $d1 $d0))"]
    want += [None if ds[0] == ds[1] else T, T if ds[0] == ds[1] else None, T if ds[0] == ds[1] else None]
    ctx.nontrivial = any(d is not None and d[0] == "p" for d in ds)
    ctx.label("equal" if ds[0] == ds[1] else "unequal")
    try:
        got, tail, src = K.run(ctx, setup, exprs, ["$d%d" % i for i in range(n)])
    except K.Odd as ex:
        return str(ex)
    for e, w, g in zip(exprs, want, got):
        if g != ("v", w):
            return "%s gave %r, should be %r\n%s" % (e, g, w, src)
    if tail != [[d] for d in ds]:
        return "the operands became %r\n%s" % (tail, src)


# Text equality, truth and types of atoms and lists.
@st.composite
def atoms_st(draw):
    a = draw(atom().filter(lambda d: d is not None))
    out = [a]
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, 3))
        b = draw(atom().filter(lambda d: d is not None))
        if k <= 1:
            t = out[-1][1]
            kind = draw(st.sampled_from("sy"))
            b = [kind, t]
        out.append(b)
    return out


def textual(ctx, case):
    exprs, want = [], []
    T = ["y", "true"]
    texts = [a[1] for a in case]
    ops = " ".join(D.source(a) for a in case)
    same = all(t == texts[0] for t in texts)
    exprs += ["(eq? %s)" % ops, "(ne? %s)" % ops]
    want += [T if same else None, None if same else T]
    for a, b in zip(case, case[1:]):
        for x, y in ((a, b), (b, a)):
            exprs += ["(eq? %s %s)" % (D.source(x), D.source(y)), "(ne? %s %s)" % (D.source(x), D.source(y))]
            want += [T if x[1] == y[1] else None, None if x[1] == y[1] else T]
    for a in case + [None, D.lst([case[0]])]:
        k = "e" if a is None else a[0]
        truth = {"n": lambda: Fraction(a[1]) != 0, "t": lambda: Fraction(a[1]) == 0, "e": lambda: False}.get(k, lambda: True)()
        s = D.source(a)
        exprs += ["(not %s)" % s, "(bool %s)" % s, "((method (x) {\n if $x {\n  return yes\n } else {\n  return no\n }\n}) %s)" % s,
                  "(and %s 1)" % s, "(or %s 2)" % s, "((method (x n) {\n while (and $x $n) {\n  set n (number 0)\n }\n return (null? (or $n ()))\n}) %s (number 1))" % s]
        want += [None if truth else T, T if truth else None, ["y", "yes" if truth else "no"], ["y", "1"] if truth else a, a if truth else ["y", "2"], T if truth else None]
        for p, ks in (("symbol?", "y"), ("string?", "s"), ("number?", "n"), ("cons?", "pe"), ("null?", "e")):
            exprs.append("(%s %s)" % (p, s))
            want.append(T if k in ks else None)
    ctx.nontrivial = len(set(map(tuple, case))) > 1
    ctx.label("same text" if same else "different text")
    try:
        got, _, src = K.run(ctx, "", exprs)
    except K.Odd as ex:
        return str(ex)
    for e, w, g in zip(exprs, want, got):
        if g != ("v", w):
            return "%s gave %r, should be %r" % (e, g, w)


# Every value against every type predicate and every other value.
VALUES = [("(chan 1)", "chan?"), ("(pipe)", "pipe?"), ("(open w f)", "pipe?"), ("(map)", "object?"), ("(object {\n export a 1\n})", "object?"),
          ("(method () {\n add\n})", "method?"), ("(syntax () {\n add\n})", "syntax?"), ("$write", "method?"), ("$add", "method?"), ("$if", "syntax?"), ("$quote", "syntax?"),
          ("foo", "symbol?"), ("'foo'", "string?"), ("(number 1)", "number?"), ("(list 1)", "cons?"), ("()", "cons?"),
          ("((method () e {\n return $e\n}))", "object?"), ("((method () {\n return $return\n}))", "continuation?"), ("(spawn {\n add\n})", None), ("(status 1)", None)]
PREDS = ["chan?", "pipe?", "object?", "method?", "syntax?", "symbol?", "string?", "number?", "cons?", "continuation?"]


def types_st():
    return st.fixed_dictionaries({"i": st.integers(0, len(VALUES) - 1), "j": st.integers(0, len(VALUES) - 1), "hops": st.integers(0, 4)})


def types(ctx, case):
    """However many variables a value has passed through, its type stays."""
    (a, pa), (b, pb) = VALUES[case["i"]], VALUES[case["j"]]
    setup = "define v0 %s\ndefine w %s\ndefine pass: method (x) {\n return $x\n}\n" % (a, b)
    for h in range(case["hops"]):
        setup += "define v%d %s\n" % (h + 1, "(pass $v%d)" % h if h % 2 else "$v%d" % h)
    v = "$v%d" % case["hops"]
    T = ["y", "true"]
    exprs = ["(%s %s)" % (p, v) for p in PREDS]
    want = [T if p == pa else None for p in PREDS]
    exprs += ["(null? %s)" % v, "(bool %s)" % v]
    want += [T if a == "()" else None, None if a in ("()", "(status 1)") else T]
    if case["i"] != case["j"]:
        # Values of different types, or of different identity.
        exprs += ["(equal? %s $w)" % v, "(equal? $w %s)" % v, "(equal? (list 1 %s) (list 1 $w))" % v]
        want += [None] * 3
    if pa not in ("method?", "syntax?", "continuation?", None):
        exprs += ["(equal? %s $v0)" % v, "(equal? (list %s) (list $v0))" % v]
        want += [T, T]
    ctx.nontrivial = case["hops"] > 0
    ctx.label(str(pa))
    try:
        got, _, src = K.run(ctx, setup, exprs)
    except K.Odd as ex:
        return str(ex)
    for e, w, g in zip(exprs, want, got):
        if g != ("v", w):
            return "%s gave %r, should be %r\n%s" % (e, g, w, src)


def all_types():
    for i in range(len(VALUES)):
        for j in range(len(VALUES)):
            yield {"i": i, "j": j, "hops": (i + j) % 3}


# Atoms of the same kind with almost the same value.
SEEDS = [D.n("0"), D.n("3"), D.n("1/3"), D.t("0"), D.t("1"), D.t("4"), D.t("-1/2"), D.s(""), D.s("ab"), D.s("1"), D.y("ab"), D.y("abcdef"), D.y("1")]
FAMILIES = [[a] + [near(a, k) for k in range(10)] for a in SEEDS]


def near_st(): return st.fixed_dictionaries({"f": st.integers(0, len(FAMILIES) - 1), "i": st.integers(0, 10), "wrap": st.integers(0, 3)})


def near_check(ctx, case):
    fam = FAMILIES[case["f"]]
    a = fam[case["i"]]
    wrap = ["%s", "(list %s)", "(list 1 (cons 2 %s))", "(cons %s 3)"][case["wrap"]]
    T = ["y", "true"]
    exprs, want = [], []
    for b in fam:
        same = a == b
        x, y = wrap % D.source(a), wrap % D.source(b)
        exprs += ["(equal? %s %s)" % (x, y), "(equal? %s %s)" % (y, x), "(equal? %s %s %s)" % (x, x, y), "(eq? %s %s)" % (D.source(a), D.source(b)), "(ne? %s %s)" % (D.source(a), D.source(b))]
        want += [T if same else None] * 4 + [None if same else T]
    ctx.nontrivial = True
    ctx.label("near " + a[0])
    try:
        got, _, _ = K.run(ctx, "", exprs)
    except K.Odd as ex:
        return str(ex)
    for e, w, g in zip(exprs, want, got):
        if g != ("v", w):
            return "%s gave %r, should be %r" % (e, g, w)


def all_near():
    for f in range(len(FAMILIES)):
        for i in range(11):
            yield {"f": f, "i": i, "wrap": (f + i) % 4}


PARTS = [
    Part("near", near_st, near_check, 160, 1500,
         "each atom of a family of one kind and almost the same value (a number more or less, negated, doubled, 2^32 or 2^64 more; a text with a character more, fewer or of the other case), "
         "alone or in lists, against every other. All are enumerated. Non-trivial: all", enumerate=all_near),
    Part("equal", equal_st, equal, 1000, 40000,
         "two to four data, each a copy of the one before, that with one place changed, or new; built by list, cell by cell or by append: equal? of all pairs both ways, "
         "of all together, and of lists holding them, must be structural equality, and the data unchanged. Non-trivial: a list is involved"),
    Part("text-truth-types", atoms_st, textual, 700, 20000,
         "eq? and ne? of atoms with often the same text in other types, and not, bool, if, while, and, or and the type predicates of each. Non-trivial: different atoms"),
    Part("types", types_st, types, 200, 3000,
         "values of every type passed through up to four variables and calls: predicates, truth and equality with values of every other type. All pairs are enumerated. "
         "Non-trivial: passed on at least once", enumerate=all_types),
]
