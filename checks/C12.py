"""C12: arithmetic and comparison are exact over rationals."""
from fractions import Fraction

from hypothesis import strategies as st
import ohcalc as K
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: stateful sequences of operations against exact rational arithmetic (Python's Fraction)"
ASSUMPTIONS = ["numbers are written in decimal, or with a 0x, 0b or 0o prefix, as integers, fractions, decimals or with an exponent",
               "mod gives the remainder that is not negative"]

ARITH = ["add", "sub", "mul", "div", "mod"]
COMPARE = ["lt?", "le?", "gt?", "ge?", "equal?"]


def text_of(draw, f):
    """Some text whose value is f."""
    f = Fraction(f)
    forms = ["plain"]
    if f.denominator == 1:
        forms += ["plus", "hex", "bin", "point", "frac1", "exp0"]
        if f.numerator % 10 == 0 and f:
            forms.append("exp")
    else:
        forms += ["unreduced", "hexfrac"]
        d = f.denominator
        while d % 2 == 0:
            d //= 2
        while d % 5 == 0:
            d //= 5
        if d == 1 and f.denominator < 10 ** 30:
            forms += ["decimal", "decimal", "decexp"]
    k = draw(st.sampled_from(forms))
    n, d, sign = abs(f.numerator), f.denominator, "-" if f < 0 else ""
    if k == "plus":
        return ("-" if f < 0 else "+") + str(n)
    if k == "hex":
        return sign + hex(n)
    if k == "bin":
        return sign + (bin(n) if n < 2 ** 40 else oct(n))
    if k == "point":
        return sign + str(n) + draw(st.sampled_from([".", ".0", ".000"]))
    if k == "frac1":
        m = draw(st.integers(1, 9))
        return sign + "%d/%d" % (n * m, m)
    if k == "exp0":
        return sign + "%de0" % n
    if k == "exp":
        z = len(str(n)) - len(str(n).rstrip("0"))
        return sign + "%d%s%d" % (n // 10 ** z, draw(st.sampled_from(["e", "E", "e+"])), z)
    if k == "unreduced":
        m = draw(st.integers(2, 12))
        return sign + "%d/%d" % (n * m, d * m)
    if k == "hexfrac":
        return sign + "%s/%s" % (hex(n), hex(d))
    if k in ("decimal", "decexp"):
        e = 0
        while (n * 10 ** e) % d:
            e += 1
        m = n * 10 ** e // d
        if k == "decexp":
            return sign + "%de-%d" % (m, e)
        t = str(m).rjust(e + 1, "0")
        return sign + t[:-e] + "." + t[-e:]
    return D.fr(f)


@st.composite
def operand(draw):
    """[source, value or null, kind]"""
    k = draw(st.sampled_from(["sym", "num", "sym", "num", "text", "status", "int", "bad"]))
    if k == "bad":
        t = draw(st.sampled_from(["'1'", "()", "(list 1)", "$add", "abc", "(chan 1)", "''", "1/0", "0x", "1e", "(symbol ' 1')", "(symbol '1 2')", "(symbol '')", "--1", "1/2/3", "nan"]))
        return [t, None, "bad"]
    f = draw(D.rational_st())
    if k == "int":
        f = str(draw(st.integers(-9, 9)))
    t = text_of(draw, f)
    if k == "sym":
        return ["(symbol '%s')" % t, f, "sym"]
    if k == "text":
        return ["(number '%s')" % t, f, "num"]
    if k == "status":
        return ["(status (number '%s'))" % t, f, "status"]
    if k == "int":
        return [f, f, "sym"]
    return ["(|number %s|)" % D.fr(Fraction(f)), f, "num"]


@st.composite
def case_st(draw):
    vs = draw(st.lists(operand(), min_size=1, max_size=6))
    ops = []
    for i in range(draw(st.integers(1, 10))):
        op = draw(st.sampled_from(ARITH + ARITH + COMPARE + ["number"]))
        n = {"mod": 2, "number": 1}.get(op)
        if n is None:
            lo = 2 if op in COMPARE else 0 if op == "add" else 1
            n = draw(st.integers(lo, 6))
        # Operands: variables (also earlier results), favouring the last.
        # Comparisons mostly of nearby values.
        args = []
        for _ in range(n):
            args.append(["v", draw(st.integers(0, len(vs) + len(ops) - 1))] if draw(st.booleans()) else ["o"] + draw(operand()))
        if op in COMPARE and draw(st.booleans()):
            base = Fraction(draw(D.rational_st()))
            step = draw(st.sampled_from([Fraction(0), Fraction(1), Fraction(1, 10 ** 25), Fraction(-1), Fraction(1, 3)]))
            same = draw(st.sampled_from(["num", "sym", "status"]))
            args = []
            for _ in range(n):
                t = text_of(draw, base)
                args.append(["o", "(%s '%s')" % ("number" if same == "num" else "symbol", t) if same != "status" else "(status (number '%s'))" % t, D.fr(base), same])
                base += draw(st.sampled_from([step, step, step, 0]))
        ops.append([op, args])
    return {"vs": vs, "ops": ops}


def apply(op, args):
    """args: [(value, kind)] -> ("v", datum, value, kind) | ("ex",) | ("either",)"""
    vals = [Fraction(v) if v is not None else None for v, _ in args]
    bad = None in vals
    if op == "equal?":
        # Of one kind: exactly by value (symbols by text, checked elsewhere).
        kinds = {k for _, k in args}
        if len(kinds) == 1 and kinds <= {"num", "status"}:
            ok = all(a == b for a, b in zip(vals, vals[1:]))
            return ("v", ["y", "true"] if ok else None, None, "bad")
        return ("any", None, "bad")
    if op in COMPARE:
        f = {"lt?": lambda a, b: a < b, "le?": lambda a, b: a <= b, "gt?": lambda a, b: a > b, "ge?": lambda a, b: a >= b}[op]
        for a, b in zip(vals, vals[1:]):
            if a is None or b is None:
                return ("ex",)
            if not f(a, b):
                # What follows need not be looked at.
                return ("either", None, "bad") if bad else ("v", None, None, "bad")
        return ("v", ["y", "true"], None, "bad")
    if bad:
        return ("ex",)
    if op == "number":
        r = vals[0]
    elif op == "add":
        r = sum(vals, Fraction(0))
    elif op == "mod":
        a, b = vals
        if a.denominator != 1 or b.denominator != 1 or b == 0:
            return ("ex",)
        r = Fraction(a.numerator % abs(b.numerator))
    else:
        r = vals[0]
        for x in vals[1:]:
            if op == "sub":
                r -= x
            elif op == "mul":
                r *= x
            else:
                if x == 0:
                    return ("ex",)
                r /= x
    return ("v", D.n(r), r, "num")


def check(ctx, case):
    state = [(o[1], o[2]) for o in case["vs"]]
    setup = "".join("define v%d %s\n" % (i, o[0]) for i, o in enumerate(case["vs"]))
    exprs, want, big = [], [], 0
    for j, (op, args) in enumerate(case["ops"]):
        vals, src = [], []
        for a in args:
            if a[0] == "v":
                vals.append(state[a[1]])
                src.append("$v%d" % a[1])
            else:
                vals.append((a[2], a[3]))
                src.append(a[1])
        w = apply(op, vals)
        if op == "number" and vals[0][1] == "bad" or any(k == "unknown" for _, k in vals):
            w = ("any", None, None, "unknown")
        if w[0] == "v" and w[3] == "num" and w[2].numerator.bit_length() + w[2].denominator.bit_length() > 20000:
            break
        want.append(w)
        exprs.append(("v%d" % len(state), "(%s)" % " ".join([op] + src)))
        state.append((D.fr(w[2]), "num") if w[0] == "v" and w[3] == "num" else (None, "unknown" if w[0] == "any" and w[3:] == ("unknown",) else "bad"))
        if w[0] == "v" and len(args) > 1:
            ctx.nontrivial = True
        ctx.label(op, "throws" if w[0] == "ex" else "value")
    after = ["$v%d" % i for i, o in enumerate(case["vs"]) if o[1] is not None]
    try:
        got, tail, src = K.run(ctx, setup, exprs, after)
    except K.Odd as ex:
        return str(ex)
    for (e, w, g) in zip(exprs, want, got):
        if w[0] == "v" and g != ("v", w[1]) or w[0] == "ex" and g[0] != "ex" or w[0] == "either" and g[0] != "ex" and g != ("v", None):
            return "%s gave %s, should be %s\n%s" % (e, g, w, src)
    for o, t in zip([o for o in case["vs"] if o[1] is not None], tail):
        f = D.fr(Fraction(o[1]))
        if len(t) != 1 or o[2] == "num" and t[0] != ["n", f] or o[2] == "status" and t[0] != ["t", f] or \
                o[2] == "sym" and (t[0][0] != "y" or o[0] not in (t[0][1], "(symbol '%s')" % t[0][1])):
            return "%s is %s afterwards\n%s" % (o, t, src)


PARTS = [
    Part("operations", case_st, check, 2600, 60000,
         "up to 10 operations on up to 6 variables and literals: integers, fractions, decimals, exponents and prefixed numbers up to 40 digits as "
         "symbols, numbers and statuses, results used again, sometimes operands that are no numbers. Every result must be exact and every operand "
         "unchanged at the end. Non-trivial: at least one operation with two operands that gives a value"),
]
