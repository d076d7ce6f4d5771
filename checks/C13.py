"""C13: string operations match their definition on every byte string."""
import re

from hypothesis import strategies as st
import ohcalc as K
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: random operations on byte strings against definitions in Python, and round trips"
ASSUMPTIONS = ["upper and lower are compared on ASCII and on letters that have a single mapping; on bytes that are not UTF-8 only their ASCII is not to be altered wrongly",
               "replacing and splitting by the empty string goes by UTF-8 character",
               "match: patterns of *, ?, [...] and plain characters on names without /"]

LETTERS = "éÉàÀñÑüÜžŽαΑωΩяЯжЖǆǅǄǳǲǉıſⅷⅧⓐ"
NONTRIVIAL = "at least one operation that changes or splits a non-empty text"


def u8(x): return x.encode("utf-8").decode("latin-1")


def txt(n=10):
    unit = st.one_of(st.sampled_from(list("abcABC xyz09,:/.-")), st.sampled_from(list("abcab,")), st.sampled_from([u8(c) for c in LETTERS]),
                     st.sampled_from(["\n", "\t", "'", '"', "\\", "$", "{", "}", "\0", "\xff", "\xc3", "\x80", u8("€"), u8("😀"), "*", "?", "[", "]", "%", "~", "\r"]))
    return st.lists(unit, max_size=n).map("".join)


def chars(t):
    """Splits latin-1 text into UTF-8 characters (bad bytes by themselves)."""
    out, i = [], 0
    while i < len(t):
        for n in (1, 2, 3, 4):
            try:
                t[i:i + n].encode("latin-1").decode("utf-8")
                if len(t[i:i + n]) == n:
                    out.append(t[i:i + n])
                    break
            except UnicodeDecodeError:
                pass
        else:
            n = 1
            out.append(t[i])
        i += n
    return out


@st.composite
def value(draw, t=None):
    """[kind, text] kind: s string, y symbol, n number."""
    k = draw(st.sampled_from("ssssyyn"))
    if k == "n":
        return ["n", draw(D.rational_st())]
    return [k, draw(txt()) if t is None else t]


@st.composite
def op_st(draw):
    op = draw(st.sampled_from(["length", "lower", "upper", "slice", "slice", "slice", "replace", "replace", "trim-prefix", "trim-suffix",
                               "mend", "rend", "rend", "undo", "match", "match", "string", "symbol", "interpolate", "interpolate", "interpolate", "format", "concat"]))
    v = draw(value())
    t = v[1]

    def part():
        """Often part of the text."""
        if t and draw(st.integers(0, 3)) < 3:
            i = draw(st.integers(0, len(t) - 1))
            return t[i:i + draw(st.integers(1, 2))]
        return draw(txt(3))
    if op == "slice":
        n = len(t)
        nums = st.one_of(st.integers(-n - 2, n + 2), st.sampled_from([0, n, n + 1, -n, -1, 2 ** 31, -2 ** 31, 2 ** 62, -2 ** 63, 2 ** 63 - 1]))
        return {"op": op, "v": v, "i": draw(nums), "j": draw(st.one_of(st.none(), nums)), "num": draw(st.booleans())}
    if op == "replace":
        return {"op": op, "v": v, "a": [draw(st.sampled_from("sy")), part()], "b": draw(value()), "n": draw(st.one_of(st.none(), st.integers(-1, 4)))}
    if op in ("trim-prefix", "trim-suffix"):
        k = draw(st.integers(0, 5))
        a = t[:k] if op == "trim-prefix" and k < 4 else t[len(t) - min(k, len(t)):] if k < 4 else part()
        return {"op": op, "v": v, "a": [draw(st.sampled_from("sy")), a]}
    if op == "mend":
        return {"op": op, "v": v, "l": draw(st.lists(value(), min_size=1, max_size=5))}
    if op in ("rend", "undo"):
        return {"op": op, "v": v, "a": [draw(st.sampled_from("sy")), part()]}
    if op == "match":
        name = "".join(draw(st.lists(st.sampled_from(list("aabc.-x*[") + [u8("é")]), max_size=6)))
        pat = []
        for c in chars(name):
            k = draw(st.integers(0, 9))
            esc = "\\" + c if c in "*[" else c
            pat.append([esc, esc, esc, esc, "?", "*", "[a-c]", "[^b]", "[%s]" % c, ""][k] if c not in "*[-" or k != 8 else esc)
        return {"op": op, "p": "".join(pat) + draw(st.sampled_from(["", "", "*", "?"])), "v": ["s", name]}
    if op == "interpolate":
        parts = draw(st.lists(st.one_of(txt(4), st.sampled_from(["$x0", "${x1}", "${x2}", "$$", "$x3", "${x0}y", "$x2.", "$$x0", "$$$x0", "$nosuch", "$ ", "${", "$", "${}", "$x0$x1", "$'", "${x 4}", "$y-5"])), max_size=6))
        return {"op": op, "v": ["s", "".join(parts)], "xs": draw(st.lists(value(), min_size=6, max_size=6))}
    if op == "format":
        specs = draw(st.lists(st.tuples(st.sampled_from(["", "x", " ", "%%", u8("é")]), st.sampled_from(["%s", "%5s", "%-6s", "%.3s", "%7.2s", "%v"])), max_size=4))
        return {"op": op, "f": "".join(a + b for a, b in specs), "specs": [b for _, b in specs], "l": [draw(value()) for _ in specs]}
    return {"op": op, "v": v}


def case_st():
    return st.lists(op_st(), min_size=1, max_size=8)


def src(v):
    return D.source(v)


def text(v):
    return v[1]


def case_map(t, upper):
    out, sure = [], True
    for c in chars(t):
        if len(c) == 1 and ord(c) >= 128:
            sure = False
            out.append(None)
            continue
        u = c.encode("latin-1").decode("utf-8")
        if u.isascii():
            if u.isalpha():
                u = u.upper() if upper else u.lower()
        elif u in LETTERS:
            u = u.upper() if upper else u.lower()
        out.append(u8(u))
    return "".join(x for x in out if x is not None), sure


def glob_re(p):
    """A regular expression over Unicode text for a pattern."""
    out, i = [], 0
    u = p.encode("latin-1").decode("utf-8")
    while i < len(u):
        c = u[i]
        i += 1
        if c == "*":
            out.append("[^/]*")
        elif c == "?":
            out.append("[^/]")
        elif c == "[":
            j = u.index("]", i + 1)
            out.append("[" + u[i:j] + "]")
            i = j + 1
        elif c == "\\":
            out.append(re.escape(u[i]))
            i += 1
        else:
            out.append(re.escape(c))
    return "(?s)" + "".join(out) + r"\Z"


REF = re.compile(rb"(?:\$\$)|(?:\$\{[^\n]+?\})|(?:\$[!%*+\-0-9?@A-Z\[\]^_a-z]+)")


def interpolate(t, env):
    def cb(m):
        g = m.group(0).decode("latin-1")
        if g == "$$":
            return b"$"
        k = g[1:]
        if k[0] == "{":
            k = k[1:-1]
        return env[k].encode("latin-1")
    return REF.sub(cb, t.encode("latin-1")).decode("latin-1")


def pad(spec, t):
    m = re.fullmatch(r"%(-?)(\d*)(?:\.(\d+))?[sv]", spec)
    cs = chars(t)
    if m.group(3):
        cs = cs[:int(m.group(3))]
    w = int(m.group(2) or 0) - len(cs)
    sp = " " * max(0, w)
    r = "".join(cs)
    return r + sp if m.group(1) else sp + r


def define(o):
    """(setup, expression, expected outcome or predicate)"""
    op = o["op"]
    v = o.get("v")
    t = v and text(v)
    s = lambda x: ("v", ["s", x])
    if op == "length":
        return "", "(str length %s)" % src(v), ("v", ["n", str(len(t))])
    if op in ("lower", "upper"):
        w, sure = case_map(t, op == "upper")
        e = "(str %s %s)" % (op, src(v))
        if sure:
            return "", e, s(w)

        def pred(g):
            # Only what is UTF-8 is known.
            return g[0] == "v" and g[1][0] == "s" and [c for c in g[1][1] if c.isascii()] == [c for c in w if c.isascii()]
        return "", e, pred
    if op == "slice":
        f = (lambda n: "(number %d)" % n) if o["num"] else str
        e = "(str slice %s %s%s)" % (src(v), f(o["i"]), "" if o["j"] is None else " " + f(o["j"]))
        n, i, j = len(t), o["i"], o["j"]
        if i < 0:
            return "", e, ("ex", "slice starts before first element")
        i = min(i, n)
        j = n if j is None else min(j, n) if j >= 0 else n + j
        if j < i:
            return "", e, ("ex", "end of slice before start")
        return "", e, s(t[i:j])
    if op == "replace":
        a, b, n = text(o["a"]), text(o["b"]), o["n"]
        e = "(str replace %s %s %s%s)" % (src(v), src(o["a"]), src(o["b"]), "" if n is None else " %d" % n)
        if a == "":
            cs = chars(t)
            k = len(cs) + 1 if n is None or n < 0 else min(n, len(cs) + 1)
            r = "".join((b if i < k else "") + c for i, c in enumerate(cs)) + (b if k > len(cs) else "")
        else:
            r = t.replace(a, b) if n is None or n < 0 else t.replace(a, b, n)
        return "", e, s(r)
    if op == "trim-prefix":
        a = text(o["a"])
        return "", "(str trim-prefix %s %s)" % (src(v), src(o["a"])), s(t[len(a):] if t.startswith(a) else t)
    if op == "trim-suffix":
        a = text(o["a"])
        return "", "(str trim-suffix %s %s)" % (src(v), src(o["a"])), s(t[:len(t) - len(a)] if t.endswith(a) else t)
    if op == "mend":
        kind = "s" if any(x[0] == "s" for x in o["l"]) else "y"
        return "", "(mend %s %s)" % (src(v), " ".join(map(src, o["l"]))), ("v", [kind, t.join(map(text, o["l"]))])
    if op in ("rend", "undo"):
        a = text(o["a"])
        parts = t.split(a) if a else chars(t)
        kind = "s" if v[0] == "s" else "y"
        if op == "rend":
            return "", "(rend %s %s)" % (src(o["a"]), src(v)), ("v", D.lst([[kind, x] for x in parts]))
        if not parts:
            return "", "()", ("v", None)
        return "", "(mend %s (splice (rend %s %s)))" % (src(o["a"]), src(o["a"]), src(v)), ("v", [kind, t])
    if op == "match":
        m = re.match(glob_re(o["p"]), t.encode("latin-1").decode("utf-8"))
        # A leading dot only matches a dot.
        hidden = t.startswith(".") and not o["p"].startswith(".")
        e = "(match %s %s)" % (src(["s", o["p"]]), src(v))
        if hidden:
            return "", e, lambda g: g[0] == "v" and (g[1] is None or m)
        return "", e, ("v", ["y", "true"] if m else None)
    if op == "string":
        return "", "(string %s)" % src(v), s(t)
    if op == "symbol":
        return "", "(symbol %s)" % src(v), ("v", ["y", t])
    if op == "concat":
        # Words joined in source.
        return "define x %s\n" % src(v), "a$x", ("v", ["s" if v[0] == "s" else "y", "a" + t])
    if op == "interpolate":
        env = {"x0": 0, "x1": 1, "x2": 2, "x3": 3, "x 4": 4, "y-5": 5}
        setup = "".join("define %s %s\n" % (k if " " not in k else "(symbol %s)" % D.quote(k), src(o["xs"][i])) for k, i in env.items() if " " not in k)
        e = "(interpolate %s)" % src(v)
        try:
            r = interpolate(t, {k: text(o["xs"][i]) for k, i in env.items() if " " not in k})
        except KeyError:
            return setup, e, lambda g: g[0] == "ex"
        return setup, e, s(r)
    if op == "format":
        f = o["f"]
        parts = re.split(r"%-?\d*(?:\.\d+)?[sv]", f.replace("%%", "\1"))
        r = "".join(a + b for a, b in zip(parts, [pad(p, text(x)) for p, x in zip(o["specs"], o["l"])] + [""])).replace("\1", "%")
        return "", "(str format %s)" % " ".join([src(["s", f])] + [src(x) for x in o["l"]]), s(r)
    raise AssertionError(op)


def check(ctx, case):
    setups, exprs, want = [], [], []
    for o in case:
        setup, e, w = define(o)
        # Each with variables of its own.
        if setup:
            e = "((method () {\n%s return %s\n}))" % (setup, e)
        exprs.append(e)
        want.append(w)
        ctx.label(o["op"])
        t = o["v"][1] if "v" in o else ""
        if t and w != ("v", o.get("v")):
            ctx.nontrivial = True
    try:
        got, _, srct = K.run(ctx, "", exprs)
    except K.Odd as ex:
        return str(ex)
    for e, w, g in zip(exprs, want, got):
        if not (w(g) if callable(w) else w == g):
            return "%s gave %r, should be %r" % (e, g, w if not callable(w) else "(see define)")


PARTS = [
    Part("operations", case_st, check, 2600, 60000,
         "up to 8 operations (str length/lower/upper/slice/replace/trim-prefix/trim-suffix/format, mend, rend, mend of rend, match, string, symbol, interpolate, "
         "joined words) on strings, symbols and numbers of any bytes, with separators and affixes mostly taken from the text and bounds around its length. "
         "Non-trivial: a non-empty text and a result other than the operand"),
]
