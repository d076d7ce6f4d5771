"""oh data in Python: JSON-able values, an independent printer and reader.

A datum is JSON: null is the empty list, otherwise a list whose head names the
type: ["s", text], ["y", text], ["n", "p/q"], ["t", "p/q"], ["p", car, cdr].
Text is a latin-1 string: one character for each byte.
"""
from fractions import Fraction


def s(x): return ["s", x]
def y(x): return ["y", x]
def n(x): return ["n", fr(Fraction(x))]
def t(x): return ["t", fr(Fraction(x))]
def p(a, d): return ["p", a, d]


def fr(f):
    return str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)


def lst(items, tail=None):
    r = tail
    for i in reversed(items):
        r = ["p", i, r]
    return r


def unlist(d):
    """Items of a proper list, or None."""
    out = []
    while d is not None:
        if d[0] != "p":
            return None
        out.append(d[1])
        d = d[2]
    return out


# ------------------------------------------------------------------ source text

PLAIN = set("!%*+-0123456789?ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_abcdefghijklmnopqrstuvwxyz")


def quote(text, style=0):
    """oh source for a string with these bytes."""
    if style == 1 and "'" not in text:
        return "'" + text + "'"
    out = []
    for ch in text:
        o = ord(ch)
        if ch in "\\'":
            out.append("\\" + ch)
        elif ch == "\n" and style != 2:
            out.append("\\n")
        elif ch == "\t" and style != 2:
            out.append("\\t")
        elif 32 <= o < 127 and style != 2:
            out.append(ch)
        else:
            out.append("\\x%02x" % o)
    return "$'" + "".join(out) + "'"


def source(d, style=0):
    """An expression whose value is this datum (built, not quoted)."""
    if d is None:
        return "()"
    k = d[0]
    if k == "s":
        return quote(d[1], style)
    if k == "y":
        if d[1] and all(c in PLAIN for c in d[1]):
            return d[1]
        return "(symbol %s)" % quote(d[1], style)
    if k == "n":
        return "(number %s)" % quote(d[1])
    if k == "t":
        return "(status (number %s))" % quote(d[1])
    items = unlist(d)
    if items is not None:
        return "(list %s)" % " ".join(source(i, style) for i in items)
    return "(cons %s %s)" % (source(d[1], style), source(d[2], style))


# ------------------------------------------------------------------ literal reader

class Bad(Exception):
    pass


class Reader:
    """Reads the literal forms that write produces. Written from the manual's
    description of literals, not from oh's reader."""

    def __init__(self, b):
        self.t = b.decode("latin-1") if isinstance(b, bytes) else b
        self.i = 0

    def peek(self, k=1):
        return self.t[self.i:self.i + k]

    def ws(self):
        while self.peek() == " ":
            self.i += 1

    def line(self):
        """One line written by write: the elements of a list."""
        items = []
        while True:
            self.ws()
            if self.peek() in ("", "\n"):
                if self.peek() == "\n":
                    self.i += 1
                return items
            items.append(self.datum())

    def datum(self):
        self.ws()
        if self.peek(2) == "(|":
            self.i += 2
            return self.meta()
        c = self.peek()
        if c == "(":
            self.i += 1
            items = []
            while True:
                self.ws()
                if self.peek() == "":
                    raise Bad("unterminated list")
                if self.peek() == ")":
                    self.i += 1
                    return lst(items)
                items.append(self.datum())
        if self.peek(2) == "$'":
            self.i += 2
            return ["s", self.dollar()]
        j = self.i
        while self.peek() not in ("", " ", "\n", "(", ")", "|"):
            self.i += 1
        if j == self.i:
            raise Bad("unexpected %r at %d in %r" % (c, j, self.t[:200]))
        return ["y", self.t[j:self.i]]

    def meta(self):
        items = []
        while True:
            self.ws()
            if self.peek(2) == "|)":
                self.i += 2
                break
            if self.peek() == "":
                raise Bad("unterminated meta form")
            items.append(self.datum())
        if not items or items[0] is None or items[0][0] != "y":
            raise Bad("bad meta form")
        k = items[0][1]
        if k == "cons" and len(items) == 3:
            return ["p", items[1], items[2]]
        if k in ("number", "status") and len(items) == 2:
            return ["n" if k == "number" else "t", fr(Fraction(items[1][1]))]
        if k == "symbol" and len(items) == 2:
            return ["y", items[1][1]]
        raise Bad("bad meta form " + k)

    def dollar(self):
        out = []
        while True:
            c = self.peek()
            if c == "":
                raise Bad("unterminated string")
            self.i += 1
            if c == "'":
                return "".join(out)
            if c != "\\":
                out.append(c)
                continue
            e = self.peek()
            self.i += 1
            if e in "abfnrtv":
                out.append({"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}[e])
            elif e in "\\'\"":
                out.append(e)
            elif e == "x":
                out.append(chr(int(self.peek(2), 16)))
                self.i += 2
            elif e == "u":
                out.append(chr(int(self.peek(4), 16)).encode("utf-8", "surrogatepass").decode("latin-1"))
                self.i += 4
            elif e == "U":
                out.append(chr(int(self.peek(8), 16)).encode("utf-8", "surrogatepass").decode("latin-1"))
                self.i += 8
            elif e in "01234567":
                out.append(chr(int(e + self.peek(2), 8)))
                self.i += 2
            else:
                raise Bad("unknown escape \\" + e)


def lines(b):
    """All data written, one list of elements for each write."""
    r = Reader(b)
    out = []
    while r.i < len(r.t):
        out.append(r.line())
    return out


# ------------------------------------------------------------------ generators

def strategies():
    from hypothesis import strategies as st
    return st


def text_st(max_size=12, nul=True):
    """Byte strings as latin-1 text, biased to what quoting must protect."""
    st = strategies()
    special = st.sampled_from(list(" \t\n'\"\\$#;&|<>(){}`*?[]~=:,./@!%^-+") +
                              ["$'", "\\x", "\\n", "\\'", "(|", "|)", "${", "$$", "é".encode().decode("latin-1"),
                               "\xff", "\xc3", "\x7f", "\r", "\x1b", "\u20ac".encode().decode("latin-1"),
                               "\U0001f600".encode().decode("latin-1")] + (["\0"] if nul else []))
    plain = st.sampled_from(list("abcxyz019AZ_"))
    anyb = st.integers(0 if nul else 1, 255).map(chr)
    unit = st.one_of(plain, special, anyb)
    return st.lists(unit, max_size=max_size).map("".join)


def word_st():
    st = strategies()
    return st.text(alphabet="abcdexyz019AZ_-+!%?*^[]", min_size=1, max_size=6)


def rational_st():
    st = strategies()
    big = st.integers(-10 ** 40, 10 ** 40)
    small = st.integers(-20, 20)
    edge = st.sampled_from([0, 1, -1, 2 ** 31, 2 ** 31 - 1, -2 ** 31, 2 ** 32, 2 ** 63, 2 ** 63 - 1, -2 ** 63, 2 ** 64, 10 ** 18])
    i = st.one_of(small, small, edge, big)
    d = st.one_of(st.just(1), st.just(1), st.integers(1, 30), st.integers(1, 10 ** 20))
    return st.builds(lambda a, b: fr(Fraction(a, b)), i, d)


def literal(d):
    """How write prints it (proper lists only)."""
    if d is None:
        return "()"
    if d[0] == "s":
        return quote(d[1])
    if d[0] == "n":
        return "(|number %s|)" % d[1]
    if d[0] == "t":
        return "(|status %s|)" % d[1]
    if d[0] == "y":
        return d[1]
    return "(" + " ".join(literal(x) for x in unlist(d)) + ")"


def rep(d):
    """The text of a value, as documented for string contexts."""
    if d is None:
        return "()"
    if d[0] != "p":
        return d[1]
    return " ".join("(" + rep(x) + ")" if x is not None and x[0] == "p" else rep(x) for x in unlist(d))
