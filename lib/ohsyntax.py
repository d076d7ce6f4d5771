"""Surface syntax trees: generator, renderer and documented expansion.

A tree is JSON. Rendering takes every layout choice from a list of small
integers (part of the case), so that layout shrinks with the case.

word   ["w", [atom...]]
atom   ["sym", t] ["sq", t] ["dsq", t, style] ["dq", t] ["ref", t] ["refl", cmd]
       ["refb", word] ["bqw", t] ["bql", cmd] ["par", cmd] ["nil"] ["num", f] ["meta", datum]
stmt   ["stmt", [[key, word]...], head, [arg...]]   arg: word | ["blk", [line...]] | ["in", word]
sub    ["sub", stmt, [[op, cmd, [word...]]...]]
redir  ["redir", inner, [[op, word]...]]
seq    ["seq", [redir...], trailing]
pipe   ["pipe", op, seq, pipe]
and    ["and", [pipe...]]      or ["or", [and...]]
line   ["line", or, bg]
"""
import ohdata as D
from hypothesis import strategies as st

JOINCH = list(",./:=@~")
REDIR = {"<": "input-from", ">": "output-to", ">|": "output-clobbers", ">>": "append-output-to",
         ">&": "output-errors-to", ">&|": "output-errors-clobbers", ">>&": "append-output-errors-to"}
PIPE = {"|": "pipe-output-to", "|&": "pipe-output-errors-to"}
SUB = {"|<": "-named-pipe-input-from", "|>": "-named-pipe-output-to"}


# ------------------------------------------------------------------ expansion

def Y(x): return ["y", x]


def atom(a):
    k = a[0]
    if k == "sym": return Y(a[1])
    if k in ("sq", "dsq"): return ["s", a[1]]
    if k == "dq": return D.lst([Y("interpolate"), ["s", a[1]]])
    if k == "ref": return D.lst([Y("resolve"), Y(a[1])])
    if k == "refl": return D.lst([Y("resolve"), expand(a[1])])
    if k == "refb": return D.lst([Y("resolve"), expand(a[1])])
    if k == "bqw": return D.lst([Y("splice"), D.lst([Y("capture"), Y(a[1])])])
    if k == "bql": return D.lst([Y("splice"), D.lst([Y("capture"), expand(a[1])])])
    if k == "par": return expand(a[1])
    if k == "nil": return None
    if k == "num": return ["n", a[1]]
    if k == "meta": return a[1]
    raise ValueError(k)


def expand(t):
    k = t[0]
    if k == "w":
        xs = [atom(a) for a in t[1]]
        return xs[0] if len(xs) == 1 else D.lst([Y("mend"), Y("")] + xs)
    if k == "stmt":
        cmd = []
        if t[2] is not None:
            for a in [t[2]] + t[3]:
                if a[0] == "blk":
                    cmd += [expand(l) for l in a[1]]
                elif a[0] == "in":
                    cmd.append(expand(a[1]))
                else:
                    cmd.append(expand(a))
        if t[1]:
            out = [Y("block")] + [D.lst([Y("export"), Y(n), expand(v)]) for n, v in t[1]]
            if t[2] is not None:
                out.append(D.lst(cmd))
            return D.lst(out)
        return D.lst(cmd)
    if k == "sub":
        out = [Y("process-substitution")] + D.unlist(expand(t[1]))
        for op, c, ws in t[2]:
            out.append(["p", Y(SUB[op]), expand(c)])
            out += [expand(w) for w in ws]
        return D.lst(out)
    if k == "redir":
        c = expand(t[1])
        for op, w in t[2]:
            c = D.lst([Y(REDIR[op]), expand(w), c])
        return c
    if k == "seq":
        return D.lst([Y("block")] + [expand(x) for x in t[1]])
    if k == "pipe":
        return ["p", Y(PIPE[t[1]]), ["p", expand(t[3]), expand(t[2])]]
    if k in ("and", "or"):
        return D.lst([Y(k)] + [expand(x) for x in t[1]])
    if k == "line":
        c = expand(t[1])
        return D.lst([Y("spawn"), c]) if t[2] else c
    raise ValueError(k)


# ------------------------------------------------------------------ rendering

class Render:
    def __init__(self, lay):
        self.lay, self.i = lay or [0], 0

    def pick(self, n):
        v = self.lay[self.i % len(self.lay)]
        self.i += 1
        return v % n

    def sp(self):
        """Space that must be there."""
        return [" ", "  ", "\t", " \t ", " \\\n", " \\\n  ", " \\\n\\\n\t"][min(self.pick(12), 6) if self.pick(2) else 0]

    def osp(self):
        return ["", " ", "\t", "  ", " \\\n "][self.pick(5)]

    def nlsp(self):
        """Where newlines are also skipped."""
        return ["", " ", "\n", " \n\n ", "\t", " \\\n\n"][self.pick(6)]

    def eol(self):
        return ["\n", " \n", " # a ' comment ) } \" \\\n", "\n\n", "\t\n# x | {\n \n", "#c\n"][self.pick(6)]

    def word(self, w):
        return "".join(self.atom(a) for a in w[1])

    def atom(self, a):
        k = a[0]
        if k == "sym": return a[1]
        if k == "sq": return "'" + a[1] + "'"
        if k == "dsq": return D.quote(a[1], a[2])
        if k == "dq": return '"' + a[1].replace("\\", "\\\\").replace('"', '\\"') + '"'
        if k == "ref": return "$" + a[1]
        if k == "refl": return "$(" + self.nlsp() + self.cmd(a[1]) + ")"
        if k == "refb": return "${" + self.word(a[1]) + "}"
        if k == "bqw": return "`" + a[1]
        if k == "bql": return "`(" + self.nlsp() + self.cmd(a[1]) + ")"
        if k == "par": return "(" + self.nlsp() + self.cmd(a[1]) + self.osp() + ")"
        if k == "nil": return ["()", "( )", "(\n)"][self.pick(3)]
        if k == "num": return "(|number " + a[1] + "|)"
        if k == "meta":
            d = a[1]
            if d[0] == "y": return "(|symbol " + D.quote(d[1]) + "|)"
            if d[0] == "t": return "(|status " + d[1] + "|)"
            return "(|cons %s %s|)" % (D.quote(d[1][1]), d[2][1])
        raise ValueError(k)

    def arg(self, a):
        if a[0] == "blk":
            return "{" + self.eol() + "".join(self.line(l) for l in a[1]) + self.osp() + "}"
        if a[0] == "in":
            return "{" + self.word(a[1]) + "}"
        return self.word(a)

    def cmd(self, t):
        k = t[0]
        if k == "stmt":
            parts = [n + "=" + self.word(v) for n, v in t[1]]
            if t[2] is not None:
                parts += [self.arg(a) for a in [t[2]] + t[3]]
            out = parts[0]
            for p in parts[1:]:
                out += self.sp() + p
            return out
        if k == "sub":
            out = self.cmd(t[1])
            for op, c, ws in t[2]:
                out += " " + op + self.osp() + "(" + self.cmd(c) + ")"
                for w in ws:
                    out += self.sp() + self.word(w)
            return out
        if k == "redir":
            out = self.cmd(t[1])
            for op, w in t[2]:
                out += self.sp() + op + ["", " ", "\t"][self.pick(3)] + self.word(w)
            return out
        if k == "seq":
            out = self.cmd(t[1][0])
            for x in t[1][1:]:
                out += self.osp() + ";" + self.osp() + self.cmd(x)
            return out + (self.osp() + ";" if t[2] else "")
        if k == "pipe":
            return self.cmd(t[2]) + " " + t[1] + self.nlsp() + self.cmd(t[3])
        if k in ("and", "or"):
            op = "&&" if k == "and" else "||"
            out = self.cmd(t[1][0])
            for x in t[1][1:]:
                out += self.osp() + op + self.nlsp() + self.cmd(x)
            return out
        raise ValueError(k)

    def line(self, l):
        s = ["", " ", "\t", "\n"][self.pick(4)] + self.cmd(l[1])
        if l[2]:
            # The next command may follow on the same line.
            return s + self.osp() + "&" + [self.eol(), " "][self.pick(2)]
        return s + self.eol()


def render(lines, lay):
    r = Render(lay)
    s = "".join(r.line(l) for l in lines)
    return s if s.endswith("\n") else s + "\n"


# ------------------------------------------------------------------ generation

SYMCH = "abcdexyz019AZ_-+!%?*^[]"


def sym_st():
    return st.one_of(st.text(alphabet=SYMCH, min_size=1, max_size=5),
                     st.sampled_from(["else", "method", "syntax", "if", "define", "x", "a\\ b", "\\;", "\\$x", "\\\\", "caf\xc3\xa9", "-n", "\\#"]))


def utf8(t):
    """Without bytes that are not UTF-8."""
    return t.encode("latin-1").decode("utf-8", "ignore").encode().decode("latin-1")


def raw_st(bad):
    return D.text_st(6).map(lambda t: "".join(c for c in t if c not in bad))


@st.composite
def word(draw, depth, head=False, inbrace=False):
    n = draw(st.sampled_from([1, 1, 1, 1, 2, 3]))
    atoms, last = [], None
    for i in range(n):
        kinds = ["sym", "sq", "dsq", "dq", "ref", "sym", "sym", "num", "meta", "nil", "bqw"]
        if depth > 0:
            kinds += ["refb", "bql", "par", "par"]
        if last is None and i == 0 and draw(st.integers(0, 2)) != 2:
            kinds = ["sym"]
        k = draw(st.sampled_from(kinds))
        if k == "sym":
            if last in ("sym", "ref", "bqw"):
                # Two runs of ordinary characters would be one symbol.
                a = ["sym", draw(st.sampled_from(JOINCH[::-1]))]
                last = "join"
            elif draw(st.integers(0, 5)) == 5:
                a = ["sym", draw(st.sampled_from(JOINCH[::-1]))]
                last = "join"
            else:
                a = ["sym", draw(sym_st())]
                last = "sym"
            if head and i == 1 and a[1] == "=" and atoms[0][0] in ("sym", "meta"):
                a[1] = "."
            if head and i == 0 and a[1] == "=":
                a[1] = "."
            atoms.append(a)
            continue
        if k == "bqw" and last in ("sym", "ref"):
            pass
        a = {"sq": lambda: ["sq", draw(raw_st("'"))],
             "dsq": lambda: ["dsq", draw(D.text_st(6)), draw(st.sampled_from([0, 2]))],
             "dq": lambda: ["dq", utf8(draw(raw_st("")))],
             "ref": lambda: ["ref", draw(st.text(alphabet="abcxyz_19-", min_size=1, max_size=4))],
             "num": lambda: ["num", draw(D.rational_st())],
             "meta": lambda: ["meta", draw(st.one_of(st.builds(D.y, D.text_st(5)), st.builds(D.t, st.integers(0, 255)),
                                                     st.builds(lambda x, y: ["p", ["s", x], ["y", y]], D.text_st(3), D.word_st())))],
             "nil": lambda: ["nil"],
             "bqw": lambda: ["bqw", draw(st.text(alphabet="abcxyz", min_size=1, max_size=4))],
             "refl": lambda: ["refl", draw(paren(depth - 1))],
             "refb": lambda: ["refb", draw(word(depth - 1))],
             "bql": lambda: ["bql", draw(paren(depth - 1))],
             "par": lambda: ["par", draw(paren(depth - 1))]}[k]()
        atoms.append(a)
        last = k if k in ("ref", "bqw") else None
    if draw(st.integers(0, 15)) == 15 and last is None and atoms[-1][0] in ("sq", "dsq"):
        atoms.append(["sym", "$"])
    return ["w", atoms]


def paren(depth):
    return command(depth)


@st.composite
def stmt(draw, depth, assign=True):
    assigns = []
    if assign and draw(st.integers(0, 5)) == 5:
        assigns = draw(st.lists(st.tuples(st.text(alphabet="abcXYZ_", min_size=1, max_size=4), word(depth - 1)).map(list),
                                min_size=1, max_size=2))
    if assigns and draw(st.integers(0, 3)) == 3:
        return ["stmt", assigns, None, []]
    hd = draw(word(depth, head=True))
    args = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        kinds = ["w"] * 5 + ["in"]
        if depth > 0:
            kinds += ["blk"]
        # What follows a block starts a new statement: a plain word here.
        after = bool(args) and args[-1][0] == "blk"
        k = "w" if after else draw(st.sampled_from(kinds))
        if k == "w":
            args.append(draw(word(depth, head=after)))
        elif k == "in":
            args.append(["in", draw(word(depth - 1))])
        else:
            args.append(["blk", draw(st.lists(line(depth - 1), max_size=2))])
    return ["stmt", assigns, hd, args]


@st.composite
def sub(draw, depth):
    if depth <= 0 or draw(st.integers(0, 7)) != 7:
        return draw(stmt(depth))
    s = draw(stmt(depth, assign=False))
    parts = draw(st.lists(st.tuples(st.sampled_from(sorted(SUB)), stmt(depth - 1), st.lists(word(depth - 1, head=True), max_size=2)).map(list),
                          min_size=1, max_size=3))
    return ["sub", s, parts]


@st.composite
def redir(draw, depth):
    s = draw(sub(depth))
    if draw(st.integers(0, 4)) != 4:
        return s
    return ["redir", s, draw(st.lists(st.tuples(st.sampled_from(sorted(REDIR)), word(depth - 1)).map(list), min_size=1, max_size=3))]


@st.composite
def seq(draw, depth):
    s = draw(redir(depth))
    if draw(st.integers(0, 5 if depth > 1 else 9)) != 5:
        return s
    rest = draw(st.lists(redir(depth), max_size=2))
    return ["seq", [s] + rest, (not rest) or draw(st.booleans())]


@st.composite
def pipe(draw, depth):
    s = draw(seq(depth))
    if draw(st.integers(0, 5 if depth > 1 else 9)) != 5:
        return s
    return ["pipe", draw(st.sampled_from(sorted(PIPE))), s, draw(pipe(depth))]


@st.composite
def nary(draw, depth, kind, inner):
    s = draw(inner(depth))
    if draw(st.integers(0, 5 if depth > 1 else 9)) != 5:
        return s
    return [kind, [s] + draw(st.lists(inner(depth), min_size=1, max_size=2))]


def andf(depth): return nary(depth, "and", pipe)
def command(depth): return nary(depth, "or", andf)


@st.composite
def line(draw, depth):
    return ["line", draw(command(depth)), draw(st.integers(0, 7)) == 7]


def size(t):
    return 1 + sum(size(x) for x in t if isinstance(x, list))
