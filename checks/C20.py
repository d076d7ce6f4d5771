"""C20: external commands receive exactly the arguments written."""
import os
from hypothesis import strategies as st
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: generated command lines of words of every kind, the argument bytes a program reports against those the words stand for"
ASSUMPTIONS = ["a symbol written or computed without quotes is a word: it is expanded if it holds * ? [ or starts with ~ (checked by C27)"]

SAFE = "abcxyzABZ0189_-+%^]!"
JOIN = ",./:=@"


rep = D.rep


def value_st():
    atom = st.one_of(D.text_st(8, nul=False).map(D.s), D.text_st(30, nul=False).map(D.s), D.rational_st().map(D.n), st.integers(0, 255).map(D.t),
                     st.text(alphabet=SAFE + JOIN + " '$#", max_size=6).map(D.y), st.just(None), st.just(D.y("true")))
    lists = st.lists(st.one_of(atom, st.lists(atom, min_size=1, max_size=2).map(D.lst)), min_size=1, max_size=3).map(D.lst)
    return st.one_of(atom, atom, atom, lists)


BAD = ["(chan)", "(pipe)", "(object)", "$cd", "$if", "$me", "(list a $cd)", "(task)", "'a\\0b'"]


def quoted(t, style):
    if style == "single" and "'" not in t:
        return "'" + t + "'"
    if style == "double":
        return None
    return D.quote(t)


@st.composite
def piece_st(draw, alone):
    """A word or a part of one: [kind, payload...]."""
    k = draw(st.sampled_from(["plain", "plain", "single", "dollar", "dq", "var", "var", "call", "back", "braces"] + (["splice", "lines", "status"] if alone else [])))
    if k == "plain":
        t = draw(st.text(alphabet=SAFE + JOIN, min_size=1, max_size=8))
        return [k, t]
    if k == "single":
        return [k, draw(D.text_st(10, nul=False).filter(lambda s: "'" not in s))]
    if k == "dollar":
        return [k, draw(D.text_st(10, nul=False))]
    if k == "dq":
        return [k, draw(st.lists(st.one_of(st.text(alphabet="ab *?~'#;|&(){}<> \n\t`", min_size=1, max_size=5).map(lambda s: ["t", s]),
                                           value_st().map(lambda v: ["v", v]), st.just(["$"])), max_size=4))]
    if k in ("var", "call", "braces"):
        return [k, draw(value_st())]
    if k == "back":
        return [k, draw(st.lists(D.text_st(6, nul=False).filter(lambda s: "\n" not in s), min_size=1, max_size=1))]
    if k == "lines":
        return [k, draw(st.lists(D.text_st(6, nul=False).filter(lambda s: "\n" not in s), max_size=4))]
    if k == "status":
        return [k, draw(st.integers(0, 255))]
    return [k, draw(st.lists(value_st(), max_size=4))]


def word_st():
    return st.one_of(piece_st(True).map(lambda p: [p]), piece_st(True).map(lambda p: [p]), piece_st(True).map(lambda p: [p]), st.lists(piece_st(False), min_size=2, max_size=4))


@st.composite
def case_st(draw):
    ctxs = ["plain", "plain", "str", "var", "command", "path", "method", "capture", "pipe", "block", "loop", "cond"]
    return {"words": draw(st.lists(word_st(), max_size=6)), "ctx": draw(st.sampled_from(ctxs)), "bad": draw(st.sampled_from([None] * 7 + BAD)), "at": draw(st.integers(0, 6)),
            "files": draw(st.booleans())}


class Gen:
    def __init__(self):
        self.defs = []
        self.n = 0

    def var(self, d):
        self.n += 1
        self.defs.append("define v%d %s\n" % (self.n, D.source(d)))
        return "v%d" % self.n

    def piece(self, p):
        """Source text and the values it stands for."""
        k, x = p
        if k == "plain":
            return x, [D.y(x)]
        if k == "single":
            return "'" + x + "'", [D.s(x)]
        if k == "dollar":
            return D.quote(x), [D.s(x)]
        if k == "dq":
            src, val = "", ""
            for i, u in enumerate(x):
                if u[0] == "t":
                    src += u[1]
                    val += u[1]
                elif u[0] == "$":
                    src += "$$"
                    val += "$"
                else:
                    src += "${%s}" % self.var(u[1])
                    val += rep(u[1])
            return '"' + src + '"', [D.s(val)]
        if k == "var":
            return "$" + self.var(x), [x]
        if k == "braces":
            return "${%s}" % self.var(x), [x]
        if k == "call":
            return "(resolve %s)" % self.var(x), [x]
        if k == "status":
            return "(vh exit %d)" % x, [D.t(x)]
        if k == "splice":
            return "(splice $%s)" % self.var(D.lst(x)), x
        return "`(vh puth '%s')" % "".join(l.encode("latin-1").hex() + "0a" for l in x), [D.s(l) for l in x]

    def word(self, pieces):
        if len(pieces) == 1:
            src, vals = self.piece(pieces[0])
            return src, vals
        srcs, vals = [], []
        for p in pieces:
            s, v = self.piece(p)
            # Two adjacent texts must not run into one name or quote.
            if srcs and (srcs[-1].startswith("$v") and s[0] in SAFE + "[*?~" or srcs[-1][-1] == "$"):
                s = "''" + s
                v = [D.s("")] + v
            srcs.append(s)
            vals.append(v)
        flat = [x for v in vals for x in v]
        return "".join(srcs), [D.s("".join(rep(x) for x in flat)) if any(x is not None and x[0] == "s" for x in flat) else D.y("".join(rep(x) for x in flat))]


def expands(d):
    """Is this value a word that is expanded?"""
    return d is not None and d[0] == "y" and (d[1].startswith("~") or any(c in d[1] for c in "*?["))


def check(ctx, case):
    g = Gen()
    words, want = [], []
    for w in case["words"]:
        if w == [["plain", ":"]]:
            continue
        src, vals = g.word(w)
        if any(expands(v) for v in vals):
            continue
        words.append(src)
        want += vals
        ctx.label(*[p[0] for p in w] if len(w) == 1 else ["joined"])
    bad = case["bad"]
    if bad:
        words.insert(min(case["at"], len(words)), bad.replace("'a\\0b'", "$'a\\x00b'"))
    # Words ending in a colon take the rest of the command as their value.
    for i, w in enumerate(words):
        if w.endswith(":"):
            words[i] = w + "''"
    cwd = ctx.dir()
    if case["files"]:
        for n in ("a", "ab", "*", "x", "A0", "b1", "~"):
            open(os.path.join(cwd, n), "w").close()
    run = "vh args"
    if bad:
        run = "vh mark %s" % os.path.join(cwd, "ran")
    rest = " ".join([""] + words)
    c = case["ctx"]
    exe = ctx.paths["vh"]
    if c == "str":
        run = run.replace("vh", "'vh'", 1)
    elif c == "var":
        g.defs.append("define prog vh\n")
        run = run.replace("vh", "$prog", 1)
    elif c == "command":
        run = "command " + run
    elif c == "path":
        run = run.replace("vh", exe, 1)
    line = run + rest
    if c == "method":
        line = "pass" + rest
        g.defs.append("define pass: method ((args)) {\n %s (splice $args)\n}\n" % run)
    elif c == "capture":
        line = "for (capture (%s)) $write-line" % line
    elif c == "pipe":
        line = line + " | vh cat"
    elif c == "block":
        line = "block {\n %s\n}" % line
    elif c == "loop":
        line = "define once true\nwhile $once {\n set once ()\n %s\n}" % line
    elif c == "cond":
        line = "if (%s) {\n vh args yes\n}" % line
    ctx.label("in " + c)
    src = "".join(g.defs)
    if bad:
        src = "define me: method () {\n}\ndefine task: method () {\n spawn {\n }\n}\n" + src
        src += "(method () {\n catch ex {\n  write-line caught\n  return ()\n }\n%s\n write-line not caught\n})\n" % line
        ctx.label("refused")
    else:
        src += line + "\n"
    r = ctx.script(src, cwd=cwd)
    if bad:
        ran = os.path.exists(os.path.join(cwd, "ran"))
        if r.hang or r.rc or r.err or r.out != b"caught\n" or ran:
            return "want it refused (run: %s), got %r\n%s" % (ran, r, src)
        ctx.nontrivial = True
        return
    w = ""
    for v in want:
        w += "[" + rep(v).encode("latin-1").hex() + "]\n"
    w += "end\n"
    if c == "cond":
        w += "[796573]\nend\n"
    if r.hang or r.rc or r.err or r.out.decode("latin-1") != w:
        return "want %r, got %r\n%s" % (w, r, src)
    ctx.nontrivial = len(words) > 1


PARTS = [
    Part("words", case_st, check, 2500, 60000,
         "up to six words: plain, quoted in each way, interpolated, variables and results holding values of every type, backquotes, splices and words joined from these, passed to a program named directly, as a "
         "string, by variable, path or command, in methods, captures, pipelines, blocks, loops and conditions, with files about that a stray expansion would find; some with a value that has no text. "
         "Non-trivial: two words, or a refusal"),
]
