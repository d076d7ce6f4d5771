"""C25: command substitution yields exactly the lines a command wrote."""
import os
from hypothesis import strategies as st
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: generated commands with known output captured in generated places; the strings obtained, the arguments inserted and what reaches the real streams against those outputs"
ASSUMPTIONS = ["a line ends in a newline; anything else, a carriage return included, is part of the line"]


def hx(b): return b.hex() or "''"


@st.composite
def node_st(draw, depth):
    """A command and so its output: see Gen.cmd."""
    k = draw(st.sampled_from(["puth", "puth", "wl", "write", "lines"] + (["seq"] * 3 + ["pipe", "method", "inner", "loop", "redir", "err", "args", "if", "amp", "catch", "outer", "psub"] if depth else [])))
    if k == "puth": return [k, draw(D.text_st(10)) + draw(st.sampled_from(["\n", "\n", "", "\n\n"]))]
    if k == "wl": return [k, draw(D.text_st(8))]
    if k == "write": return [k, draw(st.lists(st.one_of(D.text_st(6, nul=False).map(D.s), D.rational_st().map(D.n), D.word_st().map(D.y)), min_size=1, max_size=3))]
    if k == "lines": return [k, draw(st.lists(D.text_st(5).filter(lambda t: "\n" not in t), max_size=5)), draw(st.booleans())]
    if k in ("seq",): return [k, [draw(node_st(depth - 1)) for _ in range(draw(st.integers(1, 3)))]]
    return [k, draw(node_st(depth - 1))]


def split(b):
    ls = b.split(b"\n")
    return ls[:-1] if ls[-1] == b"" else ls


class Gen:
    """Source for a command; its output as bytes, which may hold data written
    (whose form is checked by C01): here only exact text is used."""

    def __init__(self, ctx):
        self.pre, self.n, self.err, self.ctx = "", 0, b"", ctx

    def fresh(self, s):
        self.n += 1
        return "%s%d" % (s, self.n)

    def cmd(self, nd):
        k, x = nd[0], nd[1]
        self.ctx.label("has " + k)
        if k == "puth": return "vh puth %s" % hx(x.encode("latin-1")), x.encode("latin-1")
        if k == "wl": return "write-line %s" % D.quote(x), x.encode("latin-1") + b"\n"
        if k == "write":
            return "write-line " + " ".join(D.source(v) for v in x), b" ".join(v[1].encode("latin-1") for v in x) + b"\n"
        if k == "lines":
            t = "\n".join(x) + ("\n" if nd[2] and x else "")
            return "vh puth %s" % hx(t.encode("latin-1")), t.encode("latin-1")
        if k == "seq":
            cs = [self.cmd(y) for y in x]
            return "block {\n" + "".join(c + "\n" for c, _ in cs) + "}", b"".join(o for _, o in cs)
        c, o = self.cmd(x)
        if k == "pipe": return "%s | vh cat" % c, o
        if k == "method":
            m = self.fresh("m")
            self.pre += "define %s: method () {\n%s\n}\n" % (m, c)
            return m, o
        if k == "inner":
            # The lines captured, written again one by one.
            return "for (capture (%s)) $write-line" % c, b"".join(l + b"\n" for l in split(o))
        if k == "args":
            return "vh args `(%s)" % c if b"\0" not in o else c, b"".join(b"[%s]\n" % l.hex().encode() for l in split(o)) + b"end\n" if b"\0" not in o else o
        if k == "loop":
            v = self.fresh("k")
            return "block {\ndefine %s: list 1 2\nwhile $%s {\n%s\nset %s: %s tail\n}\n}" % (v, v, c, v, v), o * 2
        if k == "redir":
            return "block {\n%s\nvh puth 52 >| other.tmp\nvh cat < other.tmp\n}" % c, o + b"R"
        if k == "err":
            self.err += b"E"
            return "block {\nvh puteh 45\n%s\n}" % c, o
        if k == "if": return "if true {\n%s\n}" % c, o
        if k == "amp": return "block {\n%s &\nwait\n}" % c, o
        if k == "psub": return "vh catf |< (%s)" % c, o
        if k == "outer":
            # Written to the outer standard output by name.
            return "block {\n%s\nstdout write-line named\n}" % c, o + b"named\n"
        m = self.fresh("c")
        self.pre += "define %s: method () {\ncatch ex {\nwrite-line $ex\nreturn ()\n}\n%s\nthrow 'oops'\nwrite-line never\n}\n" % (m, c)
        return m, o + b"oops\n"


def files(cwd):
    for n in ("a", "ab", "*", "x", "A0", "b1", "~"):
        open(os.path.join(cwd, n), "w").close()


@st.composite
def case_st(draw):
    return {"node": draw(node_st(3)), "how": draw(st.sampled_from(["capture", "capture", "backquote", "backquote", "define", "two", "between", "member", "for", "spliced"])), "where": draw(st.sampled_from(["top", "method", "loop", "spawn", "pipe", "sub", "redirect"]))}


def check(ctx, case):
    g = Gen(ctx)
    c, o = g.cmd(case["node"])
    ls = split(o)
    how, where = case["how"], case["where"]
    if any(b"\0" in l for l in ls) and how in ("between", "spliced"): how = "capture"
    ctx.label("how " + how, "in " + where)
    hexes = b"".join(b"[%s]\n" % l.hex().encode() for l in ls)
    errs = 1
    if how == "capture": line, want = "write (capture (%s))" % c, [[D.lst([D.s(l.decode("latin-1")) for l in ls])]]
    elif how == "backquote": line, want = "write x `(%s) y" % c, [[D.y("x")] + [D.s(l.decode("latin-1")) for l in ls] + [D.y("y")]]
    elif how == "define": line, want = "define r: capture (%s)\nwrite (r length) $r" % c if ls else "write (number 0) (capture (%s))" % c, [[D.n(len(ls)), D.lst([D.s(l.decode("latin-1")) for l in ls])]]
    elif how == "two":
        line, want = "write `(%s) z `(%s)" % (c, c), [[D.s(l.decode("latin-1")) for l in ls] + [D.y("z")] + [D.s(l.decode("latin-1")) for l in ls]]
        errs = 2
    elif how == "member": line, want = "write ((cons x (capture (%s))) reverse)" % c, [[D.lst([D.s(l.decode("latin-1")) for l in reversed(ls)] + [D.y("x")])]]
    elif how == "for": line, want = "for (capture (%s)) $write" % c, [[D.s(l.decode("latin-1"))] for l in ls]
    elif how == "between": line, want = "vh args '' `(%s) '*' a* " % c, b"[]\n" + hexes + b"[2a]\n[61]\n[6162]\nend\n"
    else: line, want = "vh args (splice (capture (%s)))" % c, hexes + b"end\n"
    reps = 1
    if where == "method": line = "define doit: method () {\n%s\n}\ndoit" % line
    elif where == "loop": line, reps = "define again: list 1 2 3\nwhile $again {\n%s\nset again: again tail\n}" % line, 3
    elif where == "spawn": line = "wait (spawn {\n%s\n})" % line
    elif where == "pipe": line = "block {\n%s\n} | vh cat" % line
    elif where == "sub": line = "vh catf |< (block {\n%s\n})" % line
    elif where == "redirect": line = "block {\n%s\n} >| out.tmp\nvh catf out.tmp" % line
    cwd = ctx.dir()
    files(cwd)
    src = g.pre + line + "\n"
    r = ctx.script(src, cwd=cwd)
    if r.hang or r.rc or r.err != g.err * 0 + b"E" * len(r.err) or not r.err and g.err: return "standard error should be E's (%d at least), got %r\n%s" % (len(g.err), r, src)
    if isinstance(want, bytes):
        if r.out != want * reps: return "want %r, got %r\n%s" % (want * reps, r.out, src)
    else:
        try:
            got = D.lines(r.out)
        except D.Bad as ex:
            return "unreadable output %r\n%s" % (r.out, src)
        if got != want * reps: return "want %r, got %r\n%s" % (want * reps, got, src)
    ctx.nontrivial = len(ls) > 1 or case["node"][0] not in ("puth", "wl", "write", "lines")


# ------------------------------------------------------------------ errors

@st.composite
def errors_st(draw):
    return {"steps": [[draw(st.sampled_from(["puth", "wl", "big"])), draw(D.text_st(5))] for _ in range(draw(st.integers(0, 3)))],
            "fail": draw(st.sampled_from(["throw", "nosuch", "div", "undefined", "method", "stage", "nested", "arg"])), "how": draw(st.sampled_from(["capture", "backquote", "nested", "arg", "define", "pipe"])), "n": draw(st.integers(1, 3))}


def errors(ctx, case):
    ctx.label("fails by " + case["fail"], "in " + case["how"])
    lines = []
    for k, t in case["steps"]:
        b = t.encode("latin-1")
        lines.append("vh gen 200000 3" if k == "big" else "write-line %s" % D.quote(t) if k == "wl" else "vh puth %s" % hx(b))
    bad, msg = {"throw": ("throw 'oh no'", "oh no"), "nosuch": ("nosuchcmd x", "nosuchcmd: command not found"), "div": ("div 1 0", "division by zero"), "undefined": ("write-line $undefined", "'undefined' not defined"),
                "method": ("fails", "deep"), "stage": ("vh puth 41 | fails", "deep"), "nested": ("capture (fails)", "deep"), "arg": ("write-line x (fails)", "deep")}[case["fail"]]
    cmd = "block {\n" + "\n".join(lines + [bad, "write-line after"]) + "\n}"
    h = case["how"]
    if h == "capture": line = "capture (%s)" % cmd
    elif h == "backquote": line = "vh args `(%s)" % cmd
    elif h == "nested": line = "capture (block {\nwrite-line x\ncapture (%s)\nwrite-line y\n})" % cmd
    elif h == "arg": line = "write-line before `(%s) after" % cmd
    elif h == "define": line = "define x `(%s)" % cmd
    else: line = "capture (%s | vh cat)" % cmd
    src = "define fails: method () {\n throw deep\n write-line never\n}\ndefine f: method () {\n catch ex {\n  write-line caught $ex\n  return ()\n }\n %s\n write-line not\n}\n" % line
    src += "f\nwrite-line `(write-line fine)\n" * case["n"]
    r = ctx.script(src)
    want = ("caught %s\nfine\n" % msg).encode() * case["n"]
    if r.hang or r.rc or r.err or r.out != want: return "want %r, got %r\n%s" % (want, r, src)
    ctx.nontrivial = True


# ------------------------------------------------------------------ size

@st.composite
def big_st(draw):
    return {"lines": draw(st.sampled_from([1, 2, 50, 1500])), "size": draw(st.sampled_from([0, 1, 100, 4095, 4096, 4097, 8192, 65536, 300000])), "end": draw(st.booleans()), "by": draw(st.sampled_from(["file", "cat", "pipe", "task", "nested"])), "seed": draw(st.integers(0, 50))}


def big(ctx, case):
    n = case["lines"]
    size = min(case["size"], 400000 // n)
    ls = [bytes(33 + (case["seed"] + i * 13 + j * 7 + (j >> 6)) % 90 for j in range(size + (i % 3))) for i in range(n)]
    t = b"\n".join(ls) + (b"\n" if case["end"] else b"")
    ls = split(t)
    cwd = ctx.dir()
    with open(os.path.join(cwd, "in"), "wb") as f: f.write(t)
    c = {"file": "vh catf in", "cat": "vh cat < in", "pipe": "vh catf in | vh cat | vh cat", "task": "wait (spawn {\nvh catf in\n})", "nested": "for (capture (vh catf in)) $write-line"}[case["by"]]
    ctx.label("by " + case["by"], "%d lines" % n)
    src = "define r: capture (%s)\nwrite-line (r length)\nfor $r $write-line\n" % c
    r = ctx.script(src, cwd=cwd)
    if not ls: return None
    want = b"%d\n" % len(ls) + b"".join(l + b"\n" for l in ls)
    if r.hang or r.rc or r.err or r.out != want: return "%d lines, %d bytes written; got %r" % (len(ls), len(t), (r.out[:200], len(r.out), len(want), r.rc, r.hang, r.err[:300]))
    ctx.nontrivial = len(t) > 4096


PARTS = [
    Part("captures", case_st, check, 1500, 40000,
         "commands nested to three levels (programs, writes, blocks, pipelines, methods, loops, handlers, tasks, substitutions, inner captures) whose output may hold any bytes, empty lines and no final newline, captured and backquoted in "
         "each place, with files about that a stray expansion would find. Non-trivial: two lines or a compound command"),
    Part("errors", errors_st, errors, 400, 8000, "commands failing in eight ways after writing up to a buffer and more, inside captures of each kind, repeated; the error must be raised and nothing written reach the output. All are non-trivial"),
    Part("big", big_st, big, 60, 800, "outputs of up to 1500 lines and lines of up to 300000 bytes, around buffer sizes. Non-trivial: more than 4096 bytes"),
]
