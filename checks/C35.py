"""C35: repeated commands leak no descriptors, processes or fifos."""
import os
import stat
from hypothesis import strategies as st
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: random compositions of commands repeated a few and many times in one shell; descriptors, children and fifos left, counted from outside, must not grow with the repetitions, and no program may inherit a descriptor"
ASSUMPTIONS = ["descriptors that oh gives up to its garbage collector are released by it: the collector is made to run often, and the count is taken after more work",
               "a level is bounded if it is at most 10 descriptors higher after 12 times as many repetitions"]

# What is run as a program. It adds a line to the file named X if it was given more than 0, 1 and 2.
LEAF = ["vh extrafds $X", "vh exit 0", "vh exit 3", "vh puth 610a620a", "vh gen 9000 3", "write-line x", "vh extrafds $X"]
READERS = ["vh cat", "vh sum", "vh headc 1", "(method () {\n while (define l: read-line) {\n  write-line $l\n }\n})", "vh exit 0"]
FAIL = ["throw boom", "nosuch-program", "add a b", "vh $cd", "cat < missing/file", "write 1 > /", "no-such-name set x", "cd ()", "source missing", "vh exit 0 > $d0/full"]


@st.composite
def op_st(draw, depth=2):
    k = draw(st.sampled_from(["leaf", "to", "to", "append", "clobber", "both", "from", "nest-redir", "pipe", "pipe", "pipe3", "pipe-err", "early", "capture", "capture", "backquote",
                              "sub-in", "sub-out", "sub-both", "spawn", "spawn-late", "amp", "open", "open-rw", "open-drop", "pipe-drop", "pipe-use", "half", "chan", "fail", "fail", "fail-redir",
                              "fail-pipe", "fail-capture", "fail-sub", "source", "source-bad", "source-throw", "import", "import-bad", "import-new", "stage-throw", "task-error", "killed", "seq-block", "seq-method",
                              "seq-catch", "eval", "read-some", "exec-missing"] if depth else ["leaf", "to", "from", "pipe", "capture", "fail", "open"]))
    sub = [draw(op_st(depth - 1)) for _ in range(draw(st.integers(1, 3)))] if k.startswith("seq") or k in ("spawn", "capture", "pipe", "to", "sub-in", "amp", "source", "eval", "spawn-late") and depth and draw(st.booleans()) else []
    return [k, draw(st.integers(0, 6)), draw(st.integers(0, 9)), sub]


class Gen:
    def __init__(self, d):
        self.d, self.n = d, 0
        self.slow = 1

    def fresh(self, s):
        self.n += 1
        return s + str(self.n)

    def body(self, sub, otherwise):
        if not sub: return otherwise
        return "block {\n%s}" % "".join(self.line(o) for o in sub)

    def file(self, name, text):
        with open(os.path.join(self.d, name), "w") as f: f.write(text)
        return name

    def line(self, o):
        """A command that cannot fail."""
        return "(method () {\n catch ex {\n  return ()\n }\n%s\n})\n" % self.op(o)

    def op(self, o):
        k, a, b, sub = o
        leaf, reader, fail = LEAF[a % len(LEAF)], READERS[a % len(READERS)], FAIL[b % len(FAIL)]
        f, v = self.fresh("f"), self.fresh("v")
        x = self.body(sub, leaf)
        if k == "leaf": return leaf
        if k == "to": return "%s >| %s" % (x, f)
        if k == "append": return "%s >> %s" % (leaf, f)
        if k == "clobber": return "%s >| %s" % (leaf, f)
        if k == "both": return "%s >&| %s" % (leaf, f)
        if k == "from": return "%s < in > $z" % reader
        if k == "nest-redir": return "block {\n %s >| %sa\n %s >> %sb < in\n} >&| %sc" % (leaf, f, reader, f, f)
        if k == "pipe": return "%s | %s > $z" % (x, reader)
        if k == "pipe3": return "%s | vh cat | %s > $z" % (leaf, reader)
        if k == "pipe-err": return "vh oe 61 62 |& %s > $z" % reader
        if k == "early": return "vh gen 300000 1 | vh exit 0"
        if k == "capture": return "define %s: capture (%s)" % (v, x)
        if k == "backquote": return "vh args `(%s) > $z" % leaf
        if k == "sub-in": return "vh catf |< (%s) > $z" % x
        if k == "sub-out": return "vh tof |> (vh cat > $z) 61"
        if k == "sub-both": return "vh cat2 2 |< (%s) |< (vh exit 0) |> (vh cat > $z) > $z" % leaf
        if k == "spawn": return "wait (spawn {\n%s\n})" % x
        if k == "spawn-late": return "spawn {\n%s\n}" % x
        if k == "amp": return "block {\n%s &\n}\nwait" % x
        if k == "open": return "define %s: open w %s\n%s write-line a\n%s close" % (v, f, v, v)
        if k == "open-rw": return "define %s: open rwa %s\n%s write-line a\n%s read-line\n%s %s" % (v, f, v, v, v, ["close", "reader-close\n%s writer-close" % v, "writer-close\n%s reader-close" % v][b % 3])
        if k == "open-drop": return "define %s: open r in\n%s read-line" % (v, v)
        if k == "pipe-drop": return "define %s: pipe" % v
        if k == "pipe-use": return "define %s: pipe\n%s write a b\n%s writer-close\n%s read-line\n%s reader-close" % (v, v, v, v, v)
        if k == "half": return "define %s: pipe\n%s %s" % (v, v, ["reader-close", "writer-close"][b % 2])
        if k == "chan": return "define %s: chan 3\n%s write 1\n%s read\n%s close" % (v, v, v, v)
        if k == "fail": return fail
        if k == "fail-redir": return "%s %s %s" % (fail, [">|", ">>", ">&|", "< in >|"][a % 4], f)
        if k == "fail-pipe": return ["%s | vh cat", "vh gen 100 1 | %s > $z", "vh puth 61 | %s | vh cat"][a % 3] % fail
        if k == "fail-capture": return "define %s: capture {\n vh puth 61\n %s\n}" % (v, fail)
        if k == "fail-sub": return "vh catf |< (%s) > $z" % fail
        if k == "source": return "source %s" % self.file(self.fresh("src"), "vh extrafds $X\n%s\n" % x)
        if k == "source-bad": return "source %s" % self.file(self.fresh("src"), ["vh exit 0\n)\n", "block {\n", "write 'a\n", "vh exit 0 > > >\n"][a % 4])
        if k == "source-throw": return "source %s" % self.file(self.fresh("src"), "vh exit 0\n%s\nvh exit 0\n" % fail)
        if k == "import": return "import %s" % self.file(self.fresh("mod"), "module m%d\nexport a 1\nvh extrafds $X\n" % self.n)
        if k == "import-new": return "import %s" % self.file(self.fresh("mod"), "export a: open r in\nvh extrafds $X\n")
        if k == "import-bad": return "import %s" % [self.fresh("missing"), self.file(self.fresh("mod"), "module m%d\n%s\n" % (self.n, fail)), self.file(self.fresh("mod"), "block {\n")][a % 3]
        if k == "stage-throw": return "block {\n vh puth 61\n %s\n} | block {\n vh cat > $z\n}" % fail
        if k == "task-error": return "wait (spawn {\n(method () {\n catch ex {\n  return ()\n }\n %s\n})\n})" % fail
        if k == "killed": return "vh sig %d" % [9, 15, 2, 13][a % 4]
        if k == "seq-block": return "block {\n%s}" % "".join(self.line(o) for o in sub)
        if k == "seq-method": return "(method (a) {\n%s}) 1" % "".join(self.line(o) for o in sub)
        if k == "seq-catch": return "".join(self.line(o) for o in sub) + fail
        if k == "eval": return "eval (quote: block {\n%s\n})" % x
        if k == "read-some": return "block {\n read-line\n vh headc 1 > $z\n} < in"
        return "write 1 > /nonexistent/x"


PRE = """define d0 $PWD
define z /dev/null
export X: symbol (mend '' $PWD /extra)
define rounds %d
define i 0
while (lt? $i $rounds) {
set i: add $i 1
%s}
wait
define churn: method () {
 define j 0
 while (lt? $j 60) {
  set j: add $j 1
  define l: list $j $j $j $j (mend '' a $j)
  block {
   define k: mend ' ' $j $j
  }
 }
}
define j 0
while (lt? $j 6) {
 set j: add $j 1
 churn
 vh sleep %d
 vh census $d0/census
}
"""
MANY = 36
FEW = 3


def leak(ctx, case):
    ctx.label(*["has " + k for k in sorted(kinds(case))])
    counts = []
    for rounds in (FEW, MANY):
        d = ctx.dir()
        with open(os.path.join(d, "in"), "w") as f: f.write("one\ntwo\nthree\n")
        g = Gen(d)
        body = "".join(g.line(o) for o in case)
        r = ctx.script(PRE % (rounds, body, 15), d, env={"GOGC": "1", "TMPDIR": d})
        if r.hang: return "%d rounds hang: %r" % (rounds, r)
        try:
            with open(os.path.join(d, "census")) as f: lines = [l.split() for l in f]
        except OSError:
            lines = []
        if len(lines) != 6: return "%d rounds did not come to the end: %r" % (rounds, r)
        try:
            with open(os.path.join(d, "extra")) as f: x = f.read()
        except OSError:
            x = ""
        if x: return "a program was run with descriptors other than 0, 1 and 2: %r" % x[:300]
        left = sorted(f for f in os.listdir(d) if stat.S_ISFIFO(os.lstat(os.path.join(d, f)).st_mode) or f.startswith("fifo-"))
        if left: return "%d rounds left the named pipes %r" % (rounds, left[:5])
        counts.append((min(int(l[0]) for l in lines), min(int(l[1]) for l in lines), lines[-1][2:]))
    ctx.nontrivial = len(case) > 1 or bool(case[0][3])
    if counts[1][1]: return "%d children after %d rounds" % (counts[1][1], MANY)
    if counts[1][0] > counts[0][0] + 10:
        return "%d descriptors after %d rounds, %d after %d: %s" % (counts[0][0], FEW, counts[1][0], MANY, " ".join(counts[1][2])[:1500])


def kinds(case):
    out = set()
    for k, a, b, sub in case:
        out.add(k)
        out |= kinds(sub)
    return out


PARTS = [
    Part("leaks", lambda: st.lists(op_st(), min_size=3, max_size=7), leak, 130, 3000,
         "random compositions of redirections, pipelines, captures, substitutions, tasks, opens, sources, imports and failing commands, repeated %d and %d times; the shell's descriptors and "
         "children afterwards, fifos left in TMPDIR, and what every program run inherited. Non-trivial: at least two commands" % (FEW, MANY)),
]
