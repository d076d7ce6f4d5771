"""C23: redirections send exactly the right bytes to exactly the right place."""
import os
from hypothesis import strategies as st
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing (model-based): random programs of nested redirections, every file and stream afterwards against a model of files with offsets and of which stream is in effect"
ASSUMPTIONS = ["a file is not read and written at once by the redirections generated (what such a reader sees is a matter of buffering)",
               "files hold less than a buffer (4096 bytes) when read line by line"]

FILES = ["a", "b", "c", "ee1", "ee2"]


class Throw(Exception):
    pass


# ------------------------------------------------------------------ cases

OUTS = [">", ">>", ">|", ">&", ">>&", ">&|"]


@st.composite
def target_st(draw, op):
    k = draw(st.sampled_from(["file"] * 8 + ["var", "str", "path", "glob", "glob", "dev", "pipe", "missing", "dir", "chan"]))
    if op == "<":
        if k in ("chan", "pipe", "dir"): k = "file"
        if k == "missing": return ["file", draw(st.sampled_from(["nosuch", "sub/nosuch", "nodir/x"]))]
    if k in ("file", "var", "str", "path"): return [k, draw(st.sampled_from(FILES + ["sub/d"]))]
    if k == "glob": return [k, draw(st.sampled_from(["ee*", "[ab]", "a*", "ee[2-9]", "?", "sub/*", "zz*"]))]
    if k == "missing": return ["file", draw(st.sampled_from(["nodir/x", "a/x"]))]
    if k == "dir": return ["file", "sub"]
    if k in ("pipe", "chan"): return [k, draw(st.integers(0, 1))]
    return [k]


def text_st():
    return D.text_st(8).filter(lambda t: "\n" not in t and "\0" not in t)


@st.composite
def stmt_st(draw, depth, budget, force=None):
    budget[0] -= 1
    leafs = ["oe", "oe", "oe", "wl", "wl", "ewl", "cat", "rl", "rl", "throw", "nosuch"]
    k = draw(st.sampled_from(leafs if depth == 0 or budget[0] <= 0 else leafs + ["redir"] * 9 + ["seq"] * 3 + ["meth", "try", "val", "if"]))
    if force and draw(st.integers(0, 3)): k = force
    if k == "oe":
        t = draw(st.tuples(D.text_st(6), D.text_st(4)))
        return [k, t[0] + draw(st.sampled_from(["\n", "\n", ""])), draw(st.sampled_from(["", t[1] + "\n"])), draw(st.sampled_from([0, 0, 1, 7]))]
    if k in ("wl", "ewl"): return [k, draw(text_st())]
    if k == "throw":
        return [k, draw(st.sampled_from(["oops", "bang"]))] if draw(st.integers(0, 3)) == 0 else ["wl", "calm"]
    if k == "nosuch": return [k] if draw(st.integers(0, 3)) == 0 else ["rl"]
    if k == "redir":
        op = draw(st.sampled_from(OUTS + ["<", "<", ">"]))
        t = draw(target_st(op))
        if op in (">>", ">>&") and draw(st.integers(0, 2)) == 1:
            # Appended to again while it is open.
            t = ["file", draw(st.sampled_from(FILES))]
            inner = ["redir", draw(st.sampled_from([">>", ">>&"])), t, draw(stmt_st(depth - 1, budget))]
            return [k, op, t, ["seq", [["wl", draw(text_st())], inner, ["oe", draw(D.text_st(4)) + "\n", "", 0]]]]
        return [k, op, t, draw(stmt_st(depth - 1, budget))]
    if k in ("seq", "meth", "try", "if"):
        return [k, [draw(stmt_st(depth - 1, budget)) for _ in range(draw(st.integers(1, 3)))]]
    if k == "val":
        op = draw(st.sampled_from(OUTS))
        return [k, ["redir", op, draw(target_st(op)), ["oe", draw(st.sampled_from(["x\n", ""])), "", draw(st.sampled_from([0, 3, 255]))]]]
    return [k]


@st.composite
def case_st(draw):
    budget = [30]
    files = {f: draw(st.one_of(st.none(), st.lists(text_st(), max_size=3).map(lambda ls: "".join(l + "\n" for l in ls)), D.text_st(6))) for f in FILES + ["sub/d"]}
    return {"files": files, "stdin": draw(st.lists(text_st(), max_size=4).map(lambda ls: "".join(l + "\n" for l in ls))),
            "prog": [draw(st.one_of(stmt_st(4, budget, "redir").map(lambda s: ["try", [s]]), stmt_st(4, budget, "redir").map(lambda s: ["try", [s]]), stmt_st(3, budget, "redir"))) for _ in range(draw(st.integers(1, 6)))]}


# ------------------------------------------------------------------ model

class Inode:
    def __init__(self, data=b""): self.data = bytearray(data)


class Handle:
    """An open file, or one of the streams."""

    def __init__(self, inode, append=False):
        self.inode, self.append, self.at, self.buf = inode, append, 0, b""

    def write(self, b):
        d = self.inode.data
        if not b: return
        if self.append: self.at = len(d)
        if self.at > len(d): d += bytes(self.at - len(d))
        d[self.at:self.at + len(b)] = b
        self.at += len(b)

    def rest(self):
        b = bytes(self.inode.data[self.at:])
        self.at += len(b)
        return b


class Null(Handle):
    def __init__(self): self.buf = b""
    def write(self, b): pass
    def rest(self): return b""


class Chan:
    def __init__(self): self.items = []


class World:
    def __init__(self, ctx, case):
        self.ctx = ctx
        self.files = {f: Inode(t.encode("latin-1")) for f, t in case["files"].items() if t is not None}
        self.out, self.err, self.inp = Handle(Inode(), True), Handle(Inode(), True), Handle(Inode(case["stdin"].encode("latin-1")))
        self.pipes = [Handle(Inode(), True) for _ in range(2)]
        self.chans = [Chan(), Chan()]
        self.reading, self.writing, self.redirs = [], [], False

    def glob(self, pat):
        import fnmatch
        if "/" in pat:
            d, p = pat.split("/")
            return sorted(f for f in self.files if f.startswith(d + "/") and fnmatch.fnmatchcase(f[len(d) + 1:], p))
        # sub is a directory; it and the script's own files start with other letters.
        names = [f for f in self.files if "/" not in f] + ["sub"]
        return sorted(f for f in names if fnmatch.fnmatchcase(f, pat))

    def open(self, op, t):
        """The handle, or Throw; and what to do to close it."""
        k = t[0]
        if k == "pipe": return self.pipes[t[1]]
        if k == "chan": return self.chans[t[1]]
        if k == "dev": return Null()
        name = t[1]
        if k == "glob":
            m = self.glob(name)
            if not m: raise Throw("no matches found: " + name)
            if len(m) > 1: raise Throw("can't redirect to/from multiple files")
            name = m[0]
        shown = name if k != "path" else "./" + name
        there = name in self.files or name == "sub"
        if op == "<":
            if not there: raise Throw(shown + " does not exist")
            if name == "sub": raise Skip()
            if name in self.writing: raise Skip()
            return Handle(self.files[name])
        if op in (">", ">&") and there: raise Throw(shown + " exists")
        if name == "sub": raise Throw("open sub: is a directory")
        if name.startswith("nodir"): raise Throw("open %s: no such file or directory" % name)
        if name == "a/x": raise Throw("open a/x: " + ("not a directory" if "a" in self.files else "no such file or directory"))
        if name in self.reading: raise Skip()
        if not there: self.files[name] = Inode()
        h = Handle(self.files[name], op[:2] == ">>")
        if op in (">|", ">&|"): del self.files[name].data[:]
        h.name = name
        return h

    def run(self, s, i, o, e):
        """The value, where it is a status."""
        k = s[0]
        self.ctx.label("has " + k)
        if k == "oe":
            for h in (o, e):
                if isinstance(h, Chan): raise Throw("not a pipe")
            o.write(s[1].encode("latin-1"))
            e.write(s[2].encode("latin-1"))
            return s[3]
        if k in ("wl", "ewl"):
            h = o if k == "wl" else e
            if isinstance(h, Chan): h.items.append(s[1])
            else: h.write(s[1].encode("latin-1") + b"\n")
        elif k == "cat":
            if isinstance(o, Chan) or isinstance(e, Chan): raise Throw("not a pipe")
            if i.buf: raise Skip()
            o.write(i.rest())
            return 0
        elif k == "rl":
            i.buf += i.rest()
            if len(i.buf) > 4000: raise Skip()
            line = b"()"
            if i.buf:
                line, _, i.buf = i.buf.partition(b"\n")
                if not isinstance(o, Chan): line = b"<" + line + b">"
            if isinstance(o, Chan): o.items.append(line.decode("latin-1"))
            else: o.write(line + b"\n")
        elif k == "throw": raise Throw(s[1])
        elif k == "nosuch": raise Throw("nosuchcmd: command not found")
        elif k in ("seq", "meth", "if"):
            v = None
            for x in s[1]: v = self.run(x, i, o, e)
            return v
        elif k == "try":
            try:
                for x in s[1]: self.run(x, i, o, e)
            except Throw as ex:
                self.ctx.label("refused or failed")
                line = "caught " + str(ex)
                if isinstance(o, Chan): o.items.append(line)
                else: o.write(line.encode("latin-1") + b"\n")
        elif k == "val":
            v = self.run(s[1], i, o, e)
            line = "v %d" % v
            if isinstance(o, Chan): o.items.append(line)
            else: o.write(line.encode() + b"\n")
        elif k == "redir":
            h = self.open(s[1], s[2])
            self.redirs = True
            self.ctx.label("op " + s[1], "to " + s[2][0])
            name = getattr(h, "name", None)
            if s[1] == "<":
                for f, n in self.files.items():
                    if getattr(h, "inode", None) is n: self.reading.append(f); break
                else: f = None
                try: return self.run(s[3], h, o, e)
                finally:
                    if f: self.reading.remove(f)
            if name: self.writing.append(name)
            try: return self.run(s[3], i, h, h if "&" in s[1] else e)
            finally:
                if name: self.writing.remove(name)


class Skip(Exception):
    pass


# ------------------------------------------------------------------ source

class Render:
    def __init__(self):
        self.pre, self.n = [], 0

    def fresh(self, s):
        self.n += 1
        return s + str(self.n)

    def target(self, t):
        k = t[0]
        if k in ("file", "glob"): return t[1]
        if k == "path": return "./" + t[1]
        if k == "str": return "'" + t[1] + "'"
        if k == "dev": return "/dev/null"
        if k == "var":
            v = self.fresh("v")
            self.pre.append("define %s '%s'\n" % (v, t[1]))
            return "$" + v
        return "$" + k + str(t[1])

    def cmd(self, s):
        k = s[0]
        hx = lambda t: "'" + t.encode("latin-1").hex() + "'"
        if k == "oe": return "vh oe %s %s %d" % (hx(s[1]), hx(s[2]), s[3])
        if k == "wl": return "write-line %s" % D.quote(s[1])
        if k == "ewl": return "stderr write-line %s" % D.quote(s[1])
        if k == "cat": return "vh cat"
        if k == "rl": return "line"
        if k == "throw": return "throw '%s'" % s[1]
        if k == "nosuch": return "nosuchcmd"
        if k in ("seq", "if"):
            return ("block" if k == "seq" else "if true") + " {\n" + "".join(self.cmd(x) + "\n" for x in s[1]) + "}"
        if k == "meth":
            m = self.fresh("m")
            b = "".join(self.cmd(x) + "\n" for x in s[1])
            self.pre.append("define %s: method () {\n%s}\n" % (m, b))
            return m
        if k == "try":
            m = self.fresh("t")
            b = "".join(self.cmd(x) + "\n" for x in s[1])
            self.pre.append("define %s: method () {\ncatch ex {\n write-line \"caught ${ex}\"\n return ()\n}\n%s}\n" % (m, b))
            return m
        if k == "val": return "value (%s)" % self.cmd(s[1])
        inner = self.cmd(s[3])
        return "%s %s %s" % (inner, s[1], self.target(s[2]))


PRE = """define pipe0: pipe
define pipe1: pipe
define chan0: chan 60
define chan1: chan 60
define line: method () {
 define l: stdin read-line
 if (null? $l) {
  write-line '()'
 } else {
  shown $l
 }
}
define shown: method (l) {
 if (chan? $stdout) {
  write-line $l
 } else {
  write-line "<${l}>"
 }
}
define value: method (s) {
 write-line "v ${s}"
}
"""
def check(ctx, case):
    w = World(ctx, case)
    uncaught = None
    try:
        for s in case["prog"]:
            w.run(s, w.inp, w.out, w.err)
    except Throw as ex:
        uncaught = str(ex)
    except Skip:
        ctx.label("outside the model")
        return None
    cwd = ctx.dir()
    os.mkdir(os.path.join(cwd, "sub"))
    for f, t in case["files"].items():
        if t is not None:
            with open(os.path.join(cwd, f), "wb") as x:
                x.write(t.encode("latin-1"))
    g = Render()
    body = "".join(g.cmd(s) + "\n" for s in case["prog"])
    src = PRE + "".join(g.pre) + body
    if uncaught is None:
        src += "chan0 close\nchan1 close\npipe0 writer-close\npipe1 writer-close\n"
        src += "vh puth 1e\nvh cat < $pipe0\nvh puth 1e\nvh cat < $pipe1\nvh puth 1e\n"
        src += "while (define l: chan0 read) {\n write $l\n}\nvh puth 1e\nwhile (define l: chan1 read) {\n write $l\n}\n"
    r = ctx.script(src, cwd=cwd, stdin=case["stdin"].encode("latin-1"))
    out = bytes(w.out.inode.data)
    if uncaught is None:
        out += b"\x1e" + b"\x1e".join(bytes(p.inode.data) for p in w.pipes)
        out += b"\x1e"
        if r.out.startswith(out):
            # What the channels hold follows as data.
            try:
                got = [[x[1] for l in D.lines(t) for x in l] for t in r.out[len(out):].split(b"\x1e")]
            except D.Bad:
                got = None
            if got == [c.items for c in w.chans]: out = r.out
    else:
        ctx.label("ends in error")
    bad = None
    if r.hang: bad = "hang %s" % r.hang
    elif r.out != out: bad = "standard output is %r, should be %r" % (r.out, out)
    elif uncaught is None and r.err != bytes(w.err.inode.data): bad = "standard error is %r, should be %r" % (r.err, bytes(w.err.inode.data))
    elif uncaught is not None and not (r.err.startswith(bytes(w.err.inode.data)) and r.err.endswith(("error: %s\n" % uncaught).encode("latin-1"))):
        bad = "standard error is %r, should be %r and end in error %r" % (r.err, bytes(w.err.inode.data), uncaught)
    got = {}
    for d, ds, fs in os.walk(cwd):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as x:
                got[os.path.relpath(p, cwd)] = x.read()
    want = {f: bytes(n.data) for f, n in w.files.items()}
    if bad is None and got != want:
        bad = "files differ (is, should be): %r" % {f: (got.get(f), want.get(f)) for f in set(got) | set(want) if got.get(f) != want.get(f)}
    if bad:
        return "%s\n%s\n%s" % (bad, src, {f: t for f, t in case["files"].items() if t is not None})
    ctx.nontrivial = w.redirs


PARTS = [
    Part("programs", case_st, check, 2600, 70000,
         "programs of one to six statements nesting redirections of all kinds to four levels around programs, writes, reads, blocks, methods, handlers and failures; targets new, existing, missing directories, directories, devices, "
         "pipes, channels, strings, variables and globs. All files, streams, pipes and channels compared. Non-trivial: a redirection took effect"),
]
