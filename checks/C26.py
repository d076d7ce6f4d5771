"""C26: process substitution connects commands through named pipes."""
import os, stat
from hypothesis import strategies as st
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: random commands with substitutions of known data; bytes received at both ends, value, exception, completion and fifos left over against their composition"
ASSUMPTIONS = ["the main command opens every path it is given (one that is never opened leaves its other end waiting, as with any fifo)",
               "an output substitution only sees data once the main command has opened it"]


def hx(b): return b.hex() or "''"


DELAY = st.sampled_from([0, 0, 0, 1, 5, 15])


@st.composite
def text_st(draw):
    return draw(st.one_of(D.text_st(10), D.text_st(10).map(lambda t: t + "\n"), st.just("BIG1"), st.just("")))


def raw(t):
    if t == "BIG1": return bytes((i * 7 + (i >> 8)) % 256 for i in range(150001))
    return t.encode("latin-1")


@st.composite
def input_st(draw, depth):
    k = draw(st.sampled_from(["puth", "puth", "wl", "block", "method", "pipe", "capture", "nested"] if depth else ["puth", "wl", "block"]))
    x = draw(input_st(depth - 1)) if k == "nested" else None
    return {"k": k, "t": draw(text_st()), "delay": draw(DELAY), "inner": x, "tail": draw(DELAY)}


@st.composite
def case_st(draw):
    shape = draw(st.sampled_from(["in", "in", "out", "out", "both", "method", "mixed"]))
    return {"tmp": draw(st.sampled_from(["tmp", "tmp", "t p", "t[1]", "*t", "~t", "tmp", "t'$x"])), "shape": shape, "ins": draw(st.lists(input_st(2), min_size=1, max_size=4)), "outs": draw(st.lists(st.tuples(st.sampled_from(["cat", "upper", "block", "method", "lines", "pipe"]), DELAY).map(list), min_size=1, max_size=4)),
            "data": draw(text_st()), "status": draw(st.integers(0, 255)), "throw": draw(st.one_of(st.none(), st.none(), st.none(), st.sampled_from(["main", "in", "out", "two"]))),
            "how": draw(st.sampled_from(["throw", "nosuch", "builtin"])), "ctx": draw(st.sampled_from(["plain", "value", "value", "method", "capture", "pipe", "spawn", "loop", "cond", "redirect"])), "order": draw(st.booleans())}


class Gen:
    def __init__(self, ctx, cwd):
        self.ctx, self.cwd, self.pre, self.n, self.marks = ctx, cwd, "", 0, []

    def fresh(self, s):
        self.n += 1
        return "%s%d" % (s, self.n)

    def source(self, b):
        """A command that writes these bytes."""
        if len(b) < 3000: return "vh puth %s" % hx(b)
        f = self.fresh("data")
        with open(os.path.join(self.cwd, f), "wb") as o: o.write(b)
        return "vh catf %s" % f

    def input(self, i, boom=None):
        k, b = i["k"], raw(i["t"])
        self.ctx.label("input " + k)
        steps = ["vh sleep %d" % i["delay"]] if i["delay"] else []
        if k == "wl" and len(b) < 3000:
            steps.append("write-line %s" % D.quote(b.decode("latin-1")))
            b += b"\n"
        elif k == "nested":
            c, ib = self.input(i["inner"])
            steps += ["vh catf |< (%s)" % c, self.source(b)]
            b = ib + b
        elif k == "pipe": steps.append("%s | vh cat" % self.source(b))
        elif k == "capture" and len(b) < 3000:
            steps.append("for (capture (%s)) $write-line" % self.source(b))
            ls = b.split(b"\n")
            b = b"".join(l + b"\n" for l in (ls[:-1] if ls[-1] == b"" else ls))
        else: steps.append(self.source(b))
        if i["tail"]:
            m = self.fresh("i")
            steps += ["vh sleep %d" % i["tail"]] + (["vh mark marks %s" % m] if not boom else [])
            if not boom: self.marks.append(m)
        if boom: steps.append(boom)
        if k == "method":
            m = self.fresh("m")
            self.pre += "define %s: method () {\n%s\n}\n" % (m, "\n".join(steps))
            return m, b
        return steps[0] if len(steps) == 1 and k != "block" else "block {\n%s\n}" % "\n".join(steps), b

    def output(self, o, boom=None):
        """A command reading its input into a file; the file and a function on the bytes."""
        k, d = o
        self.ctx.label("output " + k)
        f = self.fresh("out")
        fn = lambda b: b
        steps = ["vh sleep %d" % d] if d else []
        if k == "upper":
            steps.append("vh upper >| %s" % f)
            fn = lambda b: bytes(c - 32 if 97 <= c <= 122 else c for c in b)
        elif k == "lines":
            steps.append("block {\nwhile (define l: read-line) {\nwrite-line $l\n}\n} >| %s" % f)
            fn = lambda b: b if b.endswith(b"\n") or not b else b + b"\n"
        elif k == "pipe": steps.append("vh cat | vh cat >| %s" % f)
        else: steps.append("vh cat >| %s" % f)
        if d:
            m = self.fresh("o")
            steps += ["vh sleep %d" % d] + (["vh mark marks %s" % m] if not boom else [])
            if not boom: self.marks.append(m)
        if boom: steps.append(boom)
        if k == "method":
            m = self.fresh("m")
            self.pre += "define %s: method () {\n%s\n}\n" % (m, "\n".join(steps))
            c = m
        else: c = steps[0] if len(steps) == 1 else "block {\n%s\n}" % "\n".join(steps)
        return c, f, fn


def check(ctx, case):
    cwd = ctx.dir()
    tmp = os.path.join(cwd, case["tmp"])
    os.mkdir(tmp)
    g = Gen(ctx, cwd)
    shape, thr = case["shape"], case["throw"]
    def boom(k): return {"throw": ("throw 'boom%d'" % k, "boom%d" % k), "nosuch": ("nosuch%d" % k, "nosuch%d: command not found" % k), "builtin": ("div %d 0" % k, "division by zero")}[case["how"]]
    ins = case["ins"] if shape != "out" else []
    outs = case["outs"] if shape in ("out", "both", "mixed") else []
    msgs, want, files = [], b"", {}
    ctx.label("shape " + shape)
    isrc, ib = [], []
    for n, i in enumerate(ins):
        b = None
        if thr in ("in", "two") and n == 0:
            b, m = boom(1)
            msgs.append(m)
        c, d = g.input(i, b)
        isrc.append("|< (%s)" % c)
        ib.append(d)
    osrc, ofn = [], []
    for n, o in enumerate(outs):
        b = None
        if thr in ("out", "two") and n == 0:
            b, m = boom(2)
            msgs.append(m)
        if any(i["t"] == "BIG1" for i in ins) or case["data"] == "BIG1":
            if o[0] == "lines": o = ["cat", o[1]]
        c, f, fn = g.output(o, b)
        osrc.append("|> (%s)" % c)
        ofn.append((f, fn))
    data = raw(case["data"])
    if shape == "in":
        cmd = "vh catf " + " ".join(isrc)
        want = b"".join(ib)
    elif shape == "out":
        with open(os.path.join(cwd, "in"), "wb") as f: f.write(data)
        cmd = "vh teef %s < in" % " ".join(osrc)
        want = data
        files = {f: fn(data) for f, fn in ofn}
    elif shape == "both":
        cmd = "vh cat2 %d %s" % (len(isrc), " ".join(isrc + osrc))
        want = b"".join(ib)
        files = {f: fn(want) for f, fn in ofn}
    elif shape == "method":
        g.pre += "define main: method ((paths)) {\nfor $paths (method (p) {\nvh cat < $p\n})\nlist m (paths length)\n}\n"
        cmd = "main " + " ".join(isrc)
        want = b"".join(ib)
    else:
        with open(os.path.join(cwd, "plain"), "wb") as f: f.write(b"plain")
        k = len(isrc) // 2
        words = isrc[:k] + ["plain"] + isrc[k:]
        cmd = "vh cat2 %d %s" % (len(words), " ".join(words + osrc))
        want = b"".join(ib[:k]) + b"plain" + b"".join(ib[k:])
        files = {f: fn(want) for f, fn in ofn}
    status = None
    if thr in ("main", "two") or shape != "method" and case["order"]:
        # A method around the program, which adds a status or an error.
        extra = "vh exit %d" % case["status"]
        status = case["status"]
        if thr in ("main", "two"):
            extra, m = boom(3)
            msgs.append(m)
        name, _, rest = cmd.partition(" ")
        redir = ""
        if shape == "out": rest, _, redir = rest.rpartition(" < ")
        g.pre += "define wrap: method ((args)) {\n%s (splice $args)\n%s\n}\n" % (name, extra)
        cmd = "wrap " + rest + (" < " + redir if redir else "")
    value = "(m %d)" % len(isrc) if shape == "method" else str(status or 0)
    c = case["ctx"]
    ctx.label("in " + c)
    reps = 1
    if msgs:
        ctx.label("throws")
        src = g.pre + "(method () {\n catch ex {\n  vh puth 1e\n  write-line caught $ex\n  return ()\n }\n%s\n write-line not\n})\nwrite-line done\n" % cmd
    elif c in ("plain", "pipe", "capture"):
        if c == "pipe": cmd += " | vh cat"
        if c == "capture": cmd = "for (capture (%s)) $write-line" % cmd
        src = g.pre + cmd + "\n"
    else:
        if c == "method": cmd, s = "define run: method () {\n%s\n}\ndefine v: run" % cmd, None
        elif c == "spawn": cmd = "define v: wait (spawn {\n%s\n})" % cmd
        elif c == "loop":
            reps = 2
            cmd = "define v ()\ndefine k: list 1 2\nwhile $k {\nset v: block {\n%s\n}\nset k: k tail\n}" % cmd
        elif c == "cond": cmd = "define v (block {\n%s\n} || true)" % cmd
        elif c == "redirect": cmd = "define v (block {\n%s\n} >| here.tmp)\nvh catf here.tmp" % cmd
        else: cmd = "define v (%s)" % cmd
        src = g.pre + cmd + "\nvh puth 1e\nwrite-line v $v\n"
        if c == "cond" and status: value = "true"
    if c == "cond" and not msgs: src = src.replace("|| true", "|| quote true")
    r = ctx.script(src, cwd=cwd, env={"TMPDIR": tmp})
    if r.hang or r.rc: return "%r\n%s" % (r, src[:3000])
    if msgs:
        got, _, tail = r.out.rpartition(b"\x1e")
        ok = [b"caught %s\ndone\n" % m.encode() for m in msgs]
        if tail not in ok: return "want one of %r, got %r\n%s" % (ok, r, src[:3000])
    elif c in ("plain", "pipe"): got = r.out
    elif c == "capture":
        got = r.out
        if not want.endswith(b"\n") and want: want += b"\n"
    else:
        got, _, tail = r.out.rpartition(b"\x1e")
        if tail != b"v %s\n" % value.encode(): return "want value %r, got %r\n%s" % (value, r, src[:3000])
    if got != want * reps: return "output differs: %d bytes %r, should be %d bytes %r (standard error %r)\n%s" % (len(got), got[:200], len(want), want[:200], r.err[:200], src[:3000])
    if r.err: return "standard error %r\n%s" % (r.err, src[:3000])
    for f, b in files.items():
        p = os.path.join(cwd, f)
        x = open(p, "rb").read() if os.path.exists(p) else None
        if x != b: return "an output substitution got %r, should be %r\n%s" % (x and x[:200], b[:200], src[:3000])
    m = os.path.join(cwd, "marks")
    seen = sorted(open(m).read().split()) if os.path.exists(m) else []
    if seen != sorted(g.marks * reps): return "finished before the command did: %r, should be %r\n%s" % (seen, sorted(g.marks * reps), src[:3000])
    left = [f for d in (cwd, tmp) for f in os.listdir(d) if stat.S_ISFIFO(os.lstat(os.path.join(d, f)).st_mode)]
    if left: return "named pipes remain: %r\n%s" % (left, src[:3000])
    ctx.nontrivial = len(isrc) + len(osrc) > 1 or bool(msgs)


PARTS = [
    Part("substitutions", case_st, check, 1100, 30000,
         "commands with one to four input substitutions, output substitutions, or both, mixed with plain files; substituted programs, writes, blocks, methods, pipelines, captures and nested substitutions with random delays; data from "
         "nothing to 150000 bytes; errors in the command, an input, an output or several; in methods, loops, tasks, captures, pipelines and redirections. Non-trivial: two substitutions or an error"),
]
