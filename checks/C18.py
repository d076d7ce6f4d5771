"""C18: pipes carry lines and data unaltered, in order, up to end of file."""
from hypothesis import strategies as st
import ohcalc as K
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: operation histories over pipes and files against a model of lines and commands; generated byte streams and concurrent writers and readers accounted for line by line"
ASSUMPTIONS = ["schedules are those the Go scheduler produces on several threads", "a file is read after it was written, not while it grows"]

T = ["y", "true"]

# ------------------------------------------------------------------ histories

WORDS = [["a"], ["b", "c"], ["word", "two", "three"], ["x"]]


def line_st():
    return st.one_of(
        st.sampled_from(WORDS).map(lambda w: ["cmd", " ".join(w), [D.lst([D.y(x) for x in w])]]),
        st.sampled_from(WORDS).map(lambda w: ["cmd", " \t" + "  ".join(w) + " # note", [D.lst([D.y(x) for x in w])]]),
        st.just(["cmd", "a & b", [D.lst([D.y("spawn"), D.lst([D.y("a")])]), D.lst([D.y("b")])]]),
        st.just(["cmd", "a & b & c", [D.lst([D.y("spawn"), D.lst([D.y("a")])]), D.lst([D.y("spawn"), D.lst([D.y("b")])]), D.lst([D.y("c")])]]),
        st.sampled_from([["cmd", "", []], ["cmd", "# only a note", []], ["cmd", "  ", []]]),
        st.sampled_from([["bad", "a )", None], ["bad", ") b", None], ["bad", "x | | y", None]]),
        st.just(["group", "x 'q\nr' s", [D.lst([D.y("x"), D.s("q\nr"), D.y("s")])]]),
        st.just(["group", "m {\n n\n}", [D.lst([D.y("m"), D.lst([D.y("n")])])]]),
        st.just(["open", "m {", None]), st.just(["open", "x 'q", None]),
        D.text_st(10).filter(lambda s: "\n" not in s).map(lambda s: ["raw", s, None]),
        D.text_st(30).filter(lambda s: "\n" not in s).map(lambda s: ["raw", s, None]),
        st.sampled_from([1, 50, 4090, 4096, 9000]).map(lambda n: ["cmd", "w" + "x" * n, [D.lst([D.y("w" + "x" * n)])]]))


DATA = [[["y", "a"]], [["s", "two words"], ["n", "3/2"]], [None], [D.lst([["y", "p"], ["s", "q\nr"]]), ["t", "3"]], [["s", ""]], [["s", "\xff\0'"]],
        [["p", ["y", "a"], ["y", "b"]]], [["s", "z" * 9000], ["y", "e"]]]


@st.composite
def history_st(draw):
    kinds = draw(st.lists(st.sampled_from(["pipe", "pipe", "file"]), min_size=1, max_size=2))
    n = len(kinds)
    steps = []
    for _ in range(draw(st.integers(6, 30))):
        op = draw(st.sampled_from(["write-line"] * 5 + ["write"] * 3 + ["read-line"] * 4 + ["read", "read-list"] * 4 + ["writer-close", "reader-close", "close", "fresh"]))
        i = draw(st.integers(0, n - 1))
        steps.append([op, i] + ([draw(line_st())] if op == "write-line" else [draw(st.sampled_from(DATA))] if op == "write" else []))
    return {"kinds": kinds, "steps": steps}


class Pipe:
    def __init__(self):
        self.lines, self.pend, self.r, self.w, self.used = [], [], True, True, 0


def history(ctx, case):
    kinds = case["kinds"]
    setup = "".join("define w%d: pipe\ndefine r%d $w%d\n" % (i, i, i) if k == "pipe" else "define w%d: open w f%d\ndefine r%d: open r f%d\n" % (i, i, i, i) for i, k in enumerate(kinds))
    P = [Pipe() for _ in kinds]
    files = len(kinds)
    exprs, want = [], []
    seen = 0

    def add(e, w):
        exprs.append(e)
        want.append(w)

    def read(i, op):
        """The outcome of reading a command, or None when it can't be told."""
        p = P[i]
        if not p.r:
            return ("v", None)
        if p.pend:
            c = p.pend.pop(0)
        else:
            c, k = None, 0
            while c is None:
                if k == len(p.lines):
                    if p.w and kinds[i] == "pipe":
                        return None     # would wait
                    del p.lines[:k]
                    return ("v", None)
                kind, text, cmds = p.lines[k]
                if kind == "raw":
                    return None
                k += 1
                if kind == "bad":
                    del p.lines[:k]
                    return ("ex", None)
                if kind == "open":
                    # Nothing that could finish it may follow.
                    if k < len(p.lines) or p.w:
                        return None
                    del p.lines[:k]
                    return ("ex", "incomplete command")
                if kind == "group":
                    if cmds is None:
                        return None
                    while k < len(p.lines) and p.lines[k][0] == "group" and p.lines[k][2] is None:
                        k += 1
                if cmds:
                    c, p.pend = cmds[0], list(cmds[1:])
            del p.lines[:k]
        return ("v", c[1] if op == "read" else c)

    for s in case["steps"]:
        op, i = s[0], s[1]
        p = P[i]
        ctx.label(kinds[i] + " " + op)
        if op in ("write-line", "write"):
            text = s[2][1] if op == "write-line" else D.source(D.lst(s[2]))
            if len(text) + p.used > 50000 and kinds[i] == "pipe":
                continue
            e = "(w%d write-line %s)" % (i, D.quote(text)) if op == "write-line" else "(w%d write %s)" % (i, " ".join(D.source(x) for x in s[2]))
            if not p.w:
                add(e, ("ex", "write to closed pipe"))
                continue
            if kinds[i] == "pipe" and not p.r:
                add(e, ("ex", None))
                continue
            add(e, ("v", D.lst([["s", text]] if op == "write-line" else s[2])))
            p.used += len(text) + 200
            if op == "write":
                p.lines.append(["cmd", None, [D.lst(s[2])]])
            elif s[2][0] == "group":
                for k, l in enumerate(text.split("\n")):
                    p.lines.append(["group", l, s[2][2] if k == 0 else None])
            else:
                p.lines.append(s[2])
        elif op == "read-line":
            if not p.r:
                add("(r%d read-line)" % i, ("v", None))
            elif p.lines and p.lines[0][1] is None:
                # Written as data: read as such.
                w = read(i, "read-list")
                add("(r%d read-list)" % i, w)
                seen += 1
            elif p.lines:
                kind, text, cmds = p.lines.pop(0)
                if kind == "group" and cmds:
                    # Its other lines make no sense on their own.
                    for l in p.lines:
                        if l[0] != "group" or l[2]:
                            break
                        l[0] = "raw"
                add("(r%d read-line)" % i, ("v", ["s", text]))
                seen += 1
            elif not p.w or kinds[i] == "file":
                add("(r%d read-line)" % i, ("v", None))
        elif op in ("read", "read-list"):
            save = list(p.lines), list(p.pend)
            w = read(i, op)
            if w is None:
                p.lines, p.pend = save
                continue
            if w[0] == "ex":
                p.pend = []
            add("(r%d %s)" % (i, op), w)
            seen += w != ("v", None)
        elif op == "writer-close":
            add("(w%d writer-close)" % i, ("v", None))
            p.w = False
        elif op == "reader-close":
            add("(r%d reader-close)" % i, ("v", None))
            p.r, p.pend = False, []
        elif op == "close":
            # For a file, this is the writer only.
            add("(w%d close)" % i, ("v", None))
            p.w = False
            if kinds[i] == "pipe":
                p.r, p.pend = False, []
        else:
            if kinds[i] == "pipe":
                add("(bool (set w%d (pipe)))" % i, ("v", T))
                add("(bool (set r%d $w%d))" % (i, i), ("v", T))
            else:
                add("(bool (set w%d (open w f%d)))" % (i, files), ("v", T))
                add("(bool (set r%d (open r f%d)))" % (i, files), ("v", T))
                files += 1
            P[i] = Pipe()
    # Everything else comes out.
    for i, p in enumerate(P):
        add("(w%d writer-close)" % i, ("v", None))
        p.w = False
        while True:
            w = read(i, "read-list")
            if w is None:
                if not p.lines or p.lines[0][1] is None:
                    ctx.label("undecided")
                    return None     # can't be told
                l = p.lines.pop(0)
                if l[0] == "group" and l[2]:
                    for m in p.lines:
                        if m[0] != "group" or m[2]:
                            break
                        m[0] = "raw"
                add("(r%d read-line)" % i, ("v", ["s", l[1]]))
                continue
            add("(r%d read-list)" % i, w)
            if w == ("v", None):
                break
            if w[0] == "ex":
                p.pend = []
        add("(r%d read-line)" % i, ("v", None))
        add("(r%d read)" % i, ("v", None))
    ctx.nontrivial = seen > 1
    try:
        got, _, src = K.run(ctx, setup, exprs)
    except K.Odd as ex:
        return str(ex)
    for k, (e, w, g) in enumerate(zip(exprs, want, got)):
        if w[0] != g[0] or w[1] != g[1] and (w[0] == "v" or w[1]):
            return "%s (number %d): want %r, got %r\n%s" % (e, k, w, g, src)


# ------------------------------------------------------------------ streams

@st.composite
def stream_st(draw):
    unit = st.one_of(D.text_st(20), D.text_st(3), st.just("\n"), st.just("\n\n"), st.sampled_from(["a\n", "\r\n", " \n", "\0\n"]),
                     st.integers(1, 70000).map(lambda n: "y" * n), st.sampled_from([4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537]).map(lambda n: "z" * n))
    return {"text": "".join(draw(st.lists(unit, max_size=12))), "from": draw(st.sampled_from(["stdin", "file", "program", "method", "slow"])), "how": draw(st.sampled_from(["lines", "first", "two"])),
            "cut": draw(st.lists(st.integers(0, 300), max_size=5))}


def stream(ctx, case):
    """A loop over read-line sees each line of any text."""
    text = case["text"]
    cwd = ctx.dir()
    with open(cwd + "/in", "wb") as f:
        f.write(text.encode("latin-1"))
    end = text.endswith("\n") or text == ""
    lines = (text if end else text + "\n").split("\n")[:-1]
    src = "define lines ()\n"
    kw = {}
    loop = "while (define l: %s) {\n  write-line $l\n }\n"
    close = ""
    if case["from"] == "stdin":
        kw["stdin"] = text.encode("latin-1")
        r = "read-line"
    elif case["from"] == "file":
        src += "define p: open r in\n"
        r = "p read-line"
    else:
        src += "define p: pipe\n"
        r = "p read-line"
        if case["from"] == "program":
            src += "define t: spawn {\n block {\n  export stdout $p\n  vh catf in\n }\n p writer-close\n}\n"
        elif case["from"] == "slow":
            # In pieces, with time between them.
            b = text.encode("latin-1")
            cuts = sorted(min(c, len(b)) for c in case["cut"]) + [len(b)]
            at, cmds = 0, ""
            for k, c in enumerate(cuts):
                with open(cwd + "/in%d" % k, "wb") as f:
                    f.write(b[at:c])
                cmds += "  vh catf in%d\n  vh sleep 1\n" % k
                at = c
            src += "define t: spawn {\n block {\n  export stdout $p\n%s }\n p writer-close\n}\n" % cmds
        else:
            src += "define t: spawn {\n define q: open r in\n while (define l: q read-line) {\n  p write-line $l\n }\n p writer-close\n}\n"
        close = "wait $t\n"
    want = [l.encode("latin-1") for l in lines]
    if case["how"] == "two" and case["from"] not in ("stdin",):
        # Two readers share it: each line goes to one of them whole.
        src += "define a ()\ndefine b ()\ndefine ta: spawn {\n while (define l: %s) {\n  set a (cons $l $a)\n }\n}\ndefine tb: spawn {\n while (define l: %s) {\n  set b (cons $l $b)\n }\n}\nwait $ta $tb\n%swrite $a\nwrite $b\n" % (r, r, close)
        src += "write (%s) (%s)\n" % (r, r)
        res = ctx.script(src, cwd=cwd, **kw)
        if res.hang or res.err or res.rc:
            return "want a clean run, got %r\n%s" % (res, src)
        out = D.lines(res.out)
        if len(out) != 3 or out[2] != [None, None]:
            return "wrong output %r\n%s" % (res.out[-1000:], src)
        a, b = [[x[1] for x in D.unlist(l[0])][::-1] for l in out[:2]]
        if sorted(a + b) != sorted(lines):
            return "two readers together got %r + %r, not %r\n%s" % (a[:20], b[:20], lines[:20], src)
        if not merges(a, b, lines):
            return "not in order: %r + %r from %r\n%s" % (a[:20], b[:20], lines[:20], src)
        ctx.nontrivial = len(a) > 0 and len(b) > 0
        ctx.label("two readers, both used" if ctx.nontrivial else "two readers, one used")
        return None
    if case["how"] == "first":
        src += "write-line (%s)\n" % r
        src += loop % r
        if not lines:
            want = [b"()"]
    else:
        src += loop % r
    src += close + "write (%s) (%s)\n" % (r, r)
    res = ctx.script(src, cwd=cwd, **kw)
    w = b"".join(l + b"\n" for l in want) + b"() ()\n"
    if case["how"] == "first" and not lines:
        w = None
    if res.hang or res.err or res.rc or w is not None and res.out != w:
        return "want %r..., got %r\n%s" % (None if w is None else (len(w), w[:300]), (len(res.out), res), src)
    ctx.nontrivial = len(lines) > 1
    ctx.label("from " + case["from"], "no final newline" if not end else "final newline", *(["line over 64 KB"] if any(len(l) > 65536 for l in lines) else []))


def merges(a, b, lines):
    """Is lines an interleaving of a and b?"""
    reach = {0}
    for k, l in enumerate(lines):
        reach = {i + d for i in reach for d in (0, 1) if (d == 1 and i < len(a) and a[i] == l) or (d == 0 and k - i < len(b) and k - i >= 0 and b[k - i] == l)}
    return len(a) in reach


# ------------------------------------------------------------------ concurrent

@st.composite
def mix_st(draw):
    size = st.sampled_from([0, 1, 5, 80, 1000, 4096, 5000, 20000, 70000])
    return {"writers": [draw(st.lists(size, min_size=1, max_size=8)) for _ in range(draw(st.integers(1, 4)))], "how": draw(st.sampled_from(["line", "data"])),
            "readers": draw(st.integers(1, 3)), "late": draw(st.booleans()), "work": draw(st.integers(0, 5))}


def mix(ctx, case):
    n = len(case["writers"])
    src = ["define p: pipe\n"]
    sizes = sorted({s for w in case["writers"] for s in w})
    # The padding is made before anything runs at the same time.
    for s in sizes:
        src.append("define s%d: str replace '%s' x %s\n" % (s, "x" * min(s, 100), "'" + "x" * max(1, s // 100) + "'") if s else "define s0 ''\n")
    pad = {s: "x" * min(s, 100) if s < 100 else "x" * (s // 100 * 100) for s in sizes}
    ws, rs = [], []
    line = case["how"] == "line"
    for i, w in enumerate(case["writers"]):
        body = "".join(" p %s w%d %d $s%d e\n%s" % ("write-line" if line else "write", i, k, s, " seq %d\n" % case["work"] if case["work"] else "") for k, s in enumerate(w))
        ws.append("define w%d: spawn {\n%s}\n" % (i, body))
    for i in range(case["readers"]):
        src.append("define got%d ()\n" % i)
        rs.append("define r%d: spawn {\n while (define l: p %s) {\n  set got%d (cons $l $got%d)\n }\n}\n" % (i, "read-line" if line else "read-list", i, i))
    total = sum(len(pad[s]) + 20 for w in case["writers"] for s in w)
    src += ws + rs if case["late"] else rs + ws
    src.append("".join("wait $w%d\n" % i for i in range(n)) + "p writer-close\n")
    src.append("".join("wait $r%d\nwrite $got%d\n" % (i, i) for i in range(case["readers"])))
    src = "".join(src)
    res = ctx.script(src)
    if res.hang or res.err or res.rc:
        return "want a clean run, got %r\n%s" % (res, src[:3000])
    out = D.lines(res.out)
    seen = {}
    for i, l in enumerate(out):
        last = {}
        for m in D.unlist(l[0])[::-1]:
            if line:
                f = m[1].split(" ") if m and m[0] == "s" else []
            else:
                f = [x[1] if x else None for x in D.unlist(m) or []]
            try:
                w, k = int(f[0][1:]), int(f[1])
                ok = len(f) == 4 and f[3] == "e" and f[2] == pad[case["writers"][w][k]] and f[0][0] == "w"
            except (ValueError, IndexError, TypeError):
                ok = False
            if not ok:
                return "a reader got %r\n%s" % (str(m)[:300], src[:3000])
            if (w, k) in seen:
                return "%r came twice\n%s" % ((w, k), src[:3000])
            if k <= last.get(w, -1):
                return "line %d of writer %d came after line %d\n%s" % (k, w, last[w], src[:3000])
            seen[(w, k)] = last[w] = k
    if len(seen) != sum(len(w) for w in case["writers"]):
        return "%d of %d lines arrived\n%s" % (len(seen), sum(len(w) for w in case["writers"]), src[:3000])
    ctx.nontrivial = n > 1 or case["readers"] > 1
    ctx.label("%d writers" % n, "%d readers" % case["readers"], "over 64 KB" if total > 65536 else "under 64 KB", case["how"])


PARTS = [
    Part("history", history_st, history, 900, 25000,
         "operations by one task over one or two pipes or files: lines of any bytes, commands (several to a line, over several lines, malformed, incomplete) and data, read by line or by command, each end closed at any time "
         "and used afterwards. Non-trivial: two things were read"),
    Part("stream", stream_st, stream, 500, 12000,
         "texts of any bytes with lines up to 70 KB read by lines from standard input, a file, a program, a method or in delayed pieces, by one or two readers. Non-trivial: several lines (two readers: both got some)"),
    Part("mix", mix_st, mix, 400, 10000,
         "one to four tasks writing lines or data of up to 70 KB to one pipe, one to three reading. Non-trivial: several writers or readers"),
]
