"""C32: sessions at a terminal: every line evaluated once, in order, whatever went wrong before."""
import os
from hypothesis import strategies as st
import ptysess
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "model-based property testing: generated sessions (complete, multi-line, erroneous, abandoned, recalled and interrupted commands, ways to end) typed at a pseudo-terminal, against a model of what each prompt and output must be"
ASSUMPTIONS = ["the terminal is an xterm wide enough for every line", "lines are printable and at most 3000 bytes", "what liner does with editing keys other than ctrl-C, ctrl-D, ctrl-U, backspace and up is not examined",
               "ctrl-C while the command waits in oh itself for a channel or a conduit is the known finding", "an interrupted external command counts as interrupted: what a compound command does next is not examined"]

NAMES = ["va", "vb", "vc"]
val_st = st.integers(-50, 50)
word_st = st.text(st.sampled_from("abcxyz019_"), min_size=1, max_size=5)


# A statement is a tree; lines(tree) are what is typed, run(tree) what it prints.

@st.composite
def stmt_st(draw, depth=2):
    k = draw(st.sampled_from(["say", "set", "show", "ext", "str", "cont", "blank", "note"] + (["block", "if", "loop", "call"] if depth else [])))
    if k == "say": return [k, draw(word_st)]
    if k == "set": return [k, draw(st.sampled_from(NAMES)), draw(val_st)]
    if k == "show": return [k, draw(st.sampled_from(NAMES))]
    if k == "ext": return [k, draw(st.sampled_from(NAMES)), draw(word_st)]
    if k == "str": return [k, draw(st.lists(st.one_of(st.just(""), word_st, st.sampled_from(["}", "( x", "# no", "  in", "$va", "a\\"])), min_size=2, max_size=5)), draw(st.booleans())]
    if k == "cont": return [k, draw(st.lists(word_st, min_size=2, max_size=4))]
    if k == "blank": return [k, draw(st.sampled_from(["", "", " ", "   "]))]
    if k == "note": return [k, draw(st.sampled_from(["# note", "# { ( '", "  # x"]))]
    body = draw(st.lists(stmt_st(depth - 1), min_size=1, max_size=3))
    if not any(s[0] not in ("blank", "note") for s in body): body.append(["say", "z"])
    if k == "loop": return [k, draw(st.integers(0, 3)), body]
    if k == "if":
        other = draw(st.one_of(st.none(), st.lists(stmt_st(depth - 1), min_size=1, max_size=2)))
        if other is not None: other = other + [["say", "e"]]
        return [k, draw(st.sampled_from(NAMES)), draw(val_st), body, other]
    return [k, body]


def lines(s, ind=""):
    k = s[0]
    if k == "say": return [ind + "write-line " + s[1]]
    if k == "set": return [ind + "set %s: add $%s %d" % (s[1], s[1], s[2])]
    if k == "show": return [ind + "write-line %s is $%s" % (s[1], s[1])]
    if k == "ext": return [ind + "vh args $%s %s" % (s[1], s[2])]
    if k == "str":
        q = "\"" if s[2] and not any(c in x for x in s[1] for c in "\\$") else "'"
        t = (ind + "write-line " + q + "\n".join(s[1]) + q).split("\n")
        return t
    if k == "cont": return [ind + "write-line " + s[1][0] + " \\"] + [w + " \\" for w in s[1][1:-1]] + [s[1][-1]]
    if k in ("blank", "note"): return [s[1]]
    inner = [l for b in s[-1 if k != "if" else 3] for l in lines(b, ind + " ")]
    if k == "block": return [ind + "block {"] + inner + [ind + "}"]
    if k == "loop": return [ind + "for (seq %d) (method (i) {" % s[1]] + inner + [ind + "})"]
    if k == "call": return [ind + "(method () {"] + inner + [ind + "})"]
    if k == "if":
        r = [ind + "if (lt? $%s %d) {" % (s[1], s[2])] + inner
        if s[4] is not None: r += [ind + "} else {"] + [l for b in s[4] for l in lines(b, ind + " ")]
        return r + [ind + "}"]
    raise ValueError(k)


def run(s, m):
    k = s[0]
    if k == "say": return s[1] + "\n"
    if k == "set": m[s[1]] += s[2]; return ""
    if k == "show": return "%s is %d\n" % (s[1], m[s[1]])
    if k == "ext": return "[%s]\n[%s]\nend\n" % (("%d" % m[s[1]]).encode().hex(), s[2].encode().hex())
    if k == "str": return "\n".join(s[1]) + "\n"
    if k == "cont": return " ".join(s[1]) + "\n"
    if k in ("blank", "note"): return ""
    if k in ("block", "call"): return "".join(run(b, m) for b in s[1])
    if k == "loop": return "".join(run(b, m) for _ in range(s[1]) for b in s[2])
    if k == "if": return "".join(run(b, m) for b in (s[3] if m[s[1]] < s[2] else s[4] or []))
    raise ValueError(k)


SYNTAX = [[")"], ["}"], ["x (y"], ["write-line )"], ["block {", "write-line no", ")"], ["write-line 'a", "b' )"], ["block {", "block {", "write-line no", "}", ")"], ["write-line a (b"], ["| vh cat"], ["write-line no )"], ["set va 99 )"]]
RUNTIME = [["no-such-command"], ["write-line $no_such"], ["throw oops"], ["add 1 x"], ["set no_such 1"], ["block {", "set va: add $va 0", "add 1 x", "write-line no", "}"], ["(method () {", "throw deep", "write-line no", "})"], ["car 3"], ["vh catf /no/such/dir < /no/such/file"],
 ["wait 5"], ["fg"], ["bg 7"], ["write-line $1"], ["/no/such/command a"], ["source /no/such/file"], ["splice (list 1 2)"]]
PARTIAL = [["block {", "write-line no"], ["write-line 'no"], ["block {", "set va 99", "block {"], ["(method () {", "set va 99"], ["write-line a \\"], [], ["block {", "", "", "write-line '", "", ""], ["if true {", "set va 99", "} else {"], ["write-line one | block {"],
 ["set vd 0 & block {", "write-line no"], ["set vd 0 & block {"], ["set vd 0 & write-line 'no"], ["block {", "set vd 0", "} & block {"]]
HANGS = [["vh hold @go"], ["block {", "vh hold @go", "}"], ["while true {", "vh hold @go | vh cat", "break", "}"], ["vh hold @go | vh cat"], ["block {", "write-line @go", "while true {", "}", "}"], ["block {", "vh args x", "write-line @go", "while true {", "set vd: add $vd 1", "}", "}"],
         ["(method loop () {", "write-line @go", "while true {", "set vd 1", "}", "})"], ["block {", "define t: spawn {", "never read", "}", "write-line @go", "wait $t", "}"], ["block {", "vh args x | vh cat", "write-line @go", "while true {", "write ()  | vh cat", "}", "}"][:3] + ["while true {", "}", "}"],
         ["block {", "write-line @go", "while true {", "block {", "(method () {", "list 1 2", "})", "}", "}", "}"], ["(method () {", "catch ex {", "write-line caught", "}", "write-line @go", "while true {", "}", "})"], ["block {", "define c: chan 1", "write-line @go", "while true {", "c write 1", "c read", "}", "}"],
         # Tasks the command started are interrupted with it.
         ["block {", "spawn {", "while true {", "set vd: add $vd 1", "}", "}", "write-line @go", "while true {", "}", "}"],
         ["block {", "while true {", "set vd: add $vd 1", "}", "} | block {", "write-line @go", "while true {", "}", "}"],
         ["block {", "spawn {", "spawn {", "while true {", "set vd: add $vd 1", "}", "}", "wait", "}", "write-line @go", "while true {", "}", "}"]]
HANGS[2] = ["block {", "vh args a", "vh hold @go", "}"]
ENDS = ["eof", "eof", "eof", "exit 0", "exit 3", "exit", "block exit", "method exit"]


@st.composite
def step_st(draw):
    k = draw(st.sampled_from(["cmd"] * 8 + ["seq", "syntax", "syntax", "runtime", "runtime", "runtime", "abort", "abort", "hang", "hang", "recall", "edit", "empty", "define", "also", "spawn"]))
    if k == "cmd": return [k, draw(stmt_st())]
    if k == "seq": return [k, draw(st.lists(stmt_st(0).filter(lambda s: s[0] not in ("blank", "note", "str", "cont")), min_size=2, max_size=4)), draw(st.sampled_from(["; ", ";", " ; "]))]
    if k == "syntax": return [k, draw(st.integers(0, len(SYNTAX) - 1))]
    if k == "runtime": return [k, draw(st.integers(0, len(RUNTIME) - 1))]
    if k == "abort": return [k, draw(st.integers(0, len(PARTIAL) - 1)), draw(st.sampled_from(["", "write-line no", "}", "' )", "set va 99"]))]
    if k == "hang": return [k, draw(st.integers(0, len(HANGS) - 1))]
    if k == "recall": return [k, draw(st.integers(1, 4))]
    if k == "edit": return [k, draw(word_st), draw(word_st), draw(st.booleans())]
    if k == "empty": return [k, draw(st.sampled_from(["", " ", "# nothing"]))]
    if k == "define": return [k, draw(st.sampled_from(["m0", "m1"])), draw(st.lists(stmt_st(1), min_size=1, max_size=3))]
    if k == "also": return [k, draw(word_st), draw(stmt_st(1).filter(lambda s: s[0] in ("block", "str", "cont", "call", "loop", "if"))), draw(st.sampled_from(["& ", "& "]))]
    return [k, draw(word_st)]


session_st = st.fixed_dictionaries({"steps": st.lists(step_st(), min_size=2, max_size=9), "end": st.sampled_from(ENDS), "again": st.sampled_from([0, 0, 1, 2, 3]), "endpartial": st.sampled_from([False, False, False, True])})


class Fail(Exception):
    pass


class Model:
    def __init__(self):
        self.vars = {"va": 1, "vb": 2, "vc": 3, "vd": 0}
        self.methods = {}
        self.hist = []
        # After a line of nothing but blanks or a comment either prompt is fine.
        self.loose = False

    def typed(self, line):
        # The editor keeps 1000 lines, without repeating the last.
        if line and (not self.hist or self.hist[-1] != line): self.hist.append(line)


def tty(s):
    return s.replace("\n", "\r\n").encode("latin-1")


def type_lines(s, m, ls, want, what):
    """Types the lines of one command. All but the last continue it."""
    for i, l in enumerate(ls):
        if i == 0 and s.kind != b": " and not m.loose or i and s.kind != b"  ": raise Fail("%s: prompt %r before line %d of %r" % (what, s.kind, i, ls))
        out = s.ask(l.encode("latin-1"))
        m.typed(l)
        if i < len(ls) - 1:
            if out: raise Fail("%s: output %r after line %d of %r" % (what, out, i, ls))
    if s.kind != b": ": raise Fail("%s: still continuing after %r" % (what, ls))
    if want is not None and out != tty(want): raise Fail("%s: %r printed %r, not %r" % (what, ls, out, tty(want)))
    return out


def step(ctx, s, m, x):
    k = x[0]
    ctx.label(k)
    if s.kind == b": ": m.loose = False
    if k == "cmd":
        ctx.label(x[1][0])
        ls = lines(x[1])
        if x[1][0] in ("blank", "note"):
            out = s.ask(ls[0].encode())
            m.typed(ls[0])
            if out: raise Fail("%r printed %r" % (ls, out))
            m.loose = True
            return
        if len(ls) > 1: ctx.label("multi-line")
        type_lines(s, m, ls, run(x[1], m.vars), k)
    elif k == "seq":
        ls = [x[2].join(lines(b)[0] for b in x[1])]
        type_lines(s, m, ls, "".join(run(b, m.vars) for b in x[1]), k)
    elif k == "define":
        ls = ["define %s: method () {" % x[1]] + [l for b in x[2] for l in lines(b, " ")] + ["}"]
        type_lines(s, m, ls, "", k)
        type_lines(s, m, [x[1]], "".join(run(b, m.vars) for b in x[2]), k)
    elif k == "also":
        # A background command, and the start of another on the same line.
        ls = lines(x[2])
        first = "set vd 0 " + x[3] + ls[0]
        rest = run(x[2], m.vars)
        out = s.ask(first.encode("latin-1"))
        m.typed(first)
        if out or s.kind != b"  ": raise Fail("%r: printed %r, prompt %r" % (first, out, s.kind))
        for i, l in enumerate(ls[1:]):
            out = s.ask(l.encode("latin-1"))
            m.typed(l)
            if i < len(ls) - 2 and (out or s.kind != b"  "): raise Fail("%r: printed %r, prompt %r" % (l, out, s.kind))
        if out != tty(rest) or s.kind != b": ": raise Fail("%r after %r printed %r, not %r" % (ls, first, out, tty(rest)))
    elif k == "spawn":
        type_lines(s, m, ["define t: spawn {", "gate read", "write-line got %s" % x[1], "}"], "", k)
        type_lines(s, m, ["set vd 1"], "", k)
        type_lines(s, m, ["gate write 1; wait $t"], "got %s\n" % x[1], k)
    elif k == "empty":
        out = s.ask(x[1].encode())
        m.typed(x[1])
        if out: raise Fail("%r printed %r, prompt %r" % (x[1], out, s.kind))
        m.loose = True
    elif k == "syntax":
        ls = SYNTAX[x[1]]
        # The error may be known before the last line.
        for i, l in enumerate(ls):
            out = s.ask(l.encode())
            m.typed(l)
            if i < len(ls) - 1 and (out or s.kind != b"  "): raise Fail("%r printed %r, prompt %r" % (ls[:i + 1], out, s.kind))
        if s.kind != b": " or not out or b"\nno\r" in b"\n" + out: raise Fail("malformed %r: printed %r, prompt %r" % (ls, out, s.kind))
    elif k == "runtime":
        ls = RUNTIME[x[1]]
        out = type_lines(s, m, ls, None, k)
        if b"error" not in out or b"\nno\r" in b"\n" + out: raise Fail("failing %r printed %r" % (ls, out))
    elif k == "abort":
        ls = PARTIAL[x[1]]
        for l in ls:
            out = s.ask(l.encode())
            m.typed(l)
            if out or s.kind != b"  ": raise Fail("partial %r printed %r, prompt %r" % (ls, out, s.kind))
        s.send(x[2].encode() + b"\x03")
        out = s.prompt()
        if s.kind != b": ": raise Fail("ctrl-C after partial %r %r: prompt %r" % (ls, x[2], s.kind))
        if b"\nno\r" in out: raise Fail("ctrl-C after partial %r %r: printed %r" % (ls, x[2], out))
    elif k == "hang":
        ls = HANGS[x[1]]
        for l in ls[:-1]:
            out = s.ask(l.encode())
            m.typed(l)
        s.enter(ls[-1].encode())
        m.typed(ls[-1])
        s.expect(rb"@go\r\n")
        s.settle(0.02, 0.3)
        s.send(b"\x03")
        out = s.prompt()
        if s.kind != b": ": raise Fail("ctrl-C during %r: prompt %r" % (ls, s.kind))
        if out.replace(b"^C", b"").strip(): raise Fail("ctrl-C during %r: printed %r" % (ls, out))
        out = s.ask(b"jobs")
        m.typed("jobs")
        if out: raise Fail("ctrl-C during %r left a job: %r" % (ls, out))
        if "set vd: add $vd 1" in ls:
            for l in ("define vz $vd", "write-line vd (equal? $vz $vd)"):
                out = s.ask(l.encode())
                m.typed(l)
                s.settle(0.02, 0.05)
            if out != b"vd true\r\n": raise Fail("something of %r is still running after ctrl-C" % ls)
    elif k == "edit":
        # Mistyped text taken back, and a line typed over.
        typed = (b"junk " + x[2].encode() + b"\x15" if x[3] else b"") + b"write-line " + x[1].encode() + b"qq\x7f\x7f"
        s.enter(typed)
        m.typed("write-line " + x[1])
        out = s.prompt()
        if out != tty(x[1] + "\n"): raise Fail("edited line printed %r" % out)
    elif k == "recall":
        n = x[1]
        if len(m.hist) < n: return
        line = m.hist[-n]
        if not line.startswith(("write-line ", "set v", "vh args")) or line.endswith((")", "\\", "'", "{")) or "'" in line or "\"" in line or "no" in line or "&" in line or "@" in line or "99" in line: return
        ctx.label("recalled")
        s.settle(0.02, 0.3)
        s.send(b"\x10" * n)
        s.settle(0.06, 1.0)
        out = s.ask(b"")
        got = line
        m.typed(line)
        want = replay(m, line)
        if want is not None and out != tty(want): raise Fail("line %d before, %r, recalled, printed %r, not %r" % (n, line, out, tty(want)))


def replay(m, line):
    """What a line already typed prints (None: not modelled)."""
    parts = line.split()
    if ";" in line or line.startswith(" ") or "$" in line and parts[0] == "write-line" and len(parts) != 3: return resync(m, line)
    if parts[0] == "write-line":
        if len(parts) == 3 and parts[1] == "is": return None
        if len(parts) == 4 and parts[2] == "is": return "%s is %d\n" % (parts[1], m.vars[parts[1]])
        return " ".join(parts[1:]) + "\n"
    return resync(m, line)


def resync(m, line):
    m.unsure = True
    return None


def settle_model(s, m):
    """Where the model cannot tell what a recalled line did, reads the variables again."""
    if getattr(m, "unsure", False):
        m.unsure = False
        out = s.ask(b"write-line $va $vb $vc")
        m.typed("write-line $va $vb $vc")
        m.vars.update(zip(NAMES, map(int, out.split())))


def history(home):
    with open(os.path.join(home, "hist"), encoding="latin-1", newline="") as f: return f.read().split("\n")[:-1]


def check(ctx, case):
    d = ctx.dir()
    env = ctx.env(d)
    m = Model()
    s = None
    try:
        for session in range(2):
            if session == 1 and not case["again"]: break
            s = ptysess.Repl(ctx, d, d, env, rc="define va 1\ndefine vb 2\ndefine vc 3\ndefine vd 0\ndefine gate: chan 1\ndefine never: chan 1\n")
            if s.greeting: return "printed %r before the first prompt" % s.greeting
            m.vars = {"va": 1, "vb": 2, "vc": 3, "vd": 0}
            if session == 0:
                for x in case["steps"]:
                    step(ctx, s, m, x)
                    settle_model(s, m)
                want = "".join("%s is %d\n" % (n, m.vars[n]) for n in NAMES)
                type_lines(s, m, ["write-line va is $va; write-line vb is $vb; write-line vc is $vc"], want, "at the end")
                ctx.nontrivial = len(case["steps"]) > 2 and len({x[0] for x in case["steps"]}) > 1
            else:
                # Lines of the session before are offered again.
                ctx.label("second session")
                n = min(case["again"], len(m.hist))
                s.settle(0.02, 0.3)
                s.send(b"\x10" * n + b"\x01# \r")
                s.expect(rb"\r?\n")
                s.prompt()
                m.typed("# " + m.hist[-n])
            end = case["end"]
            ctx.label("end " + end)
            code = 0
            if end == "eof":
                if case["endpartial"] and session == 0:
                    s.ask(b"block {")
                    m.typed("block {")
                s.send(b"\x04")
            elif end.startswith("exit"):
                code = int(end[5:] or 0)
                s.enter(end.encode())
                m.typed(end)
            else:
                code = 5
                ls = ["block {", "exit 5", "write-line no", "}"] if end == "block exit" else ["(method () {", "exit 5", "})"]
                for l in ls[:-1]:
                    s.ask(l.encode())
                    m.typed(l)
                s.enter(ls[-1].encode())
                m.typed(ls[-1])
            rc = s.exit_status()
            if b"no\r\n" in s.buf: raise Fail("something ran at the end: %r" % s.buf)
            if rc != code: raise Fail("ended with status %r, not %d" % (rc, code))
            if s.modes() != s.before: raise Fail("terminal modes %r at the end, %r at the start" % (s.modes(), s.before))
            h = history(d)
            if h != m.hist: raise Fail("history file has %r, typed %r" % (h[-30:], m.hist[-30:]))
            s.close()
            s = None
    except Fail as ex:
        return "%s\n%r" % (ex, s.log[-700:] if s else b"")
    except ptysess.Hang as ex:
        return "session stuck: %s; last %r\n%r" % (ex, s.buf[-300:], s.log[-700:])
    finally:
        if s: s.close()
    return None


# The known finding.

def kf_check(ctx, case):
    d = ctx.dir()
    s = ptysess.Repl(ctx, d, d, ctx.env(d), rc="define never: chan 1\n", quiet=3.0)
    try:
        s.enter(case["line"].encode())
        s.settle(0.1, 1.0)
        s.send(b"\x03")
        s.prompt()
    except ptysess.Hang:
        return "ctrl-C during %r does not bring the prompt back" % case["line"]
    finally:
        s.close()
    return None


PARTS = [Part("sessions", lambda: session_st, check, quick=500, thorough=10000, rule="at least three steps of at least two kinds"),
         Part("kf", None, kf_check, 0, 0, "known finding probe")]
