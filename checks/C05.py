"""C05: errors are traced to the right file, line, column and text."""
from vf import Part
import ohdata as D
from hypothesis import strategies as st

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: generated call chains in random layouts; generator-known positions as oracle"
ASSUMPTIONS = ["the position of a pending call is that of the command last started in its frame (arguments that are commands count), "
               "as the evaluator defines it; calls in tail position are not pending",
               "columns count characters of UTF-8 text from 1"]

# A case is a chain of levels. Level 0 is the top of the script, the others are
# methods; the last one's call is the failing command. Each level is
# {"pre": [pre...], "wrap": [wrapper...], "form": call form, "args": n, "file": 0|1}
PRE = ["blank", "comment", "multi", "list", "iflist", "esc", "utf"]
WRAP = ["if", "while", "block", "semi", "else"]
FORM = ["plain", "define", "arg", "argcmd", "cont", "utf", "multi", "tab", "trail", "splice"]
ERR = ["throw", "notfound", "builtin", "undef", "rethrow"]


def level():
    return st.fixed_dictionaries({"pre": st.lists(st.sampled_from(PRE), max_size=3), "wrap": st.lists(st.sampled_from(WRAP), max_size=2),
                                  "form": st.sampled_from(FORM), "file": st.integers(0, 1), "ind": st.integers(0, 3)})


def strat():
    return st.fixed_dictionaries({"levels": st.lists(level(), min_size=1, max_size=5), "err": st.sampled_from(ERR),
                                  "msg": D.word_st().filter(lambda w: not any(c in w for c in "*?[]!^%-+")).map(lambda w: "m" + w),
                                  "mode": st.sampled_from(["script", "script", "-c"])})


class Gen:
    """Text with marks in it, and the frames of the path to the error."""

    def __init__(self, case):
        self.case = case
        self.n = 0
        self.frames = []          # marks: the last command started in each pending frame
        self.out = ["", ""]

    def mark(self):
        self.n += 1
        return "\x01%d\x02" % self.n, self.n

    def at(self, m):
        self.frames[-1] = m

    def push(self):
        self.frames.append(self.frames[-1] if self.frames else None)

    def pre(self, kinds, ind):
        s = ""
        for k in kinds:
            t, m = self.mark()
            if k == "blank":
                s += "\n  \t\n"
            elif k == "comment":
                s += ind + "# it's a { comment (\n"
            elif k == "multi":
                s += ind + t + "define q 'one\n\n  three' \n"
                self.at(m)
            elif k == "list":
                s += ind + "define z (" + t + "list 1 2)\n"
                self.at(m)
            elif k == "iflist":
                s += ind + t + "if (list 1) {\n" + ind + "\tlist 2\n" + ind + "}\n"
                self.at(m)
            elif k == "esc":
                s += ind + t + "list \\\n    1 \\\n 2\n"
                self.at(m)
            elif k == "utf":
                s += ind + t + "list '\xc3\xa9\xe2\x82\xac' # \xc3\xa9\n"
                self.at(m)
        return s

    def call(self, lv, i, ind):
        """The statement that calls the next level or fails."""
        form = lv["form"]
        t, m = self.mark()
        last = i + 1 == len(self.case["levels"])
        if last:
            e = self.case["err"]
            w = self.case["msg"]
            cmd = {"throw": t + "throw %s" % w, "rethrow": t + "throw %s" % w, "notfound": t + "%s a b" % w,
                   "builtin": t + "add 1 %s" % w, "undef": t + "list $%s" % w}[e]
            self.at(m)
        else:
            cmd = t + "f%d x" % (i + 1)
            self.at(m)
        if form == "define":
            return ind + "define v: " + cmd + "\n"
        if form == "arg":
            return ind + "list 1 (" + cmd + ") (list 3)\n"
        if form == "argcmd" and not last:
            u, k = self.mark()
            self.at(k)
            return ind + "f%d (%slist 1)\n" % (i + 1, u)
        if form == "cont":
            return ind + "list \\\n      1 \\\n \t(" + cmd + ")\n"
        if form == "utf":
            return ind + "list '\xc3\xa9\xe2\x82\xac' (" + cmd + ")  # \xc3\xa9\n"
        if form == "multi":
            return ind + "list 'a\n\n b' $'\\'\n' (" + cmd + ")\n"
        if form == "tab":
            return ind + "list\t1\t(" + cmd + ")\t\n"
        if form == "trail":
            return ind + cmd + "   # trailing ' comment\n"
        if form == "splice":
            return ind + "list (splice (list 1 2)) {" + cmd + "}\n" if False else ind + "list (splice (list 1 2)) (" + cmd + ")\n"
        return ind + cmd + "\n"

    def body(self, lv, i, ind):
        s = self.pre(lv["pre"], ind)
        close = ""
        depth = ind
        for w in lv["wrap"]:
            t, m = self.mark()
            if w == "semi":
                continue
            if w == "if":
                s += depth + t + "if true {\n"
            elif w == "else":
                s += depth + t + "if () {\n" + depth + " list 0\n" + depth + "} else {\n"
            elif w == "while":
                s += depth + t + "while true {\n"
            else:
                s += depth + t + "block {\n"
            self.at(m)
            self.push()
            close = depth + "}\n" + depth + "list after\n" + close
            depth += "  "
        if "semi" in lv["wrap"]:
            # a; CALL; b is a block of its own.
            self.push()
            u, k = self.mark()
            self.at(k)
            line = self.call(lv, i, "")
            body = line.rstrip("\n")
            cut = body.find("#")
            tail = ""
            if cut >= 0:
                body, tail = body[:cut].rstrip(" "), "  " + body[cut:]
            s += depth + u + "list 0; " + body + "; list 9" + tail + "\n"
        else:
            s += self.call(lv, i, depth)
        s += depth + "list after\n" + close
        return s

    def build(self):
        lv = self.case["levels"]
        ind = " " * lv[0]["ind"]
        # Level 0: inside a block, so that it is not in tail position.
        self.push()
        t, m = self.mark()
        self.at(m)
        top = ind + t + "block {\n" + self.body(lv[0], 0, ind + " ") + "}\n"
        for i in range(1, len(lv)):
            ind = " " * lv[i]["ind"]
            self.push()
            text = "\n" * lv[i]["ind"] + ind + "define f%d: method (a) {\n" % i + self.body(lv[i], i, ind + " ") + ind + "}\n"
            self.out[lv[i]["file"]] += text
        self.top = top


def locate(text):
    """Removes the marks: (text, {mark: (line, column, rest of line)})."""
    marks, out, i = {}, "", 0
    while i < len(text):
        if text[i] == "\x01":
            j = text.index("\x02", i)
            marks[int(text[i + 1:j])] = len(out)
            i = j + 1
        else:
            out += text[i]
            i += 1
    pos = {}
    for m, o in marks.items():
        b = out.rfind("\n", 0, o) + 1
        e = out.find("\n", o)
        e = len(out) if e < 0 else e
        u = out[b:o].encode("latin-1").decode("utf-8")
        pos[m] = (out.count("\n", 0, o) + 1, len(u) + 1, out[o:e])
    return out, pos


def check(ctx, case):
    g = Gen(case)
    g.build()
    levels = len(case["levels"])
    ctx.nontrivial = levels > 1
    ctx.label("levels:%d" % levels, "mode:" + case["mode"], "err:" + case["err"])
    lib, lpos = locate(g.out[1])
    d = ctx.dir()
    lp = d + "/l.oh"
    with open(lp, "wb") as f:
        f.write(lib.encode("latin-1"))
    src = "source %s\n" % lp if lib else ""
    body = g.top
    if case["err"] == "rethrow":
        # A handler that does not return passes the error on.
        body = "define top: method () {\n catch ex {\n  list $ex\n }\n" + body + " list after\n}\ntop\n"
    text, pos = locate(src + g.out[0] + body)
    if case["mode"] == "-c":
        name = "oh"
        r = ctx.run(["oh", "-c", text.encode("latin-1"), "zero"], d, ctx.env(d))
    else:
        r = ctx.script(text, cwd=d)
        name = ctx.root + "/home/s.oh"
    want = []
    for m in g.frames:
        if m in pos:
            want.append("%s:%d:%d: %s" % ((name,) + pos[m]))
        else:
            want.append("%s:%d:%d: %s" % ((lp,) + lpos[m]))
    w = case["msg"]
    msg = {"throw": w, "rethrow": w, "notfound": w + ": command not found", "builtin": "'%s' is not a valid number" % w,
           "undef": "'%s' not defined" % w}[case["err"]]
    exp = "\n".join(want + ["error: " + msg]) + "\n"
    got = r.err.decode("latin-1")
    if r.hang:
        return "%s" % r.hang
    if case["err"] == "rethrow":
        # The trace is of the handler's throw, in the guarded scope.
        if not got.endswith("error: " + msg + "\n"):
            return "message: %r for\n%s" % (got, text)
        return None
    if got != exp:
        return "trace\n%s\nexpected\n%s\nfor\n%s\nlib\n%s" % (got, exp, text, lib)


# Syntax errors name the place too.
def syn_strat():
    return st.fixed_dictionaries({"pre": st.lists(st.sampled_from(["list 1", "", "# c '", "list 'a\n b'", "block {\n list 2\n}", "list 1 \\\n 2", "list '\xc3\xa9'"]), max_size=6),
                                  "line": st.sampled_from([("list 1 ", ") x"), ("  ", "} y"), ("list '\xc3\xa9' ", ")"), ("", "| cat"), ("list 'a\nb' ", ") z"), ("\t", "&& list")]),
                                  "route": st.sampled_from(["-c", "script"])})


def syn(ctx, case):
    ctx.nontrivial = bool(case["pre"])
    a, b = case["line"]
    text = "".join(p + "\n" for p in case["pre"]) + a + "\x01" + "1\x02" + b + "\n"
    text, pos = locate(text)
    line, col, rest = pos[1]
    if case["route"] == "-c":
        d = ctx.dir()
        r = ctx.run(["oh", "-c", text.encode("latin-1"), "z"], d, ctx.env(d))
        name = "oh"
    else:
        r = ctx.script(text)
        name = ctx.root + "/home/s.oh"
    want = "%s:%d:%d: unexpected '%s'" % (name, line, col, rest)
    if r.hang or want not in r.err.decode("latin-1"):
        return "expected %r got %r for %r" % (want, r, text)


PARTS = [
    Part("trace", strat, check, 3000, 40000,
         "chains of 1-5 user calls with the failing command last, each in a random position (argument, define, after ;, inside if/while/block) "
         "and layout (comments, blank lines, continuation lines, multi-line strings, UTF-8, tabs), in two files; the whole trace is compared. "
         "Non-trivial: at least one method"),
    Part("syntax", syn_strat, syn, 240, 3000, "scripts with a stray token after other commands: the error names its place. Non-trivial: something precedes it"),
]
