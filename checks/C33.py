"""C33: completing a path at a terminal."""
import os
import re
import shutil
import stat
from hypothesis import strategies as st
import ptysess
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "model-based property testing: generated directory trees, working directories, links, words, contexts and tab presses typed at a pseudo-terminal, against a model of the line editor over the real directory"
ASSUMPTIONS = ["the terminal is an xterm wide enough for every line and every list of candidates", "names are letters, digits, '.', '-', '_', ':', '+' and accented letters, at most 100 candidates",
               "a link to a directory may be offered with or without a slash", "no directory is reached by going up from a link", "the command being completed has no completion rules of its own",
               "the word follows a space"]

NAMES = ["a", "ab", "abc", "abd", "b", "ba", ".a", ".ab", "..c", "a.b", "a-b", "a:b", "A", "a1", "\u00e9a", "\u00e9", "a\u00e9", "b+", "bab", "...", "ca", "cab", "d", "aa", "aaa"]
name_st = st.sampled_from(NAMES)
# What is in a tree: files, directories, links to directories and to nothing.
tree_st = st.lists(st.tuples(st.integers(0, 30), name_st, st.sampled_from("dddfffffxxlllnu")), min_size=4, max_size=26)
LEFT = b"\x1b[D"


@st.composite
def word_st(draw):
    return {"base": draw(st.sampled_from(["", "", "", "", "./", "../", "~/", "~/", "/abs", "/abs", "//abs", "/./abs"])),
            "dirs": draw(st.lists(st.integers(0, 12), max_size=3)), "sep": draw(st.sampled_from(["/", "/", "/", "/", "//", "/./"])),
            "detour": draw(st.sampled_from([0, 0, 0, 1])), "part": draw(st.sampled_from(["", "pre", "pre", "pre", "pre", "whole", "whole", "more", ".", "hid", "other"])),
            "pick": draw(st.integers(0, 30)), "cut": draw(st.integers(0, 3)), "name": draw(name_st)}


@st.composite
def step_st(draw):
    k = draw(st.sampled_from(["tab"] * 14 + ["cd", "make", "drop", "home"]))
    if k == "tab":
        return [k, draw(st.integers(0, len(CONTEXTS) - 1)), draw(word_st()), draw(st.sampled_from([1, 1, 2, 2, 3])), draw(st.sampled_from(["", "", "", " y", "q", ".q", " y z"])), draw(st.sampled_from(["", "", "", "x", "/", "ab"]))]
    if k == "cd": return [k, draw(st.integers(0, 12)), draw(st.booleans())]
    if k == "make": return [k, draw(st.integers(0, 30)), draw(name_st), draw(st.sampled_from("dffxl"))]
    if k == "drop": return [k, draw(st.integers(0, 30))]
    return [k, draw(st.integers(0, 12))]


# Lines typed first, what comes before the word on its line, what comes after the rest, lines typed then, what is printed around the arguments.
CONTEXTS = [
    ([], "vh args ", "", []),
    ([], "vh args ", "", []),
    ([], "vh args x ", "", []),
    ([], "vh args x   ", "", []),
    ([], "vh args 'q (q' ", "", []),
    ([], "vh args \"a ) b\" ", "", []),
    ([], "vh exit 0; vh args ", "", []),
    ([], "vh exit 0 | vh args ", "", []),
    ([], "vh args (mend '' p q) ", "", []),
    (["block {", "vh args one"], "vh args ", "", ["}"]),
    (["block {"], "    vh args x ", "", ["    vh args two", "}"]),
    (["(method () {", "block {"], "vh args ", "", ["}", "})"]),
    (["vh args 'one", "two' \\"], " ", "", []),
    (["block {", "vh args \\"], "  k ", "", ["}"]),
    (["if () {", "vh args no", "} else {"], "vh args ", "", ["}"]),
    ([], "nosuchcmd-z ", "", []),
    ([], "vh args (mend '' p ", ")", []),
    ([], "vh args - ", "", []),
    ([], "vh args (set va: add $va 1) ", "", []),
    (["block {", "bump"], "vh args (bump) ", "", ["}"]),
    ([], "vh args (no-such-thing) ", "", []),
    ([], "vh args $va () 1/2 ", "", []),
]

case_st = st.fixed_dictionaries({"tree": tree_st, "cwd": st.integers(0, 12), "link": st.booleans(), "home": st.integers(0, 12), "bash": st.sampled_from(["", "", "real", "fail", "none", "minimal"]),
                                 "steps": st.lists(step_st(), min_size=3, max_size=9)})


class Fail(Exception):
    pass


def b(s):
    return s.encode("utf-8")


class World:
    def __init__(self, root):
        self.root = root
        self.cwd = self.home = root
        self.va = 1

    def dirs(self):
        """Every directory under the root, not through links."""
        out = []
        for p, ds, fs in os.walk(self.root):
            ds.sort()
            out.append(p)
        return out

    def paths(self):
        out = []
        for p, ds, fs in os.walk(self.root):
            ds.sort()
            out += [os.path.join(p, x) for x in sorted(ds + fs)]
        return out

    def make(self, at, name, kind, other):
        ds = self.dirs()
        d = ds[at % len(ds)]
        p = os.path.join(d, name)
        if os.path.lexists(p): return
        if kind == "d": os.mkdir(p)
        elif kind in "fx":
            with open(p, "w"): pass
            os.chmod(p, 0o755 if kind == "x" else 0o644)
        elif kind == "l": os.symlink(ds[other % len(ds)], p)
        elif kind == "n": os.symlink("nowhere", p)
        else:
            os.mkdir(p)
            with open(os.path.join(p, "ab"), "w"): pass
            with open(os.path.join(p, "b"), "w"): pass

    def where(self, head):
        """The directory a word's leading part names."""
        if head.startswith("/"): return head
        if head.startswith("~/"): return os.path.join(self.home, head[2:])
        return os.path.join(self.cwd, head)

    def offers(self, word, slash):
        """The words that may replace word."""
        i = word.rfind("/") + 1
        head, tail = word[:i], word[i:]
        d = self.where(head)
        try: es = os.listdir(d)
        except OSError: return []
        out = []
        for e in es:
            if not e.startswith(tail) or e.startswith(".") and not tail.startswith("."): continue
            p = os.path.join(d, e)
            m = os.lstat(p).st_mode
            if stat.S_ISDIR(m) or slash and stat.S_ISLNK(m) and os.path.isdir(p): e += "/"
            out.append(head + e)
        return sorted(out, key=b)


def word(w, x):
    """The text of a generated word."""
    base = x["base"]
    if base == "../" and os.path.islink(w.cwd): base = ""
    if base.endswith("abs"): base = base[:-3]; here = w.root; base += w.root[1:] + "/"
    else: here = w.where(base)
    text = base
    linked = False

    def subs():
        try: return [e for e in sorted(os.listdir(here)) if os.path.isdir(os.path.join(here, e)) and "\ufffd" not in e]
        except OSError: return []
    for i in x["dirs"]:
        s = subs()
        if not s: break
        e = s[i % len(s)]
        real = not os.path.islink(os.path.join(here, e))
        if x["detour"] and real:
            text += e + "/../"
        else:
            text += e + x["sep"]
            here = os.path.join(here, e)
    es = sorted(os.listdir(here)) if os.path.isdir(here) else []
    p = x["part"]
    if p in ("pre", "whole", "more") and es:
        e = es[x["pick"] % len(es)]
        text += e[:1 + x["cut"]] if p == "pre" else e if p == "whole" else e + "a"
    elif p == ".": text += "."
    elif p == "hid": text += ".a"
    elif p == "other": text += x["name"]
    return text


def simulate(w, head, word, tail, tabs, more, slash):
    """What the editor shows after the tabs, and the line entered."""
    line = (head, word, tail)
    shown = []
    loop = None
    for _ in range(tabs):
        h, wd, t = line
        if loop is None:
            cs = w.offers(wd, slash)
            if not cs: shown.append(h + wd + t)
            elif len(cs) == 1:
                line = (h, cs[0], t)
                shown.append("".join(line))
            else:
                loop = (cs, os.path.commonprefix(cs), 1)
                shown.append(h + loop[1] + t)
        else:
            cs, pick, n = loop
            shown.append(cs)
            shown.append(h + pick + t)
            loop = (cs, pick, 2)
    if loop: line = (line[0], loop[1], line[2])
    return shown, (line[0], line[1] + more, line[2])



def parse(pre, n, kind):
    """The line shown, lists printed and lines shown again in what the terminal received."""
    mark = b"\x1b[1G@@%d%s%%" % (n, kind)
    out = []
    parts = pre.split(mark)
    for i, p in enumerate(parts[1:]):
        m = re.match(rb"(.*?)\x1b\[0K\x1b\[(\d+)G", p, re.S)
        if not m: raise Fail("cannot read the terminal: %r" % pre)
        out.append(("line", m.group(1).decode("utf-8", "replace"), int(m.group(2))))
        rest = p[m.end():]
        if i < len(parts) - 2 and b"\r\n" in rest:
            ls = rest.split(b"\r\n")
            out.append(("list", b" ".join(ls[1:]).decode("utf-8", "replace").split()))
        last = rest
    return out, last if len(parts) > 1 else pre


def hexed(args):
    return "".join("[%s]\r\n" % b(a).hex() for a in args) + "end\r\n"


def tab(ctx, s, w, x):
    lines, head, close, after = CONTEXTS[x[1]]
    wd = word(w, x[2])
    tabs, tail, more = x[3], x[4], x[5]
    if "~" in wd[1:] or wd == "~": return
    if "nosuchcmd" in head or "no-such" in head: tail = ""
    ctx.label("context %d" % x[1], "base " + x[2]["base"])
    for l in lines:
        out = s.ask(b(l))
        if out: raise Fail("%r printed %r" % (l, out))
    n, kind = s.n, s.kind
    tail = tail + close
    # Everything is typed at once: the editor takes one key at a time.
    s.send(b(head + wd + tail) + LEFT * len(tail))
    s.settle(0.02, 2)
    s.buf = b""
    s.send(b"\t" * tabs)
    # The line is shown again after each tab.
    s.wait(lambda: len(re.findall(rb"\x1b\[1G@@%d%s%%.*?\x1b\[0K\x1b\[\d+G" % (n, re.escape(kind)), s.buf, re.S)) >= tabs, "the line after %d tabs in %r" % (tabs, head + wd))
    got = s.buf
    s.buf = b""
    seen, _ = parse(got, n, kind)
    ok = None
    for slash in (False, True):
        shown, line = simulate(w, head, wd, tail, tabs, more, slash)
        width = 4 + len(str(n)) + len(kind)
        want = [("list", v) if isinstance(v, list) else ("line", v, width + len(v) - len(tail)) for v in shown]
        if seen == want: ok = line; break
        wrong = want if not slash else wrong
    if ok is None: raise Fail("%d tabs after %r, before %r (in %r, home %r): the terminal shows %r, not %r" % (tabs, head + wd, tail, w.cwd, w.home, seen, wrong))
    if w.offers(wd, False): ctx.nontrivial = True
    ctx.label("offers %d" % min(4, len(w.offers(wd, False))))
    if any(v[0] == "list" for v in seen): ctx.label("list")
    if ":" in "".join(ok):
        # Not a plain word.
        s.send(b"\x03")
        s.prompt()
        return
    # The command entered is the line shown.
    s.send(b(more) + b"\r")
    s.expect(rb"\r?\n")
    out = s.prompt()
    for l in after:
        if out: raise Fail("before %r: printed %r" % (l, out))
        out = s.ask(b(l))
    if s.kind != b": ": raise Fail("%r is still being continued" % "".join(ok))
    final = ok[1] + (ok[2][:-len(close)] if close else ok[2])
    args = final.split()
    if final[:1] == " ": args = [""] + args
    if args and not close and args[0].startswith("~/"): args[0] = os.path.normpath(w.home + args[0][1:])
    if "nosuchcmd" in head or "no-such" in head:
        if b"error" not in out or b"nosuchcmd-z" not in out and b"no-such" not in out: raise Fail("%r printed %r" % ("".join(ok), out))
        return
    args = [a for a in args if a]
    if close: args = ["p" + "".join(args)]
    if any("~" in a for a in args) and not close: return
    first = {2: ["x"], 3: ["x"], 4: ["q (q"], 5: ["a ) b"], 8: ["pq"], 10: ["x"], 12: ["one\ntwo"], 13: ["k"], 17: ["-"]}.get(x[1], [])
    want = hexed(first + args)
    if x[1] == 9: want = hexed(["one"]) + want
    if x[1] in (18, 19):
        w.va += 1 if x[1] == 18 else 2
        want = hexed([str(w.va)] + args)
    if x[1] == 21: want = hexed([str(w.va), "()", "1/2"] + args)
    if x[1] == 10: want += hexed(["two"])
    if out.decode("latin-1") != want: raise Fail("%r, completed to %r, printed %r, not %r" % (head + wd + tail, "".join(ok), out, want))


def stub(ctx, d, mode):
    if mode == "real": return ctx.paths["bin"]
    p = os.path.join(d, "bin")
    os.mkdir(p)
    for e in os.listdir(ctx.paths["bin"]):
        if e != "bash": os.symlink(os.path.join(ctx.paths["bin"], e), os.path.join(p, e))
    if mode != "none":
        with open(os.path.join(p, "bash"), "w") as f: f.write({"": "#!/bin/sh\necho\n", "fail": "#!/bin/sh\nexit 3\n", "minimal": "#!/bin/sh\necho _minimal\necho zzz\necho ab\n"}[mode])
        os.chmod(os.path.join(p, "bash"), 0o755)
    return p


def check(ctx, case):
    d = ctx.dir()
    w = World(os.path.join(d, "root"))
    os.mkdir(w.root)
    for i, (at, name, kind) in enumerate(case["tree"]): w.make(at, name, kind, i * 7)
    ds = w.dirs()
    w.cwd = ds[case["cwd"] % len(ds)]
    w.home = ds[case["home"] % len(ds)]
    if case["link"]:
        os.symlink(w.cwd, os.path.join(d, "s:t"))
        w.cwd = os.path.join(d, "s:t")
        ctx.label("linked working directory")
    env = ctx.env(d)
    env["HOME"] = w.home
    env["PATH"] = stub(ctx, d, case["bash"])
    env["PWD"] = w.cwd
    s = None
    try:
        s = ptysess.Repl(ctx, d, w.cwd, env, rc="define va 1\ndefine bump: method () {\n set va: add $va 1\n return $va\n}\n")
        if s.greeting: return "printed %r before the first prompt" % s.greeting
        for i, x in enumerate(case["steps"]):
            if x[0] == "tab": tab(ctx, s, w, x)
            elif x[0] == "make": w.make(x[1], x[2], x[3], i); ctx.label("make")
            elif x[0] == "drop":
                ps = [p for p in w.paths() if os.path.islink(p) or os.path.isfile(p)]
                if ps: os.unlink(ps[x[1] % len(ps)]); ctx.label("drop")
            elif x[0] == "home":
                ds = w.dirs()
                w.home = ds[x[1] % len(ds)]
                out = s.ask(b("export HOME '%s'" % w.home))
                if out: return "export HOME printed %r" % out
            elif x[0] == "cd":
                ds = w.dirs()
                w.cwd = ds[x[1] % len(ds)]
                out = s.ask(b("cd '%s'" % w.cwd))
                if out: return "cd printed %r" % out
                ctx.label("cd")
        out = s.ask(b"write-line $va $PWD")
        if out != b("%d %s\r\n" % (w.va, w.cwd)): return "at the end $va and $PWD are %r, not %d and %r" % (out, w.va, w.cwd)
        s.send(b"\x04")
        if s.exit_status() != 0: return "ended with %r" % s.rc
    except (Fail, ptysess.Hang) as ex:
        return "%s\n%r" % (ex, s.log[-1500:] if s else b"")
    finally:
        if s: s.close()


PARTS = [Part("sessions", lambda: case_st, check, 560, 9000, "sessions of up to nine steps: a path of a generated tree completed with one to three tabs in one of 22 contexts (also inside an unfinished command, in the middle of a line), then entered; "
              "directories changed, files made and removed in between. Non-trivial: something was offered")]
