"""C30: the command line selects the program and its arguments faithfully."""
import os
from hypothesis import strategies as st
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: generated command lines, script names, argument strings, ways to exit and malformed commands, against a model of the documented options"
ASSUMPTIONS = ["standard input is not a terminal (sessions on one are C32)", "-m is only used without a terminal by programs that run no others", "NAME, SCRIPT and COMMAND are not empty, and NAME and SCRIPT do not start with -", "-i is not used without a terminal"]

CHARS = [chr(c) for c in range(1, 256)]
text_st = st.one_of(st.sampled_from(["", " ", "a", "a b", "-", "--", "-c", "-x", "--help", "-v", "-m", "--stdin", "-s", "--command=x", "*", "?", "$x", "$1", "${0}", "'", '"', "~", "~/x", "\\", "\\n", "(", ")", "{}", "a\nb", "\n", "#x", "a=b", ";",
                                     "&", "|", ">f", "x" * 5000, "\xc3\xa9", "\xff", "\x01", "[a]", ":", "true", "()", "0", "-1", "\xe2\x82"]), st.text(st.sampled_from(CHARS), max_size=8))
FILES = ["p.oh", "p", "a b.oh", "it's.oh", "$x.oh", "*.oh", "[p].oh", "~.oh", "\xc3\xa9.oh", "x\xff.oh", "(p).oh", "p;q", "a\\b.oh", "#p", "a\nb.oh", "p{}.oh", "\xf0\x9f\x90\xb9.oh", "=x", "a:b", "\"p\".oh", "a&b", "x>y", "tab\there", "\x7f.oh"]
DIRS = ["", "", "", "./", "d/", "d e/", "../", "d/../", "abs", "$d/", "d/./"]
EXITS = [("exit 0", 0), ("exit 1", 1), ("exit 7", 7), ("exit 255", 255), ("exit", 0), ("exit true", 0), ("exit ()", 1), ("exit 'x'", 0), ("exit (add 40 2)", 42), ("exit (vh exit 9)", 9), ("exit (false)", 1), ("exit (true)", 0), ("exit 2.0", 2),
         ("exit (list)", 1), ("exit (list 5)", 0), ("exit (vh exit 0)", 0), ("exit $e", 6)]
WRAPS = ["%s", "if true {\n %s\n}", "(method () {\n %s\n write-line after\n})", "while true {\n %s\n}", "block {\n block {\n  %s\n }\n}", "for (list 1 2) (method (x) {\n %s\n})",
         "(method () {\n catch ex {\n  write-line caught\n  return ()\n }\n %s\n})"]
BAD = ["(", ")", "write-line 'a", "write-line )", "write-line (list 1 2", "block {", "write-line a\n(", "}", "write-line a | ", "write-line \"${x", "| vh cat", "write-line a &&", "write-line a; )", "write-line a > ", "\\"]


@st.composite
def case_st(draw):
    k = draw(st.sampled_from(["script", "script", "script", "script", "command", "command", "command", "stdin", "stdin", "malformed", "badline", "print"]))
    c = {"k": k, "argv0": draw(st.sampled_from(["oh", "oh", "-oh", "/usr/bin/oh", "a b", "./oh", "$x*"])), "m": draw(st.sampled_from([None, None, None, "-m", "--monitor"])), "n": draw(st.sampled_from([0, 0, 1, 2, 3]))}
    c["args"] = draw(st.lists(text_st, max_size=5))
    if draw(st.integers(0, 20)) == 7: c["args"] = [str(i) for i in range(draw(st.sampled_from([10, 12, 120])))]
    c["exit"] = draw(st.sampled_from([None, None] + list(range(len(EXITS)))))
    c["wrap"] = draw(st.integers(0, len(WRAPS) - 1))
    c["file"], c["dir"] = draw(st.sampled_from(FILES)), draw(st.sampled_from(DIRS))
    c["form"] = draw(st.sampled_from(["-c", "-c", "--command", "--command=", "-cX", "-mc", "-mcX", "m after"]))
    c["name"] = draw(st.one_of(st.none(), text_st.filter(lambda s: s and not s.startswith("-"))))
    c["s"] = draw(st.sampled_from([None, "-s", "--stdin", "-ms", "-sm"]))
    c["bad"] = draw(st.integers(0, len(BAD) - 1))
    c["line"] = draw(st.sampled_from([["--bad"], ["-x"], ["-c"], ["-v", "p.oh"], ["-v", "-m"], ["-mx", "p.oh"], ["--version=3"], ["-c", "true", "-v"], ["--monitor=1", "p.oh"], ["--command"], ["-v", "-v", "-v"], ["--nosuch", "p.oh"]]))
    c["print"] = draw(st.sampled_from([["-v"], ["--version"], ["-h"], ["--help"], ["-m", "-h"], ["--help", "p.oh"]]))
    return c


def monitored(case):
    k = case["k"]
    return bool(case["m"] or k in ("command", "malformed") and "m" in case["form"].replace("--command", "") or k == "stdin" and "m" in (case["s"] or ""))


def show(case, *xs):
    """Prints each of xs, without other programs if there is job control."""
    if not monitored(case): return "vh args %s\n" % " ".join(xs)
    return "".join("for (list (splice $@)) (method (x) {\n write-line \"<${x}>\"\n})\n" if x == "(splice $@)" else "write-line \"<${%s}>\"\n" % x.strip("${}\"") for x in xs) + "write-line end\n"


def program(case, ex):
    p = show(case, "$0", "(splice $@)") + show(case, "\"${ORIGIN}\"") + "write-line (@ length)\n"
    n = len(case["args"])
    for i in list(range(1, n + 1))[:3] + ([n] if n else []): p += show(case, "$%d" % i, "\"${%d}\"" % i)
    p += "write-line (resolves? %d)\n" % (n + 1)
    if ex is not None: p += "define e 6\n" + WRAPS[case["wrap"]] % EXITS[ex][0] + "\nwrite-line not-reached\n"
    return p


def shown(case, xs):
    if monitored(case): return "".join("<%s>\n" % (x if isinstance(x, str) else x.decode("latin-1")) for x in xs) + "end\n"
    return "".join("[%s]\n" % (x.encode("latin-1") if isinstance(x, str) else x).hex() for x in xs) + "end\n"


def check(ctx, case):
    root = ctx.dir()
    cwd = os.path.join(root, "w")
    for d in ("d", "d e", "$d"): os.makedirs(os.path.join(cwd, d))
    rc = os.path.join(root, "rc")
    with open(rc, "w") as f: f.write("write ran >> %s\n" % D.quote(os.path.join(root, "mark")))
    k, args, ex = case["k"], case["args"], case["exit"]
    text = program(case, ex)
    stdin = b""
    if monitored(case) and ex is not None and ("vh" in EXITS[ex][0] or EXITS[ex][0][5:] in ("(true)", "(false)")): return None
    L = lambda s: s.encode("latin-1")
    if k == "stdin" and case["s"] is None and case["args"]: return None
    m = [case["m"]] if case["m"] else []
    name, origin = case["argv0"], cwd
    if k == "script":
        d = case["dir"]
        rel = (cwd + "/d/" if d == "abs" else d) + case["file"]
        if rel[0] in "-" or rel == "--": return None
        path = os.path.join(os.fsencode(cwd), L(rel))
        with open(path, "wb") as f: f.write(L(text))
        argv, name = m + [rel] + args, rel
        origin = os.path.normpath(os.path.dirname(path))
    elif k in ("command", "malformed"):
        t = text if k == "command" else BAD[case["bad"]]
        if case["n"] and k == "command": t = t.rstrip("\n") + "\n" * (case["n"] - 1)
        form = case["form"]
        argv = {"-c": ["-c", t], "--command": ["--command", t], "--command=": ["--command=" + t], "-cX": ["-c" + t], "-mc": ["-mc", t], "-mcX": ["-mc" + t], "m after": ["-c", t, "-m"]}[form]
        if m and "m" not in form.replace("--command", ""): argv = m + argv
        if case["name"] is not None: argv += [case["name"]] + args; name = case["name"]
        else: args = []
        if k == "command" and args != case["args"]: return None if ex is None else check(ctx, dict(case, args=[]))
    elif k == "stdin":
        s = case["s"]
        if s is None: argv, args = m, []
        else: argv = (m if "m" not in s else []) + [s] + args
        if s and args and args[0].startswith("-"):
            if args[0] != "-": return None
        text = program(dict(case, args=args), ex)
        stdin = L(text)
    elif k == "badline": argv = case["line"]
    else: argv = case["print"]
    env = ctx.env(root)
    env["OH_RC"] = rc
    r = ctx.run([L(case["argv0"])] + [L(a) for a in argv], cwd, env, stdin, binary=ctx.paths["oh"])
    marked = os.path.exists(os.path.join(root, "mark"))
    ctx.label(k)
    if k == "badline" or k == "print":
        if r.hang or marked: return "%r: %r, marked %s" % (argv, r, marked)
        if k == "badline":
            if r.rc in (0, None) or r.rc > 1 or b"Usage:" not in r.out + r.err: return "%r: %r" % (argv, r)
        elif r.rc or not (r.err.startswith(b"oh v") if argv[0] in ("-v", "--version") else b"Usage:" in r.out and b"--command=COMMAND" in r.out and not r.err): return "%r: %r" % (argv, r)
        ctx.nontrivial = True
        return None
    if k == "malformed":
        if r.hang or r.rc != 1 or r.out or not r.err: return "%r: %r" % (argv, r)
        ctx.nontrivial = True
        return None
    want = shown(case, [name] + args) + shown(case, [os.fsencode(origin) if isinstance(origin, str) else origin]) + "%d\n" % len(args)
    for i in list(range(1, len(args) + 1))[:3] + ([len(args)] if args else []): want += shown(case, [args[i - 1]] * 2)
    want += "()\n"
    status = EXITS[ex][1] if ex is not None else 0
    if r.hang or r.rc != status or r.err or r.out != want.encode("latin-1") or not marked:
        return "%r: want %d %s, got %r\n%s\nmarked %s\n%s" % (argv, status, want, r, r.out.decode("latin-1"), marked, text)
    if ex is not None: ctx.label("exits")
    ctx.nontrivial = bool(args) or ex is not None or name not in ("oh", "p.oh")


PARTS = [
    Part("lines", case_st, check, 3500, 60000,
         "scripts of odd names in odd directories, -c in all its forms, with and without a name, and standard input, each with and without -m and -s and up to 120 arguments of any bytes; eighteen ways to give a status at seven places; malformed "
         "and incomplete commands and command lines; -v and -h. Non-trivial: arguments, a status, or an odd name"),
]
