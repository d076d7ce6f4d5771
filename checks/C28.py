"""C28: cd keeps $PWD, $OLDPWD and every file operation in agreement."""
import os
from hypothesis import strategies as st
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "stateful property-based testing: generated sequences of directory changes over generated trees; $PWD, $OLDPWD and what each kind of file operation reaches against a model of logical directories"
ASSUMPTIONS = ["all changes of directory of one case are made at one scope level and by one task",
               "runs as an unprivileged user, so directories without permissions refuse"]

USER = 65534
COMPS = ["a", "b", "c", "d e", "s[1]", ".h", "x*", "\xc3\xa9", "..", "..", ".", "l", "up", "abs", "self", "loop", "gone", "file", "flink", "missing", "locked", "blind", "n" * 300, "", "inner"]
SUBS = ["a", "b", "c", "d e", "s[1]", ".h", "x*", "\xc3\xa9", "locked", "blind", "file"]


@st.composite
def tree_st(draw, depth=2):
    t = {}
    for n in draw(st.lists(st.sampled_from(SUBS), min_size=1, max_size=6 if depth == 2 else 3, unique=True)):
        t[n] = None if n == "file" else draw(tree_st(depth - 1)) if depth and n not in ("locked", "blind") else {}
    for n in draw(st.lists(st.sampled_from(["l", "up", "abs", "self", "loop", "gone", "flink"]), max_size=3, unique=True)):
        t[n] = {"l": [draw(st.sampled_from(["a/b", "a", "b/c", "d e", "../a", "x*"]))], "up": [".."], "abs": ["TOP/" + draw(st.sampled_from(["a", "b", "a/b", "d e"]))],
                "self": ["."], "loop": ["loop"], "gone": ["nowhere"], "flink": ["file"]}[n]
    return t


@st.composite
def step_st(draw):
    k = draw(st.sampled_from(["go", "go", "go", "go", "go", "-", "none", "home", "homesub", "pattern", "implicit", "implicit", "two", "top"]))
    s = {"k": k, "res": draw(st.booleans()), "obs": draw(st.lists(st.sampled_from(OBS), min_size=1, max_size=3, unique=True))}
    if k in ("go", "homesub", "implicit"):
        s["p"] = draw(st.lists(st.sampled_from(COMPS[:11] * 3 + COMPS), min_size=1, max_size=3))
        # Most often somewhere that is there.
        s["here"] = draw(st.integers(0, 9))
        s["abs"] = draw(st.sampled_from(["", "", "", "top", "pwd"]))
        s["slash"] = draw(st.integers(0, 7)) == 5
        s["how"] = draw(st.sampled_from(["lit", "lit", "dq", "strvar", "symvar", "interp"]))
    if k == "pattern": s["p"] = [draw(st.sampled_from(["a", "b", "d", "x", ".h", "s", "l", "m"]))]; s["how"] = draw(st.sampled_from(["*", "?", "[]"]))
    return s


OBS = ["child", "env", "cat", "redir-in", "redir-out", "append", "exists", "open", "glob", "source", "nofile", "pwdvar", "run", "here"]


@st.composite
def case_st(draw):
    return {"tree": draw(tree_st()), "htree": draw(tree_st(1)), "start": draw(st.sampled_from(["plain", "plain", "link", "wrong", "unset"])),
            "scope": draw(st.sampled_from(["top", "top", "top", "method", "block", "if", "object", "task"])), "steps": draw(st.lists(step_st(), min_size=1, max_size=9))}


def build(path, tree, top, ids):
    os.mkdir(path)
    ids.append(path)
    n = len(ids)
    for f, t in (("id", "%d\n" % n), ("lib.oh", "write-line lib%d\n" % n), ("only-%d" % n, "")):
        with open(os.path.join(path, f.encode()), "w") as o: o.write(t)
    with open(os.path.join(path, b"prog"), "w") as o: o.write("#!/bin/sh\necho prog%d\n" % n)
    os.chmod(os.path.join(path, b"prog"), 0o755)
    for name, v in sorted(tree.items()):
        p = os.path.join(path, name.encode("latin-1"))
        if v is None:
            with open(p, "w"): pass
        elif isinstance(v, list): os.symlink(v[0].replace("TOP", top.decode("latin-1")).encode("latin-1"), p)
        else: build(p, v, top, ids)
    os.chmod(path, {b"locked": 0, b"blind": 0o333}.get(os.path.basename(path), 0o777))


def entries(path):
    try: return sorted(os.listdir(path))
    except OSError: return []


def check(ctx, case):
    root = os.fsencode(ctx.dir())
    os.chmod(root, 0o755)
    top, home, ids = os.path.join(root, b"top"), os.path.join(root, b"ho me"), []
    build(top, case["tree"], top, ids)
    build(home, case["htree"], top, ids)
    os.symlink("top", os.path.join(root, b"link"))
    number = {os.path.realpath(p): i + 1 for i, p in enumerate(ids)}
    start = {"plain": top, "link": os.path.join(root, b"link"), "wrong": top, "unset": top}[case["start"]]
    cur = old = start
    env = {"HOME": home, "PWD": {"wrong": b"/nowhere"}.get(case["start"], start)}
    lines, want, outs, moved, failed = [], [], {}, 0, 0

    def S(b): return b.decode("latin-1")

    def can(s):
        """Whether s can be entered, by the user."""
        return b"/locked" not in s and os.path.isdir(s)

    for i, x in enumerate(case["steps"]):
        k, target, arg, error = x["k"], None, None, None
        if k in ("go", "implicit", "homesub"):
            p = [c.encode("latin-1") for c in x["p"]]
            if x["here"] < 6:
                base = home if k == "homesub" else top if x["abs"] == "top" else cur
                ds = [e for e in entries(base) if os.path.isdir(os.path.join(base, e))] + [b".."]
                p[0] = ds[(x["here"] * 7 + len(x["p"]) + i) % len(ds)]
            p = b"/".join(p)
            if k == "homesub": p = home + b"/" + p
            elif x["abs"] == "top": p = top + b"/" + p
            elif x["abs"] == "pwd": p = cur + b"/" + p
            if x["slash"]: p += b"/"
            arg = p
            if k == "implicit" and p[:1] != b"/":
                # Named so that no directory of PATH is searched.
                if not p.startswith(b".."): arg = p = b"./" + p
                elif p != b".." and not p.startswith(b"../"): continue
                # What is there is looked for before the name is taken as typed.
                if os.path.realpath(os.path.normpath(os.path.join(cur, p))) != os.path.realpath(os.path.join(cur, p)): continue
            target = p
        elif k == "top": target = arg = top
        elif k == "-": target, arg = old, None
        elif k in ("none", "home"): target = home
        elif k == "two": error = True
        elif k == "pattern":
            if b"blind" in cur: continue
            c = x["p"][0]
            hits = [e for e in entries(cur) if e.decode("latin-1").startswith(c) and (x["how"] == "*" or len(e.decode("utf-8")) == len(c) + 1)]
            if x["how"] == "[]": hits = [e for e in entries(cur) if e == c.encode()]
            pat = c + {"*": "*", "?": "?"}.get(x["how"], "")
            if x["how"] == "[]": pat = (c[:-1] + "[" + c[-1] + "]") if len(c) == 1 or c[0] == "." else c
            if len(hits) != 1: error = True
            else: target = hits[0]
        # The command.
        if k == "-": cmd = "cd -"
        elif k == "none": cmd = "cd"
        elif k == "home": cmd = "cd ~"
        elif k == "two": cmd = "cd a b"
        elif k == "pattern": cmd = "cd " + pat
        else:
            t = S(arg)
            how = x.get("how", "lit")
            if k == "homesub" and t.startswith(S(home) + "/") and not any(c in t[len(S(home)):] for c in " *[") and how == "lit":
                a = "~" + t[len(S(home)):]
                # Joined, so cleaned.
                target = os.path.normpath(target)
            elif how == "dq" and '"' not in t: a = '"%s"' % t
            elif how in ("strvar", "interp"):
                lines.append("define v%d %s" % (i, D.quote(t)))
                a = "$v%d" % i if how == "strvar" else '"${v%d}"' % i
            elif how == "symvar" and not any(c in t for c in "*?[") and t != "" and t != "-":
                lines.append("define v%d (symbol %s)" % (i, D.quote(t)))
                a = "$v%d" % i
            else: a = D.quote(t)
            if k == "implicit": cmd = "(symbol %s)" % D.quote(t) if how == "symvar" and not any(c in t for c in "*?[") else a if how in ("lit", "dq") else D.quote(t)
            else: cmd = "cd " + a
        ok = False
        if not error:
            full = target if target.startswith(b"/") else os.path.normpath(os.path.join(cur, target))
            ok = can(full)
            if k == "implicit" and not os.path.isdir(target if target.startswith(b"/") else os.path.join(cur, target)): error = True
            if k == "implicit" and b"/locked/" in (b"/" + target.rstrip(b"/")): error = True
        if error:
            lines.append("(method () {\n catch ex {\n  write-line refused\n  return ()\n }\n %s\n write-line accepted\n})" % cmd)
            want.append("refused")
        elif x["res"]:
            lines.append("write-line (%s)" % cmd)
            want.append("true" if ok else "()")
        else: lines.append(cmd)
        ok = ok and not error
        if ok:
            if full != cur: moved += 1
            old, cur = cur, full
            ctx.label("entered by " + k)
        else:
            failed += 1
            ctx.label("refused")
        n = number.get(os.path.realpath(cur))
        lines.append('vh args "${PWD}" "${OLDPWD}"')
        want += ["[%s]" % cur.hex(), "[%s]" % old.hex(), "end"]
        if n is None:
            # Above the tree.
            lines.append("vh pwd")
            want.append(os.path.realpath(cur).hex())
            continue
        blind = b"blind" in os.path.realpath(cur)
        for o in x["obs"]:
            if o == "child": lines.append("vh pwd"); want.append(os.path.realpath(cur).hex())
            elif o == "env": lines.append("vh enval PWD OLDPWD"); want += ["env PWD x" + cur.hex(), "env OLDPWD x" + old.hex()]
            elif o == "cat": lines.append("vh catf id"); want.append(str(n))
            elif o == "redir-in": lines.append("vh cat < id"); want.append(str(n))
            elif o in ("redir-out", "append"):
                lines.append("vh puth %02x %s out" % (65 + i, ">>" if o == "append" else ">|"))
                f = os.path.join(os.path.realpath(cur), b"out")
                outs[f] = (outs.get(f, "") if o == "append" else "") + chr(65 + i)
            elif o == "exists": lines.append("write-line (exists only-%d)" % n); want.append("true")
            elif o == "nofile": lines.append("write-line (exists ./only-%d)" % (n + 1)); want.append("()")
            elif o == "open": lines.append("define f%d: open r id\nwrite-line (f%d read)\nf%d close" % (i, i, i)); want.append(str(n))
            elif o == "glob" and not blind: lines.append("vh args only*"); want += ["[%s]" % (b"only-%d" % n).hex(), "end"]
            elif o == "source": lines.append("source %slib.oh" % ("./" if i % 2 else "")); want.append("lib%d" % n)
            elif o == "run": lines.append("./prog"); want.append("prog%d" % n)
            elif o == "pwdvar": lines.append('write-line "${PWD}"'); want.append(S(cur))
            elif o == "here": lines.append("vh catf ./id < /dev/null | vh cat"); want.append(str(n))
    body = "\n".join(lines) + "\n"
    scope = case["scope"]
    if scope == "method": body = "(method () {\n" + body + "})\n"
    elif scope == "block": body = "block {\n" + body + "}\n"
    elif scope == "if": body = "if true {\n" + body + "}\n"
    elif scope == "object": body = "object {\n" + body + "}\n"
    elif scope == "task": body = "wait (spawn {\n" + body + "})\n"
    r = ctx.script(body, cwd=os.fsdecode(top), env={k: v for k, v in env.items() if not (k == "PWD" and case["start"] == "unset")}, user=USER)
    out = "".join(w + "\n" for w in want).encode("latin-1")
    if r.hang or r.rc or r.err or r.out != out:
        return "want %s, got %s\n%r\n%s" % (out.decode("latin-1"), r.out.decode("latin-1"), r, body)
    for f, t in outs.items():
        try:
            with open(f) as o: got = o.read()
        except OSError as e: got = repr(e)
        if got != t: return "%r holds %r, want %r\n%s" % (f, got, t, body)
    stray = [os.path.join(d, b"out") for d, _, fs in os.walk(root) if b"out" in fs and os.path.join(os.path.realpath(d), b"out") not in outs]
    if stray: return "stray %r\n%s" % (stray, body)
    ctx.label("scope " + scope)
    ctx.nontrivial = moved > 0


PARTS = [
    Part("directories", case_st, check, 1300, 30000,
         "trees with odd names, links, loops, files, unreadable and unsearchable directories; up to nine changes by cd or implicitly, relative, absolute, -, none, ~, patterns and quoted or computed names, "
         "each followed by up to three of fourteen kinds of observation. Non-trivial: the directory changed"),
]
