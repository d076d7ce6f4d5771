"""C27: globs and tildes expand to exactly the matching paths."""
import os, re
from hypothesis import strategies as st
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: generated directory trees and patterns; expansions against an independent matcher over the tree, and against match (metamorphic)"
ASSUMPTIONS = ["patterns are * ? [...] [^...] with ranges and backslash escapes; matches are ordered directory by directory, each by bytes; results are cleaned relative paths",
               "no symbolic link is followed by .. (textual and physical parents differ there)"]

NAMES = ["a", "b", "ab", "abc", "ba", ".a", ".ab", ".", "a.b", "A", "1", "12", "a b", "-x", "~", "~a", "a-b", "^", "]", "[a]", "a*b", "*", "?", "\\", "a\\b", "\xc3\xa9", "a\xc3\xa9", "x\xff", "..a", "$x", "'", "Z", "a\nb"]


@st.composite
def tree_st(draw, depth=2):
    """name -> None (file), dict (directory), or [target] (link)."""
    t = {}
    for n in draw(st.lists(st.sampled_from([n for n in NAMES if n != "."]), max_size=8 if depth == 2 else 4, unique=True)):
        k = draw(st.sampled_from(["file", "file", "dir", "dir", "link"] if depth else ["file"]))
        t[n] = draw(tree_st(depth - 1)) if k == "dir" else None if k == "file" else [draw(st.sampled_from(["nowhere", "a", "b", "ab"]))]
    return t


@st.composite
def comp_st(draw):
    """One component of a pattern, as terms."""
    out = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(["*", "*", "?", "lit", "lit", "lit", "set", "name", "."] + ["esc", "bad"] * (draw(st.integers(0, 5)) == 5)))
        if k == "*": out.append(["*"])
        elif k == "?": out.append(["?"])
        elif k == "lit": out.append(["lit", draw(st.sampled_from("abABx1.-"))])
        elif k == ".": out.append(["lit", "."])
        elif k == "name": out.append(["lit", draw(st.sampled_from(["a", "ab", "b", "\xc3\xa9", "12", ".a"]))])
        elif k == "esc": out.append(["esc", draw(st.sampled_from("*?[a"))])
        elif k == "bad": out.append(["bad", draw(st.sampled_from(["[", "[a", "[]", "[^]", "[a-]", "[^"]))])
        else:
            items = draw(st.lists(st.sampled_from(["a", "b", "A", ".", "x", "a-c", "A-Z", "0-9", "\xc3\xa9", "^", "*", "?", "[", "~", "-"]), min_size=1, max_size=3))
            if "-" in items: items = [i for i in items if i != "-"] or ["a"]
            neg = draw(st.booleans())
            if items[0] == "^" and not neg: items = ["a"] + items
            out.append(["set", neg, items])
    # Malformed only if nothing after it closes the set.
    out.sort(key=lambda t: t[0] == "bad")
    while len(out) > 1 and out[-2][0] == "bad": out.pop()
    return out


FORMS = ["word", "word", "word", "word", "sym", "var", "joined", "command", "method", "fn", "quoted", "dq", "strvar", "str", "interp", "again", "glob", "brace", "pipe", "list"]


@st.composite
def word_st(draw):
    comps = draw(st.lists(comp_st(), min_size=1, max_size=3))
    return {"pre": draw(st.sampled_from([""] * 6 + ["./", "../", "/", "~/", "~/"])), "comps": comps, "tail": draw(st.sampled_from(["", "", "", "", "plain"])), "form": draw(st.sampled_from(FORMS))}


@st.composite
def case_st(draw):
    return {"tree": draw(tree_st()), "top": draw(st.sampled_from(["w", "w", "w", "w[1]", "a*b", "q?", "w\\x", "w x"])), "home": draw(st.sampled_from(["h", "h", "h h", "h*", "h[a]"])), "htree": draw(tree_st(1)),
            "sub": draw(st.booleans()), "words": draw(st.lists(word_st(), min_size=1, max_size=4)), "how": draw(st.sampled_from(["args", "args", "args", "match"]))}


def text(comp):
    out = ""
    for t in comp:
        if t[0] in "*?": out += t[0]
        elif t[0] == "lit" or t[0] == "bad": out += t[1]
        elif t[0] == "esc": out += "\\" + t[1]
        else: out += "[" + ("^" if t[1] else "") + "".join(t[2]) + "]"
    return out


def uni(s): return s.encode("latin-1").decode("utf-8", "surrogateescape")


def regex(comp):
    """None if it can match nothing."""
    out = ""
    for t in comp:
        if t[0] == "*": out += ".*"
        elif t[0] == "?": out += "."
        elif t[0] in ("lit", "esc"): out += re.escape(uni(t[1]))
        elif t[0] == "bad": return None
        else: out += "[" + ("^" if t[1] else "") + "".join("-".join(re.escape(c) for c in i.split("-")) if len(i) == 3 and "-" in i else re.escape(uni(i)) for i in t[2]) + "]"
    return re.compile(out + r"\Z", re.S)


def matches(comp, name):
    if name.startswith(".") and not (comp[0][0] == "lit" and comp[0][1].startswith(".")):
        return False
    r = regex(comp)
    return bool(r and r.match(uni(name)))


def meta(s): return any(c in s for c in "*?[")


class World:
    """The tree as the file system has it: looked up through os, matched here."""

    def glob(self, base, comps):
        """Paths below base, directory by directory."""
        found = [""]
        for n, c in enumerate(comps):
            nxt = []
            for d in found:
                p = os.path.join(base, os.fsencode(uni(d)) if d else b"")
                if not os.path.isdir(p): continue
                if c in (".", ".."):
                    # Always written first.
                    nxt.append(d + c + "/")
                    continue
                for name in sorted(os.listdir(p)):
                    name = name.decode("latin-1")
                    if name == c if isinstance(c, str) else matches(c, name): nxt.append(d + name + "/")
            found = nxt
        return [f[:-1] for f in found]


def build(path, tree):
    os.mkdir(path)
    for n, v in tree.items():
        p = os.path.join(path, n.encode("latin-1"))
        if v is None: open(p, "w").close()
        elif isinstance(v, list): os.symlink(v[0], p)
        else: build(p, v)


SAFEWORD = re.compile(r"[A-Za-z0-9_*?\[\]^.~/\-\\\x80-\xff]+\Z")


def check(ctx, case):
    root = os.fsencode(ctx.dir())
    top = os.path.join(root, case["top"].encode())
    build(top, case["tree"])
    home = os.path.join(root, case["home"].encode() + b"-home")
    build(home, case["htree"])
    cwd = top
    if case["sub"]:
        ds = sorted(n for n, v in case["tree"].items() if isinstance(v, dict))
        if ds: cwd = os.path.join(top, ds[0].encode("latin-1"))
    cwds, homes = cwd.decode("latin-1"), home.decode("latin-1")
    if meta(cwds) or "\\" in cwds: ctx.label("odd directory")
    w = World()
    srcs, want, inner, err, pre, any_match = [], [], None, None, "", False
    for i, x in enumerate(case["words"]):
        comps = [text(c) for c in x["comps"]]
        if any(c in (".", "..") for c in comps): continue
        if x["tail"]: comps.append("plain")
        pats = list(x["comps"]) + (["plain"] if x["tail"] else [])
        pat = x["pre"] + "/".join(comps)
        form = x["form"]
        if not SAFEWORD.match(pat): continue
        # What it stands for when expanded.
        if x["pre"] == "~/":
            full = homes + "/" + "/".join(comps)
            if meta("".join(comps)):
                hits = [homes + "/" + g for g in w.glob(home, pats)]
            else: hits = None
            plain = os.path.normpath(full) if hits is None else None
        elif x["pre"] == "/":
            # Only below here, so made of our own directory's path.
            full = None
            if not meta("".join(comps)): hits, plain = None, pat
            else:
                if meta(cwds) or "\\" in cwds or not re.match(r"[A-Za-z0-9_/.\-]+\Z", cwds): continue
                pat = cwds + "/" + "/".join(comps)
                hits = [cwds + "/" + g for g in w.glob(cwd, pats)]
        else:
            if not meta(pat): hits, plain = None, pat
            else:
                base = [x["pre"][:-1]] if x["pre"] else []
                hits = [os.path.normpath(g) for g in w.glob(cwd, base + pats)]
                # Sibling names come back relative to here.
                hits = [os.path.relpath(os.path.join(b"/".join([cwd]), os.fsencode(uni(g))), cwd).decode("latin-1") for g in hits]
        tilde = pat.startswith("~")
        if not x["pre"] and tilde:
            # ~name is a path below HOME here.
            rest = pat[1:]
            if not meta(rest): hits, plain = None, os.path.normpath(homes + "/" + rest)
            else: continue
        # A tilde expanded alone is still a symbol, so expanded again.
        if form in ("again", "glob", "list") and hits is None and meta(plain): form = "word"
        ctx.label("form " + form)
        if form in ("quoted", "dq", "strvar", "str", "interp"):
            t = pat
            if form == "quoted": s = "'%s'" % pat
            elif form == "dq":
                if "\\" in pat: continue
                s = '"%s"' % pat
            elif form == "str": s = "(string '%s')" % pat
            elif form == "interp":
                pre += "define s%d '%s'\n" % (i, pat)
                s = '"${s%d}"' % i
            else:
                pre += "define s%d '%s'\n" % (i, pat)
                s = "$s%d" % i
            srcs.append(s)
            want.append(t)
            continue
        if form == "sym": s = "(symbol '%s')" % pat
        elif form in ("var", "brace"):
            pre += "define v%d (symbol '%s')\n" % (i, pat)
            s = "$v%d" % i if form == "var" else "${v%d}" % i
        elif form == "joined":
            if "/" not in pat: s = pat
            else:
                a, _, b = pat.partition("/")
                pre += "define j%d (symbol '%s')\n" % (i, b)
                s = (a or "") + "/$j%d" % i
        elif form == "again": s = "(splice (glob (splice (glob %s))))" % pat
        elif form == "glob": s = "(splice (glob %s))" % pat
        elif form == "list": s = "(splice (list %s))" % pat
        else: s = pat
        srcs.append(s)
        if hits is None: want.append(plain)
        elif hits:
            want += hits
            any_match = True
        elif form in ("again", "glob"):
            # Evaluated before the command's own words are expanded.
            if inner is None: inner = "no matches found: " + pat
        elif err is None: err = "no matches found: " + pat
    if not srcs: return None
    err = inner or err
    form = case["words"][0]["form"]
    run = "vh args"
    if form == "command": run = "command vh args"
    elif form == "method":
        pre += "define run: method ((args)) {\n vh args (splice $args)\n}\n"
        run = "run"
    elif form == "fn":
        pre += "fn run {\n vh args (splice $@)\n}\n"
        run = "run"
    line = run + " " + " ".join(srcs)
    if form == "pipe": line += " | vh cat"
    src = pre + "(method () {\n catch ex {\n  write-line $ex\n  return ()\n }\n %s\n})\n" % line
    if case["how"] == "match":
        # match agrees with globbing on single names.
        c = case["words"][0]["comps"][0]
        p = text(c)
        names = sorted(n.decode("latin-1") for n in os.listdir(cwd))
        if p in (".", "..") or not meta(p) or any(t[0] == "bad" for t in c): return None
        src = "".join("if (match %s %s) {\n vh puth %s\n}\n" % (D.quote(p), D.quote(n), n.encode("latin-1").hex() + "0a") for n in names)
        hits = w.glob(cwd, [c])
        r = ctx.script(src + "vh puth 1e\n(method () {\n catch ex {\n return ()\n }\n vh args (symbol %s)\n})\n" % D.quote(p), cwd=cwd, env={"HOME": home})
        if p.startswith("~"): return None
        ms = b"".join(h.encode("latin-1") + b"\n" for h in hits)
        gs = b"".join(b"[%s]\n" % h.encode("latin-1").hex().encode() for h in hits) + b"end\n" if hits else b""
        if r.hang or r.rc or r.err or r.out != ms + b"\x1e" + gs: return "want %r, got %r\n%s" % (ms + b"\x1e" + gs, r, src)
        ctx.label("match")
        ctx.nontrivial = bool(names)
        return None
    r = ctx.script(src, cwd=cwd, env={"HOME": home})
    if err: out = err.encode("latin-1") + b"\n"
    else: out = b"".join(b"[%s]\n" % t.encode("latin-1").hex().encode() for t in want) + b"end\n"
    if r.hang or r.rc or r.err or r.out != out:
        def dec(b):
            try: return [bytes.fromhex(l[1:-1]) for l in b.decode().split("\n")[:-2]]
            except ValueError: return b
        return "want %r, got %r (%r) in %r, home %r\n%s" % (dec(out), dec(r.out), r, cwd, home, src)
    ctx.label("no match" if err else "matches" if any_match else "nothing to expand")
    ctx.nontrivial = any_match or bool(err)


# ------------------------------------------------------------------ histories

POOL = ["*", "a*", "?", "[ab]*", "*.t", ".*", "d/*", "*/a*", "../*", "../*/b", "~/a*", "*/*", "d/?", "e/*.t"]
FNAMES = ["a", "b", "ab", "a.t", ".a", "c"]
DIRS = ["", "d", "e"]


def history_st():
    path = st.tuples(st.sampled_from(DIRS), st.sampled_from(FNAMES)).map(list)
    # Few patterns in a case, so that each is used several times.
    op = lambda pats: st.one_of(
        st.tuples(st.just("glob"), st.sampled_from(pats)).map(list),
        st.tuples(st.just("touch"), path).map(list),
        st.tuples(st.just("glob"), st.sampled_from(pats)).map(list),
        st.tuples(st.just("rm"), path).map(list),
        st.tuples(st.just("ren"), path, path).map(list),
        st.tuples(st.just("glob"), st.sampled_from(pats)).map(list),
        st.tuples(st.just("cd"), st.sampled_from(DIRS)).map(list),
        st.tuples(st.just("home"), st.sampled_from(DIRS)).map(list))
    return st.lists(st.sampled_from(POOL), min_size=1, max_size=3).flatmap(lambda pats: st.lists(op(pats), min_size=3, max_size=12))


def history(ctx, case):
    """The same patterns again and again while files, directories and HOME change."""
    root = ctx.dir()
    w = os.path.join(root, "w")
    os.makedirs(os.path.join(w, "d"))
    os.mkdir(os.path.join(w, "e"))
    files, cwd, home = set(), "", ""
    full = lambda d: os.path.join(w, d) if d else w
    loc = lambda q: os.path.join(full(q[0]), q[1])
    src = "define try: method (p) {\n catch ex {\n  write-line none\n  return ()\n }\n vh args $p\n}\n"
    src += "export HOME '%s'\n" % w
    want, seen, again = [], {}, False

    def names(path):
        """What a directory of the model holds, or None."""
        for d in DIRS:
            if path == full(d): return sorted([n for x, n in files if x == d] + (["d", "e"] if not d else []))
        return ["w"] if path == root else None

    def fits(pat, n):
        if n.startswith(".") and not pat.startswith("."): return False
        return re.match("".join(".*" if c == "*" else "." if c == "?" else "[ab]" if c == "S" else re.escape(c) for c in pat.replace("[ab]", "S")) + r"\Z", n)

    for op in case:
        k = op[0]
        if k == "glob":
            pat = op[1]
            base = full(home) if pat.startswith("~/") else full(cwd)
            found = [base]
            for c in pat.replace("~/", "").split("/"):
                nxt = []
                for f in found:
                    ns = names(f)
                    if ns is None: continue
                    if c == "..": nxt.append(os.path.dirname(f))
                    else: nxt += [os.path.join(f, n) for n in ns if (fits(c, n) if meta(c) else n == c)]
                found = nxt
            # The whole list is made by one word, passed on as strings.
            hits = found if pat.startswith("~") else [os.path.relpath(f, full(cwd)) for f in found]
            src += "try2 (symbol '%s')\n" % pat
            want += ["[%s]" % h.encode().hex() for h in hits] + ["end"] if hits else ["none"]
            if pat in seen and seen[pat] != hits: again = True
            seen[pat] = hits
        elif k == "touch":
            files.add(tuple(op[1]))
            src += "vh fs touch '%s'\n" % loc(op[1])
        elif k == "rm":
            if tuple(op[1]) not in files: continue
            files.discard(tuple(op[1]))
            src += "vh fs rm '%s'\n" % loc(op[1])
        elif k == "ren":
            if tuple(op[1]) not in files or op[1] == op[2]: continue
            files.discard(tuple(op[1]))
            files.add(tuple(op[2]))
            src += "vh fs ren '%s' '%s'\n" % (loc(op[1]), loc(op[2]))
        elif k == "cd":
            cwd = op[1]
            src += "cd '%s'\n" % full(cwd)
        else:
            home = op[1]
            src += "export HOME '%s'\n" % full(home)
    src = src.replace("try2", "try")
    r = ctx.script(src, cwd=w)
    if r.hang or r.rc or r.err or r.out.decode("latin-1").split("\n")[:-1] != want:
        return "want %r, got %r\n%s" % (want, r, src)
    ctx.label("a pattern matched something else later" if again else "no change")
    ctx.nontrivial = again


PARTS = [
    Part("histories", history_st, history, 700, 15000,
         "up to twelve steps that expand a few patterns again and again while files are made, removed and renamed, and the directory and HOME change. Non-trivial: a pattern matches something else later"),
    Part("expansion", case_st, check, 2600, 70000,
         "trees of up to three levels of odd names, hidden files, links and special directories; up to four words of patterns of one to three components with stars, question marks, sets, ranges, escapes and malformed sets, relative, "
         "absolute, with ./ ../ and ~/, written, computed, quoted, joined and passed on; also match against globbing. Non-trivial: a match or a refusal"),
]
