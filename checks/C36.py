"""C36: the bundled library procedures meet their definitions."""
import os

from hypothesis import strategies as st
import ohcalc as K
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: the library procedures over random inputs against their definitions in Python, with sentinel variables named like their internals"
ASSUMPTIONS = ["the body given to fn is run in a scope of its own inside the scope of the definition, as a syntax with its arguments globbed",
               "prompt is tested with make-prompt replaced, so that it does not depend on the host's name"]

# Names used inside the library.
INNER = ["l", "m", "r", "c", "args", "body", "count", "n", "path", "term", "next", "name", "len", "first", "rest", "miller", "defn", "arg", "x", "p", "f", "res", "suffix",
         "response", "request", "set-it"]
SENT = "".join("define %s keep-%s\n" % (v, v) for v in INNER)
AFTER = ["$" + v for v in INNER]
KEPT = [[D.y("keep-" + v)] for v in INNER]
T = D.y("true")


def word(): return st.sampled_from(["a", "b", "foo", "1", "x-y", "if", "splice"])


def atom(): return st.one_of(word().map(D.y), D.text_st(5).map(D.s), D.rational_st().map(D.n), st.none())


def datum(): return st.one_of(atom(), atom(), st.lists(atom(), max_size=3).map(D.lst))


@st.composite
def op_st(draw):
    op = draw(st.sampled_from(["for", "for", "seq", "fn", "fn", "fn", "coalesce", "coalesce", "here", "eq", "random", "prompt", "for-throw", "list", "quote", "loop", "not"]))
    o = {"op": op}
    if op in ("for", "for-throw", "list", "loop"):
        o["l"] = draw(st.lists(datum(), max_size=6))
        o["i"] = draw(st.integers(0, 7))
        o["how"] = draw(st.integers(0, 2))
    elif op == "seq":
        o["n"] = draw(st.one_of(st.integers(-2, 12), st.just(300)))
    elif op == "fn":
        o["args"] = draw(st.lists(st.one_of(datum(), st.sampled_from([["g", "*.t"], ["g", "f?.t"], ["g", "~"], ["s", "*.t"]])), max_size=5))
        o["where"] = draw(st.integers(0, 1))
        o["twice"] = draw(st.booleans())
    elif op == "coalesce":
        o["names"] = draw(st.lists(st.sampled_from(["no1", "no2", "no3", "yes1", "yes2", "yes3"]), max_size=4))
        o["dflt"] = draw(st.one_of(word().map(D.y), D.text_st(5).map(D.s)))
    elif op == "here":
        o["t"] = draw(st.lists(st.sampled_from(["\n", "\n", "a", " ", "b\n", "\t", "'", "\\", "é".encode().decode("latin-1")]), max_size=6).map("".join))
    elif op in ("eq", "not", "quote"):
        o["l"] = draw(st.lists(st.one_of(word().map(D.y), word().map(D.s)), min_size=2, max_size=4))
        if draw(st.booleans()):
            o["l"] = [[draw(st.sampled_from("sy")), o["l"][0][1]] for _ in o["l"]]
    elif op == "random":
        o["n"] = draw(st.one_of(st.integers(1, 20), st.sampled_from([1, 2 ** 31, 2 ** 40, 2 ** 62])))
    elif op == "prompt":
        o["t"] = draw(D.text_st(4, nul=False))
        o["bad"] = draw(st.booleans())
    return o


def case_st(): return st.lists(op_st(), min_size=1, max_size=5)


FILES = ["f1.t", "f2.t", "g.t", ".h.t", "other"]


def check(ctx, case):
    setup, exprs, want = [SENT, "define yes1 'one'\ndefine yes2: list 1 (list 2)\ndefine yes3 ()\ndefine log ()\n"], [], []
    home = os.path.join(ctx.root, "home")

    def add(e, w):
        exprs.append(e)
        want.append(w)
    for k, o in enumerate(case):
        op = o["op"]
        ctx.label(op)
        if op == "for":
            items = o["l"]
            src = "(list %s)" % " ".join(map(D.source, items)) if items else "()"
            if o["how"] == 0:
                add("(for %s (method (x) {\n return (list $x %d)\n}))" % (src, o["i"]), ("v", D.lst([D.lst([x, D.y(str(o["i"]))]) for x in items])))
            elif o["how"] == 1:
                # In order, each once, and through a variable.
                add("((method () {\n define seen: list start\n define l %s\n for $l (method (e) {\n  seen append $e\n })\n return (list $seen $l)\n}))" % src,
                    ("v", D.lst([D.lst([D.y("start")] + items), D.lst(items)])))
            else:
                add("(for (for %s $list) (method (c) {\n return (c head)\n}))" % src, ("v", D.lst(items)))
            ctx.nontrivial |= len(items) > 1
        elif op == "for-throw":
            items = o["l"]
            i = o["i"]
            src = "(list %s)" % " ".join(map(D.source, items)) if items else "()"
            w = ("ex", D.y("stop")) if i < len(items) else ("v", D.lst([D.n(j + 1) for j in range(len(items))]))
            add("((method () {\n define k 0\n for %s (method (e) {\n  if (equal? (number $k) (number %d)) {\n   throw stop\n  }\n  set k: add $k 1\n  return (number $k)\n })\n}))" % (src, i),
                ("ex", "stop") if w[0] == "ex" else w)
        elif op == "list":
            add("(list %s)" % " ".join(map(D.source, o["l"])) if o["l"] else "(list)", ("v", D.lst(o["l"])))
        elif op == "loop":
            # The list for walks along is that of the call.
            items = o["l"]
            src = "(list %s)" % " ".join(map(D.source, items)) if items else "()"
            add("((method () {\n define l %s\n define r: for $l (method (e) {\n  set l ()\n  return $e\n })\n return (list $r $l)\n}))" % src,
                ("v", D.lst([D.lst(items), None if items else None])))
        elif op == "seq":
            add("(seq %d)" % o["n"], ("v", D.lst([D.n(i) for i in range(max(0, o["n"]))])))
        elif op == "fn":
            flat = []
            srcs = []
            for a in o["args"]:
                if a is not None and a[0] == "g":
                    srcs.append(a[1])
                    flat += {"*.t": [D.s(f) for f in sorted(FILES) if f.endswith(".t") and f[0] != "."], "f?.t": [D.s("f1.t"), D.s("f2.t")], "~": [D.s(home)]}[a[1]]
                else:
                    srcs.append(D.source(a))
                    flat.append(a)
            n = len(flat)
            body = "fn fn%d {\n define inner %d\n return (list $@ (list%s) $outer)\n}\n" % (k, k, "".join(" $%d" % (i + 1) for i in range(n)))
            if o["where"]:
                # Defined where it is used, over a local of the same name.
                e = "((method () {\n define outer local\n %s define v (fn%d %s)\n return $v\n}))" % (body, k, " ".join(srcs))
                w = "local"
            else:
                setup.append(body)
                e = "(fn%d %s)" % (k, " ".join(srcs))
                w = "global"
            for _ in range(1 + o["twice"]):
                add(e, ("fn", flat, w))
            add("(resolves? inner)", ("v", None))
            ctx.nontrivial |= n > 0
        elif op == "coalesce":
            v = D.y("none")
            w = o["dflt"]
            for x in o["names"]:
                if x[0] == "y":
                    w = {"yes1": D.s("one"), "yes2": D.lst([D.y("1"), D.lst([D.y("2")])]), "yes3": None}[x]
                    ctx.nontrivial = True
                    break
            add("(coalesce %s %s)" % (" ".join(o["names"]), o["dflt"][1] if o["dflt"][0] == "y" else D.source(o["dflt"])), ("v", w))
        elif op == "here":
            t = o["t"]
            s = t[:-1] if t.endswith("\n") else t
            s = s[1:] if s.startswith("\n") else s
            # What is written, as lines.
            add("(capture (here %s))" % D.quote(t), ("v", D.lst([D.s(x) for x in (s + "\n").split("\n")[:-1]])))
            ctx.nontrivial |= t.count("\n") > 1
        elif op == "eq":
            same = len({a[1] for a in o["l"]}) == 1
            add("(eq? %s)" % " ".join(map(D.source, o["l"])), ("v", T if same else None))
            add("(ne? %s)" % " ".join(map(D.source, o["l"])), ("v", None if same else T))
        elif op == "not":
            add("(not (eq? %s))" % " ".join(map(D.source, o["l"])), ("v", None if len({a[1] for a in o["l"]}) == 1 else T))
        elif op == "quote":
            add("(quote (%s))" % " ".join(a[1] for a in o["l"]), ("v", D.lst([D.y(a[1]) for a in o["l"]])))
        elif op == "random":
            add("(random %d)" % o["n"], ("range", o["n"]))
        elif op == "prompt":
            if o["bad"]:
                setup.append("define mp%d: method (s) {\n throw bad\n}\n" % k)
                w = D.s(o["t"])
            else:
                setup.append("define mp%d: method (s) {\n return (mend '' $s 'P')\n}\n" % k)
                w = D.s(o["t"] + "P")
            add("((method () {\n define old: replace-make-prompt $mp%d\n define p: prompt %s\n replace-make-prompt $old\n return $p\n}))" % (k, D.quote(o["t"])), ("v", w))
    setup.append("define outer global\n")
    cwd = ctx.dir()
    for f in FILES:
        open(os.path.join(cwd, f), "w").close()
    try:
        got, tail, src = K.run(ctx, "".join(setup), exprs, AFTER, cwd=cwd)
    except K.Odd as ex:
        return str(ex)
    for e, w, g in zip(exprs, want, got):
        if w[0] == "fn":
            r = D.unlist(g[1]) if g[0] == "v" and g[1] else []
            ok = len(r) == 3 and r[2] == D.y(w[2]) and all(lenient(D.unlist(x), w[1]) for x in r[:2])
        elif w[0] == "range":
            ok = g[0] == "v" and g[1][0] == "n" and 0 <= int(g[1][1]) < w[1]
        else:
            ok = g == w
        if not ok:
            return "%s gave %r, should be %r\n%s" % (e, g, w, src)
    if tail != KEPT:
        return "variables of the caller became %r\n%s" % ([(v, t) for v, t, k in zip(INNER, tail, KEPT) if t != k], src)


def lenient(got, want):
    """Paths may come as strings or symbols."""
    return got is not None and len(got) == len(want) and all(g == w or g is not None and w is not None and g[0] in "sy" and w[0] == "s" and g[1] == w[1] for g, w in zip(got, want))


# mill, read, ...: what is on standard input.
def line_st(): return st.lists(datum(), min_size=1, max_size=4)


@st.composite
def mill_st(draw):
    n = draw(st.integers(1, 3))
    return {"n": n, "rest": draw(st.booleans()), "lines": draw(st.lists(st.lists(datum(), min_size=n, max_size=n), max_size=8)), "extra": draw(st.lists(line_st(), max_size=3)),
            "first": draw(st.sampled_from(["", "read-list", "read", "read-line"]))}


def printed(items):
    """A line of literals that reads back as items."""
    out = []
    for d in items:
        out.append(lit(d))
    return " ".join(out)


def lit(d):
    if d is None:
        return "()"
    if d[0] == "s":
        return D.quote(d[1])
    if d[0] == "n":
        return "(|number %s|)" % d[1]
    if d[0] == "y":
        return d[1]
    return "(" + " ".join(lit(x) for x in D.unlist(d)) + ")"


def mill(ctx, case):
    n, lines = case["n"], list(case["lines"])
    if case["rest"]:
        lines += case["extra"]
        params = "(%s (rest))" % " ".join("p%d" % i for i in range(n - 1)) if n > 1 else "((rest))"
        body = "write m %s $rest" % " ".join("$p%d" % i for i in range(n - 1))
        lines = [l for l in lines if len(l) >= n - 1]
    else:
        params = "(%s)" % " ".join("p%d" % i for i in range(n))
        body = "write m %s" % " ".join("$p%d" % i for i in range(n))
    src = SENT + "define t 0\n"
    first = case["first"] if lines else ""
    if first:
        src += "write first (%s)\n" % first
    src += "mill %s {\n set t: add $t 1\n %s\n}\nwrite total (number $t)\nwrite sent %s\n" % (params, body, " ".join(AFTER))
    ctx.nontrivial = len(lines) > 1
    stdin = "".join(printed(l) + "\n" for l in lines)
    r = ctx.script(src, stdin=stdin.encode("latin-1"))
    if r.hang or r.err or r.rc:
        return "%r\n%s\n%s" % (r, stdin, src)
    want = []
    rest = lines
    if first:
        rest = lines[1:]
        # read gives the first element as well as any others? see below.
        want.append([D.y("first"), {"read-line": D.s(printed(lines[0])), "read-list": D.lst(lines[0]), "read": lines[0][0]}[first]])
    if first == "read" and len(lines[0]) > 1:
        return None
    for l in rest:
        want.append([D.y("m")] + (l[:n - 1] + [D.lst(l[n - 1:])] if case["rest"] else l))
    want.append([D.y("total"), D.n(len(rest))])
    want.append([D.y("sent")] + [k[0] for k in KEPT])
    try:
        got = D.lines(r.out)
    except D.Bad as ex:
        return "unreadable %r" % r.out
    if got != want:
        return "got %r, should be %r\n%s\n%s" % (got, want, stdin, src)


# ... : the nearest enclosing directory that holds a name.
def up_st():
    return st.fixed_dictionaries({"depth": st.integers(0, 5), "at": st.lists(st.integers(0, 5), max_size=3), "start": st.integers(0, 2),
                                  "name": st.sampled_from(["mark", "a b", "*x", "-i2", "d.e"]), "dir": st.booleans()})


def up(ctx, case):
    cwd = ctx.dir()
    dirs = [cwd]
    for i in range(case["depth"]):
        dirs.append(os.path.join(dirs[-1], "d%d" % i))
        os.mkdir(dirs[-1])
    name = case["name"]
    have = {i for i in case["at"] if i <= case["depth"]}
    for i in have:
        p = os.path.join(dirs[i], name)
        if case["dir"]:
            os.mkdir(p)
        else:
            open(p, "w").close()
    deep = dirs[-1]
    start = {0: ".", 1: deep, 2: os.path.relpath(deep, cwd)}[case["start"]]
    run_in = deep if case["start"] == 0 else cwd
    want = name
    for i in sorted(have, reverse=True):
        want = os.path.join(dirs[i], name)
        break
    ctx.nontrivial = bool(have) and case["depth"] > 1
    ctx.label("found" if have else "not found")
    src = SENT + "define d: ... %s %s\nwrite (string $d)\nwrite (string $PWD)\nvh pwd\nwrite sent %s\n" % (D.quote(start), D.quote(name), " ".join(AFTER))
    r = ctx.script(src, cwd=run_in, env={"PWD": run_in})
    w = ("%s\n%s\n%s\n" % (lit(D.s(want)), lit(D.s(run_in)), run_in.encode().hex())).encode("latin-1") + b"sent " + " ".join(k[0][1] for k in KEPT).encode() + b"\n"
    if r.hang or r.err or r.rc or r.out != w:
        return "want %r, got %r\n%s" % (w, r, src)


PARTS = [
    Part("procedures", case_st, check, 1500, 40000,
         "for (values, order, effects, nested, with an exception), list, seq, fn (arguments of every type, patterns and ~; defined at top level or where used), coalesce, "
         "here, eq?, ne?, random, prompt with its maker replaced; at the end the caller's variables, named like those inside the library. Non-trivial: a procedure "
         "is applied to more than nothing"),
    Part("mill", mill_st, mill, 500, 10000, "mill with fixed or variable parameters over lines of literals on standard input, perhaps after another read. Non-trivial: several lines"),
    Part("enclosing", up_st, up, 300, 4000, "... from a directory up to five deep with the name at random levels, started relative or absolute. Non-trivial: there are several levels and it is there"),
]
