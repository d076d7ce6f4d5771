"""C21: children see exactly the exported names and the shell's directory."""
import os
from hypothesis import strategies as st
import ohdata as D, ohdiff
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: generated programs exporting names in nested scopes and calls, the environment a program reports against a model of the scopes"
ASSUMPTIONS = ["a private name does not hide an exported one from a program run (an exported name is seen by children unless a nearer scope exports it again)",
               "values compared are those of the scope and frame chains of lib/ohmodel.py"]

NAMES = ["va", "vb", "vc"]


@st.composite
def chain(draw):
    """As C07's chains of methods, looking at the environment of a program."""
    def i(n): return draw(st.integers(0, n - 1))
    uid = [0]

    def val():
        uid[0] += 1
        c = i(8)
        if c == 0: return {"s": "s %d'\n$x \xff" % uid[0]}
        if c == 1: return {"s": ""}
        if c == 2: return {"n": "%d/7" % uid[0]}
        if c == 3: return ["list", "n%d" % uid[0], {"s": "a b"}, ["list", "x"]]
        if c == 4: return ["list"]
        return "n%d" % uid[0]

    def look(): return ["vh", "enval"] + NAMES + ["pa"]

    def acts(n):
        out = []
        for _ in range(i(n + 1)):
            c, v = i(12), NAMES[i(len(NAMES))]
            if c <= 3: out.append(["export", v, val()])
            elif c <= 4: out.append(["define", "pa", val()])
            elif c <= 7: out.append(look())
            elif c == 8: out.append(["write", "unset", ["unset", v]])
            elif c == 9: out.append(["if", look(), {"b": [["write", "ran"]]}])
            elif c == 10: out.append(["define", v, val()])
            else: out.append(["if", ["set?", v], {"b": [["set", v, val()]]}])
        return out

    n = 2 + i(3)
    prog = acts(3)
    for m in range(n - 1, -1, -1):
        def nest(d):
            b = acts(2)
            if d > 0:
                c = i(4)
                b.append(["block", {"b": nest(d - 1)}] if c > 1 else ["if", "true", {"b": nest(d - 1)}] if c else
                         ["catch", "ex", {"b": acts(1) + [look(), ["return", "caught"]]}])
                if not c:
                    b += nest(d - 1) + ([["nosuch1"]] if i(2) else [])
            if m + 1 < n and (d == 0 or i(4) == 0):
                # Also through a syntax, whose exported names are seen too.
                b.append(["sx%d" % (m + 1), ["m%d" % (m + 1)]] if i(3) == 1 else ["m%d" % (m + 1)])
            b += acts(2) + [look()]
            return b
        if m:
            ev = [["e", "eval", "$x"]]
            c = i(3)
            prog.append(["define", "sx%d:" % m, "syntax", ["x"], "e", {"b": acts(2) + (ev if c == 0 else [["block", {"b": acts(1) + ev}]] if c == 1 else [["if", "true", {"b": acts(1) + ev}]]) + acts(1)}])
        meth = ["method", [], {"b": nest(i(3))}]
        c = i(4)
        if c == 0: prog.append(["define", "m%d:" % m] + meth)
        elif c == 1: prog.append(["define", "m%d:" % m, "block", {"b": acts(2) + [meth]}])
        elif c == 2: prog.append(["define", "m%d:" % m, "block", {"b": [["export", "marker%d" % m, "1"]] + acts(2) + [meth]}])
        else: prog += [["define", "mk%d:" % m, "method", [], {"b": [["export", "marker%d" % m, "1"]] + acts(2) + [meth]}], ["define", "m%d:" % m, "mk%d" % m]]
    prog += acts(2)
    prog.append(["m0"])
    prog.append(look())
    return prog


# ------------------------------------------------------------------ whole environment

EXPORTS = ["va", "vb", "LANG", "In1", "a-b"]
PRIVATE = ["pa", "pb", "In2"]
TEXTLESS = ["xa", "xb"]
SHELL = ["stdin", "stdout", "stderr", "throw", "export"]
ODD = ["B.C", "a b", "if", "define", "write", "list", "for", "cd", "sys", "resolve", "In1", "In2", "In3", "va", "$x", "x:", "\xff\xfe", "'", "PS1", "path", "OH"] + SHELL
NOTEXT = ["(chan)", "(pipe)", "(object)", "$cd", "$if", "(method () {\n})", "(list a $cd)", "(list a (list (chan)))"]
SUBS = ["d1", "d 2", "d1/d3"]


def value_st():
    atom = st.one_of(D.text_st(8, nul=False).map(D.s), D.text_st(30, nul=False).map(D.s), D.rational_st().map(D.n), st.integers(0, 255).map(D.t),
                     st.text(alphabet="abc+-_01*?~", min_size=1, max_size=6).map(D.y), st.just(None))
    return st.one_of(atom, atom, st.lists(st.one_of(atom, st.lists(atom, min_size=1, max_size=2).map(D.lst)), min_size=1, max_size=3).map(D.lst))


HOW = ["plain", "plain", "cond", "capture", "left", "right", "middle", "spawn", "amp", "redirect", "backquote", "path", "string", "eval", "psub"]


@st.composite
def whole_st(draw):
    def i(n): return draw(st.integers(0, n - 1))

    def prefix():
        return [draw(st.sampled_from(EXPORTS + ["zz", "PWD"])), draw(st.one_of(
            st.text(alphabet="abc019_+", min_size=1, max_size=5).map(lambda t: ["word", t]), D.text_st(8, nul=False).map(lambda t: ["quoted", t]),
            value_st().map(lambda v: ["var", v])))]

    def run():
        p = [prefix() for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
        return ["run", p, draw(st.sampled_from(HOW))]

    def acts(d):
        out = []
        for _ in range(1 + i(4)):
            c = i(13)
            if c <= 2: out.append(["export", draw(st.sampled_from(EXPORTS)), draw(value_st())])
            elif c == 3: out.append(["define", draw(st.sampled_from(PRIVATE)), draw(value_st())])
            elif c == 4: out.append(["textless", draw(st.sampled_from(TEXTLESS)), draw(st.sampled_from(NOTEXT))])
            elif c == 5: out.append(["unset", draw(st.sampled_from(EXPORTS))])
            elif c == 6: out.append(["set", draw(st.sampled_from(EXPORTS)), draw(value_st())])
            elif c == 7: out.append(["cd", draw(st.sampled_from(SUBS))])
            elif c <= 9 and d: out.append([draw(st.sampled_from(["block", "method", "call", "if", "while"])), acts(d - 1)])
            else: out.append(run())
        return out
    names = draw(st.lists(st.sampled_from(ODD), max_size=5, unique=True))
    return {"env": [[n, draw(D.text_st(8, nul=False))] for n in names], "args": draw(st.lists(D.text_st(6, nul=False), max_size=3)), "acts": acts(2) + [run()]}


class Whole:
    def __init__(self, ctx, cwd, base):
        self.ctx, self.cwd = ctx, cwd
        self.defs, self.want, self.n = [], [], 0
        self.chain, self.calls = [base, {}], set()

    def fresh(self, stem):
        self.n += 1
        return "%s%d" % (stem, self.n)

    def find(self, name):
        """The scope set finds: lexically, so not in a caller, nor inherited."""
        i = len(self.chain) - 1
        while i > 0:
            if name in self.chain[i]:
                return self.chain[i]
            i = 1 if i in self.calls and i > 1 else i - 1
        return None

    def env(self):
        e = {}
        for s in self.chain:
            e.update(s)
        return e

    def run(self, prefixes, how):
        """A line that runs vh env (and vh pwd), and what it says."""
        env, head, out = self.env(), "", ""
        for name, (kind, v) in prefixes:
            if name == "PWD":
                d = os.path.join(self.cwd, "d1")
                src, val = "'%s'" % d, d
                self.ctx.label("prefix PWD")
            elif kind == "word":
                src, val = v, v
            elif kind == "quoted":
                src, val = D.quote(v), v
            else:
                n = self.fresh("w")
                self.defs.append("define %s %s\n" % (n, D.source(v)))
                src, val = "$" + n, D.rep(v)
            head += "%s=%s " % (name, src)
            env[name] = val
            self.ctx.label("prefix")
        self.ctx.label("how " + how)
        for sub in ("env", "pwd"):
            c = head + "vh " + sub
            if how == "path": c = head + self.ctx.paths["vh"] + " " + sub
            elif how == "string": c = head + "'vh' " + sub
            elif how == "cond": c = "if (%s) {\n write-line yes\n}" % c
            elif how == "capture": c = "for (capture (%s)) $write-line" % c
            elif how == "backquote": c = "for (list `(%s)) $write-line" % c
            elif how == "left": c += " | vh cat"
            elif how == "right": c = "vh puth 41 | " + c
            elif how == "middle": c = "vh puth 41 | %s | vh cat" % c
            elif how == "spawn": c = "wait (spawn {\n %s\n})" % c
            elif how == "amp": c = "block {\n %s &\n wait\n}" % c
            elif how == "redirect": c = "%s >| '%s'\n vh catf '%s'" % ((c,) + (os.path.join(self.cwd, "out.tmp"),) * 2)
            elif how == "eval" : c = "define e%s: method () e {\n return $e\n}\neval (quote (%s))" % (self.fresh("e"), c)
            elif how == "psub": c = "vh catf |< (%s)" % c
            out += c + "\n"
            self.want.append(dict(env) if sub == "env" else env["PWD"])
            if how == "cond": self.want.append("yes")
        return out

    def acts(self, acts):
        out = ""
        for a in acts:
            k = a[0]
            if k == "export":
                out += "export %s %s\n" % (a[1], D.source(a[2]))
                self.chain[-1][a[1]] = D.rep(a[2])
            elif k == "define":
                out += "define %s %s\n" % (a[1], D.source(a[2]))
            elif k == "textless":
                out += "export %s %s\n" % (a[1], a[2])
                self.ctx.label("value without text")
            elif k == "set":
                s = self.find(a[1])
                if s is not None:
                    out += "set %s %s\n" % (a[1], D.source(a[2]))
                    s[a[1]] = D.rep(a[2])
            elif k == "unset":
                # Only here, where which definition goes is beyond doubt.
                if a[1] in self.chain[-1]:
                    out += "unset %s\n" % a[1]
                    del self.chain[-1][a[1]]
            elif k == "cd":
                old = self.env()["PWD"]
                out += "cd '%s'\n" % os.path.join(self.cwd, a[1])
                self.chain[-1]["PWD"], self.chain[-1]["OLDPWD"] = os.path.join(self.cwd, a[1]), old
                self.ctx.label("cd")
            elif k == "run":
                out += self.run(a[1], a[2])
            else:
                if k == "call": self.calls.add(len(self.chain))
                self.chain.append({})
                body = self.acts(a[1])
                self.chain.pop()
                self.calls.discard(len(self.chain))
                self.ctx.label("in " + k)
                if not body.strip():
                    continue
                if k == "block": out += "block {\n%s}\n" % body
                elif k == "if": out += "if true {\n%s}\n" % body
                elif k == "while":
                    o = self.fresh("once")
                    out += "define %s true\nwhile $%s {\nset %s ()\n%s}\n" % (o, o, o, body)
                elif k == "method":
                    m = self.fresh("m")
                    out += "define %s: method () {\n%s}\n%s\n" % (m, body, m)
                else:
                    # Defined outside, so it finds these names through its caller only.
                    m = self.fresh("g")
                    self.defs.append("define %s: method () {\n%s}\n" % (m, body))
                    out += m + "\n"
        return out


def whole(ctx, case):
    cwd = os.path.realpath(ctx.dir())
    for d in SUBS:
        os.makedirs(os.path.join(cwd, d), exist_ok=True)
    given = dict(case["env"])
    extra = {k: v.encode("latin-1").decode("utf-8", "surrogateescape") for k, v in given.items()}
    extra = {k.encode("latin-1").decode("utf-8", "surrogateescape"): v for k, v in extra.items()}
    home = os.path.join(ctx.root, "home")
    base = dict(ctx.env(home))
    base.update({k: v for k, v in given.items() if k not in SHELL})
    base.update({"PWD": cwd, "OLDPWD": cwd, "ORIGIN": home, "0": os.path.join(home, "s.oh"), "@": D.rep(D.lst([D.s(a) for a in case["args"]]))})
    for i, a in enumerate(case["args"]):
        base[str(i + 1)] = a
    w = Whole(ctx, cwd, base)
    body = w.acts(case["acts"])
    src = "".join(w.defs) + body
    r = ctx.script(src, cwd=cwd, env=extra, args=[a.encode("latin-1") for a in case["args"]])
    if r.hang or r.err or r.rc:
        return "%r\n%s" % (r, src)
    lines = r.out.decode("latin-1").split("\n")
    at = 0
    for x in w.want:
        if x == "yes":
            got, at = lines[at], at + 1
            if got != "yes":
                return "condition false after a program that succeeded: %r\n%s" % (got, src)
        elif isinstance(x, str):
            got, at = bytes.fromhex(lines[at]).decode("latin-1"), at + 1
            if got != x:
                return "ran in %r, not in %r\n%s" % (got, x, src)
        else:
            if "end" not in lines[at:]:
                return "no environment reported: %r\n%s" % (r, src)
            end = lines.index("end", at)
            ents = [bytes.fromhex(l).decode("latin-1") for l in lines[at:end]]
            at = end + 1
            got = {}
            for e in ents:
                # The names used hold no =.
                n, _, v = e.partition("=")
                if n in got:
                    return "%r is there twice\n%s" % (n, src)
                got[n] = v
            if got != x:
                diff = {n: (got.get(n), x.get(n)) for n in set(got) | set(x) if got.get(n) != x.get(n)}
                return "environment differs, (is, should be): %r\n%s" % (diff, src)
    if lines[at:] != [""]:
        return "more output than expected: %r\n%s" % (lines[at:], src)
    ctx.nontrivial = len(w.want) >= 2 and w.env() != base or len(case["acts"]) > 1


PARTS = [
    Part("scopes", chain, ohdiff.differential([], ["call", "external"]), 1500, 40000,
         "chains of methods made in scopes of their own, calling each other from nested blocks that define, export, set and unset a few names, with handlers; the values a program sees at each "
         "point must be the reference interpreter's. Non-trivial: two lines, a call and a program run"),
    Part("whole", whole_st, whole, 1500, 40000,
         "an inherited environment with odd names and values, exports, sets, unsets and cd in nested blocks, loops and methods, values of every type with and without text; programs run plainly, in pipelines, "
         "captures, tasks and substitutions, with and without prefix assignments, report their whole environment and directory, which must be the model's exactly. Non-trivial: two reports"),
]
