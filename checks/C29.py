"""C29: source and import load code with the right scope, once, and report errors."""
import copy, os
from collections import Counter
from hypothesis import strategies as st
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "stateful and schedule-driven property-based testing: generated files that source and import each other, loaded by generated programs and by several tasks at once, against a model of scopes and modules"
ASSUMPTIONS = ["files do not import each other in a cycle", "a file that is sourced where return is not defined does not use it"]

NF = 4
KINDS = ["say", "say", "count", "count", "boom", "lazy", "lazysay", "import", "import", "source", "peek", "ext", "value", "private", "module", "module", "spawn", "caught", "nested"]
STOPS = ["throw", "missing", "return", "exit", "syntax", "incomplete", "nofile", "op"]


@st.composite
def file_st(draw, i, stops=True):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(KINDS))
        x = {"k": k}
        if k in ("lazy", "import", "source", "nested"):
            if i == NF - 1: continue
            x["j"] = draw(st.integers(i + 1, NF - 1))
        if k == "module": x["n"] = draw(st.integers(0, 3))
        out.append(x)
    if stops and draw(st.integers(0, 4)) == 3:
        out.insert(draw(st.integers(0, len(out))), {"k": draw(st.sampled_from(STOPS))})
    return out


@st.composite
def op_st(draw):
    k = draw(st.sampled_from(["import", "import", "import", "import", "source", "source", "top", "call", "call", "call", "call", "same", "none", "secret", "task"]))
    x = {"k": k}
    if k in ("import", "source", "top", "task"): x["f"] = draw(st.integers(0, NF - 1)); x["how"] = draw(st.sampled_from(["", "", "./", "abs"]))
    if k == "source" or k == "top": x["then"] = draw(st.lists(st.sampled_from(FUNCS), max_size=2))
    if k == "call": x["m"] = draw(st.integers(0, 5)); x["fn"] = draw(st.sampled_from(FUNCS + ["n", "nosuch", "hidden"]))
    if k == "same": x["m"], x["o"] = draw(st.integers(0, 5)), draw(st.integers(0, 5))
    return x


FUNCS = ["count", "count", "count", "boom", "lazy", "lazysay"]


@st.composite
def case_st(draw):
    files = {}
    for i in range(NF):
        for d in draw(st.sampled_from([[""], [""], [""], ["lib1"], ["lib2"], ["", "lib1"], ["lib1", "lib2"], []])):
            files["%s:%d" % (d, i)] = draw(file_st(i))
    return {"files": files, "path": draw(st.lists(st.sampled_from(["lib1", "lib2", "nolib", "./lib2"]), max_size=3, unique=True)), "abspath": draw(st.booleans()),
            "ops": draw(st.lists(op_st(), min_size=2, max_size=9))}


class Stop(Exception): pass
class Thrown(Stop):
    def __init__(self, msg): self.msg = msg  # None: any.
class Exit(Stop): pass
class Return(Stop): pass
class Already(Stop):
    def __init__(self, m): self.m = m


class Scope:
    """Where code of a file is evaluated."""
    def __init__(self, secret, load, parent=None): self.parent, self.funs, self.n, self.secret, self.load, self.hidden = parent, {}, None, secret, load, False


def source_of(i, stmts, d):
    L = []
    tag = "%s%d" % (d, i)
    for s, x in enumerate(stmts):
        k = x["k"]
        j = "f%d.oh" % x["j"] if "j" in x else ""
        L.append({
            "say": "write-line say-%s-%d" % (tag, s), "ext": "vh puth %s" % ("ext-%s\n" % tag).encode().hex(),
            "count": "define n 0\nexport count: method () {\n set n (add $n 1)\n return $n\n}",
            "boom": "export boom: method () {\n throw boom-%s\n}" % tag,
            "lazy": "export lazy: method () {\n define x (import %s)\n x count\n}" % j,
            "lazysay": "export lazysay: method () {\n vh puth %s\n return said\n}" % ("lazysay-%s\n" % tag).encode().hex(),
            "import": "define im%d (import %s)" % (s, j), "source": "source %s" % j, "peek": "write-line (resolves? local)",
            "nested": "define ne%d (import %s)\nwrite-line (ne%d count)" % (s, j, s),
            "value": "number %d" % (100 * i + s), "private": "define hidden: method () {\n return 1\n}", "module": "module M%s" % x.get("n"),
            "spawn": "wait (spawn {\n write-line task-%s\n})" % tag, "throw": "throw thrown-%s" % tag, "missing": "nosuch-command", "return": "return 5", "exit": "exit %d" % (10 + i),
            "caught": "(method () {\n catch ex {\n  write-line inside $ex\n  return ()\n }\n throw c-%s\n})" % tag,
            "syntax": "write-line )", "incomplete": "write-line (", "nofile": "open r- nowhere", "op": "add 1 x"}[k])
    return "\n".join(L) + "\n"


class Model:
    def __init__(self, files, path):
        self.files, self.path, self.modules, self.out, self.loads = files, path, {}, [], 0

    def find(self, i):
        for d in [""] + self.path:
            d = d.replace("./", "")
            if "%s:%d" % (d, i) in self.files: return d
        raise Thrown(None)

    def run(self, i, scope):
        d = self.find(i)
        stmts = self.files["%s:%d" % (d, i)]
        tag = "%s%d" % (d, i)
        # All of it is read first.
        if any(x["k"] in ("syntax", "incomplete") for x in stmts): raise Thrown(None)
        val = None
        for s, x in enumerate(stmts):
            k = x["k"]
            val = None
            if k == "say": self.out.append("say-%s-%d" % (tag, s))
            elif k == "ext": self.out.append("ext-%s" % tag)
            elif k == "count": scope.n = 0; scope.funs["count"] = None
            elif k == "boom": scope.funs["boom"] = tag
            elif k == "lazy": scope.funs["lazy"] = x["j"]
            elif k == "lazysay": scope.funs["lazysay"] = tag
            elif k == "import": self.load(x["j"])
            elif k == "nested": self.out.append(str(self.call(self.load(x["j"]), "count", False)))
            elif k == "source": val = self.run(x["j"], scope)
            elif k == "peek": self.out.append("true" if scope.secret else "()")
            elif k == "value": val = 100 * i + s
            elif k == "private": scope.hidden = True
            elif k == "module":
                if scope.load is not None:
                    if x["n"] in self.modules: raise Already(self.modules[x["n"]])
                    scope.load["name"] = x["n"]
            elif k == "spawn": self.out.append("task-%s" % tag)
            elif k == "throw": raise Thrown("thrown-" + tag)
            elif k == "return": raise Return()
            elif k == "exit": raise Exit(10 + i)
            elif k == "caught": self.out.append("inside c-" + tag)
            else: raise Thrown(None)
        return val

    def load(self, i):
        self.loads += 1
        me = {"name": None}
        sc = Scope(False, me)
        try: self.run(i, sc)
        except Return: pass
        except Already as a: return a.m
        # Called later, module does nothing.
        sc.load = None
        if me["name"] is not None: self.modules[me["name"]] = sc
        return sc

    def call(self, sc, fn, inside):
        """inside: by name from the scope itself."""
        if fn == "hidden" and inside and sc.hidden: return 1
        if fn not in sc.funs:
            if inside and sc.parent: return self.call(sc.parent, fn, True)
            raise Thrown(None)
        if fn == "count":
            sc.n += 1
            return sc.n
        if fn == "boom": raise Thrown("boom-" + sc.funs["boom"])
        if fn == "lazy": return self.call(self.load(sc.funs["lazy"]), "count", False)
        self.out.append("lazysay-" + sc.funs["lazysay"])
        return "said"


def cost(m): return m.loads + len(m.out)


def write_files(cwd, files):
    for d in ("lib1", "lib2"): os.mkdir(os.path.join(cwd, d))
    for k, stmts in files.items():
        d, i = k.split(":")
        with open(os.path.join(cwd, d, "f%s.oh" % i), "w") as f: f.write(source_of(int(i), stmts, d))


def guarded(body):
    return "(method () {\n catch ex {\n  write-line caught \"${ex}\"\n  return ()\n }\n %s\n})" % body


def check(ctx, case):
    cwd = ctx.dir()
    write_files(cwd, case["files"])
    m = Model(case["files"], case["path"])
    lines = []
    want = []
    top, mods = Scope(False, None), []
    rc, errors = 0, 0
    try:
        for n, x in enumerate(case["ops"]):
            k = x["k"]
            pos = len(m.out)
            if "f" in x: name = (cwd + "/" if x["how"] == "abs" else x["how"]) + "f%d.oh" % x["f"]
            if "f" in x and x["how"] == "abs" and ":%d" % x["f"] not in case["files"]: continue
            try:
                if k in ("import", "task"):
                    body = "import " + name
                    if k == "task": body = "wait (spawn {\n %s\n })" % guarded(body)
                    lines.append("define m%d %s" % (n, "(wait (spawn {\n %s\n }))" % guarded("import " + name) if k == "task" else "(%s)" % guarded(body)))
                    lines.append("write-line done")
                    try:
                        mods.append((n, m.load(x["f"])))
                    except Exit:
                        if k == "task":
                            # Ends the task alone.
                            m.out.append("done")
                            continue
                        raise
                    m.out.append("done")
                elif k == "none":
                    lines.append(guarded("import nofile.oh") + "\n" + guarded("source nofile.oh"))
                    m.out.append(["caught"])
                    raise Thrown(None)
                elif k == "source":
                    sc = Scope(True, None, top)
                    def text(val): return guarded(
                        "define local 1\n " + ("source %s" % name if val is None else "write-line val (source %s)" % name) + "".join("\n write-line (%s)" % f for f in x["then"]))
                    at = len(lines)
                    lines.append(text(None))
                    try: v = m.run(x["f"], sc)
                    except Return: continue
                    lines[at] = text(v)
                    if v is not None: m.out.append("val %d" % v)
                    for f in x["then"]: m.out.append(str(m.call(sc, f, True)))
                elif k == "top":
                    # Only without errors here.
                    t = copy.deepcopy(m)
                    try: t.run(x["f"], Scope(False, None))
                    except Stop: continue
                    lines.append("source " + name)
                    m.run(x["f"], top)
                    for f in x["then"]:
                        lines.append(guarded("write-line (%s)" % f))
                        try: m.out.append(str(m.call(top, f, True)))
                        except Thrown as e: m.out.append(["caught"] if e.msg is None else "caught " + e.msg); errors += 1
                elif k == "secret":
                    lines.append("write-line (resolves? n) (resolves? hidden)")
                    m.out.append("%s %s" % ("true" if top.n is not None else "()", "true" if top.hidden else "()"))
                elif k == "same":
                    if len(mods) < 2: continue
                    a, b = mods[x["m"] % len(mods)], mods[x["o"] % len(mods)]
                    lines.append("write-line (equal? $m%d $m%d)" % (a[0], b[0]))
                    m.out.append("true" if a[1] is b[1] else "()")
                else:
                    if not mods: continue
                    a = mods[x["m"] % len(mods)]
                    lines.append(guarded("write-line (m%d %s)" % (a[0], x["fn"])))
                    m.out.append(str(m.call(a[1], x["fn"], False)))
                    ctx.label("called " + x["fn"])
            except Thrown as e:
                errors += 1
                m.out.append(["caught"] if e.msg is None else "caught " + e.msg)
                if k in ("import", "task"): m.out.append("done")
    except Exit as e: rc = e.args[0]
    if cost(m) > 300: return None
    # A second chance for everything after the errors.
    body = "\n".join(lines) + "\n"
    env = {}
    if case["path"]: env["OHPATH"] = ":".join(cwd + "/" + p if case["abspath"] else p for p in case["path"])
    r = ctx.script(body, cwd=cwd, env=env)
    # A message may quote the newline that was not expected.
    got = r.out.decode("latin-1").replace("got \"\n\"", "got newline").split("\n")[:-1]
    ok = len(got) == len(m.out) and all(g == w if isinstance(w, str) else g.startswith(w[0]) for g, w in zip(got, m.out))
    if r.hang or r.rc != rc or r.err or not ok:
        return "want %r rc %d, got %r\n%r\n%s\n%s" % (m.out, rc, got, r, body, "".join("--- %s\n%s" % (k, source_of(int(k.split(":")[1]), v, k.split(":")[0])) for k, v in case["files"].items()))
    ctx.label("exit" if rc else "errors" if errors else "no errors")
    ctx.nontrivial = m.loads > 0


@st.composite
def tasks_st(draw):
    files = []
    for i in range(NF):
        f = draw(file_st(i, stops=False))
        f = [x for x in f if x["k"] in ("say", "import", "import", "count", "ext", "spawn", "caught")]
        if draw(st.integers(0, 2)): f.insert(draw(st.integers(0, min(1, len(f)))), {"k": "module", "n": i})
        if draw(st.integers(0, 5)) == 3: f.append({"k": "throw"})
        files.append(f or [{"k": "say"}])
    return {"files": files, "tasks": draw(st.lists(st.lists(st.integers(0, NF - 1), min_size=1, max_size=3), min_size=2, max_size=5)), "delay": draw(st.sampled_from([0, 0, 3]))}


def check_tasks(ctx, case):
    cwd = ctx.dir()
    files = {":%d" % i: f for i, f in enumerate(case["files"])}
    write_files(cwd, files)
    src, equal = "", []
    m = Model(files, [])
    named = {}
    for i, f in enumerate(case["files"]): named[i] = any(x["k"] == "module" for x in f)
    objs = {}
    for t, fs in enumerate(case["tasks"]):
        src += "define t%d: spawn {\n" % t
        if case["delay"] and t % 2: src += " vh sleep %d\n" % case["delay"]
        for n, i in enumerate(fs): src += " define r%d (%s)\n" % (n, guarded("import f%d.oh" % i))
        src += " list%s\n}\n" % "".join(" $r%d" % n for n in range(len(fs)))
    want = Counter()
    for t, fs in enumerate(case["tasks"]):
        src += "define v%d (wait $t%d)\n" % (t, t)
        for n, i in enumerate(fs):
            try: objs[t, n] = (i, m.load(i))
            except Thrown as e: m.out.append("caught " + e.msg)
    for (t, n), (i, a) in objs.items():
        for (u, o), (j, b) in objs.items():
            if (t, n) < (u, o) and i == j:
                src += "write-line same-%d-%d-%d-%d (equal? (v%d get %d) (v%d get %d))\n" % (t, n, u, o, t, n, u, o)
                m.out.append("same-%d-%d-%d-%d %s" % (t, n, u, o, "true" if a is b else "()"))
    src += "write-line end\n"
    m.out.append("end")
    if cost(m) > 300: return None
    r = ctx.script(src, cwd=cwd)
    got = r.out.decode("latin-1").split("\n")[:-1]
    if r.hang or r.rc or r.err or Counter(got) != Counter(m.out) or got[-1] != "end":
        return "want %r, got %r\n%r\n%s\n%s" % (sorted(m.out), got, r, src, "".join("--- %s\n%s" % (k, source_of(int(k[1:]), v, "")) for k, v in files.items()))
    ctx.label("nested" if m.loads > sum(len(f) for f in case["tasks"]) else "flat")
    ctx.nontrivial = any(named.values()) and len(case["tasks"]) > 1


PARTS = [
    Part("programs", case_st, check, 2000, 40000,
         "up to four files, in up to three directories found along OHPATH, of up to six statements that print, define, export, name the module, source and import others, peek at the importer's names, throw, return, exit or are malformed; "
         "programs of up to nine loads by import, source in a method or at the top, from a task, and calls of what was exported, hidden or never there. Non-trivial: something was imported"),
    Part("tasks", tasks_st, check_tasks, 700, 15000,
         "two to five tasks each importing up to three files, named and not, some failing, which import each other. Non-trivial: several tasks and a named module"),
]
