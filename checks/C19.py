"""C19: background tasks run to completion once and wait waits for them."""
from hypothesis import strategies as st
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: random trees of tasks whose output is checked, as a history, against what running once, in order, and waiting allow"
ASSUMPTIONS = ["schedules are those the Go scheduler produces on several threads with random delays in tasks", "a task waits only for tasks it can name (waiting for oneself never ends)"]


@st.composite
def body_st(draw, depth, budget):
    """Steps of one task."""
    steps = []
    for _ in range(draw(st.integers(1, 5 if depth else 7))):
        op = draw(st.sampled_from(["mark", "sleep", "spawn", "wait", "count", "ext", "spawn", "waitall", "busy", "caught", "env", "throw", "wait", "capture", "method", "pair", "foster"]))
        if op == "pair":
            # One task ends before another: wait for the first, then for all.
            if depth >= 3 or budget[0] <= 1:
                op = "mark"
            else:
                budget[0] -= 2
                quick, slow = draw(body_st(3, budget)), draw(body_st(3, budget))
                quick["slow"], slow["slow"] = 0, 25
                steps += [["spawn", "spawn", 0, quick], ["spawn", draw(st.sampled_from(["spawn", "amp"])), 0, slow], ["wait", [-2]], ["waitall"]]
                continue
        if op == "foster":
            # A task started by another task that has ended since.
            if depth >= 3 or budget[0] <= 0:
                op = "mark"
            else:
                budget[0] -= 1
                steps.append(["foster", draw(body_st(3, budget))])
                continue
        if op == "throw" and (depth == 0 or draw(st.integers(0, 2))):
            op = "spawn"
        if op == "spawn":
            if depth >= 3 or budget[0] <= 0:
                op = "mark"
            else:
                budget[0] -= 1
                steps.append(["spawn", draw(st.sampled_from(["spawn", "spawn", "amp", "method", "loop"])), draw(st.sampled_from([0, 0, 1])), draw(body_st(depth + 1, budget))])
                continue
        arg = {"sleep": st.integers(1, 12), "busy": st.integers(5, 60), "ext": st.integers(0, 255), "wait": st.lists(st.integers(0, 5), min_size=1, max_size=3)}.get(op)
        steps.append([op] + ([draw(arg)] if arg is not None else []))
    return {"steps": steps, "last": draw(st.sampled_from(["list", "sym", "ext", "none", "num"])), "slow": draw(st.sampled_from([0, 0, 3, 15]))}


@st.composite
def tree_st(draw):
    return draw(body_st(0, [8]))


class Gen:
    def __init__(self):
        self.tasks = {}     # id -> {"parent", "expect": lines in order, "value", "ends": line}
        self.waits = []     # (line, ids waited for)
        self.counts = 0
        self.n = 0
        self.errors = []
        self.pre = []

    def body(self, node, me, parent):
        """Source of the task's commands and what it has to print."""
        t = self.tasks[me] = {"lines": [], "value": None}
        out = []
        lines = t["lines"]

        def say(*words):
            lines.append(" ".join(words))
            return "write-line %s" % " ".join(words)
        out.append(say("start", me))
        if parent:
            lines.append("up %s %s" % (me, parent))
            out.append("write-line up %s $own" % me)
        out.append("define own %s" % me)
        kids = []
        done = False
        for k, s in enumerate(node["steps"]):
            op = s[0]
            if op == "mark":
                out.append(say("mark", me, str(k)))
            elif op == "sleep":
                out.append("vh sleep %d" % s[1])
            elif op == "busy":
                out.append("seq %d" % s[1])
            elif op == "count":
                self.counts += 1
                out += ["lock write x", "set count: add $count 1", "lock read"]
            elif op == "ext":
                lines.append("ext %s %d %d" % (me, k, s[1]))
                out.append("define e: vh exit %d\nwrite-line ext %s %d $e" % (s[1], me, k))
            elif op == "capture":
                lines.append("cap %s %d %s" % (me, k, me))
                out.append("write-line cap %s %d (splice (capture (write-line $own)))" % (me, k))
            elif op == "method":
                # Uses what is defined outside, its own name, and returns.
                lines.append("met %s %d %s" % (me, k, me))
                out.append("write-line met %s %d ((method (own) {\n define x $own\n return $x\n}) $own)" % (me, k))
            elif op == "env":
                lines.append("env %s %d X=%s" % (me, k, me.encode().hex()))
                out.append("export X %s\nwrite-line env %s %d (splice (capture (vh envof X)))" % (me, me, k))
            elif op == "caught":
                lines.append("caught %s %d pop" % (me, k))
                out.append("(method () {\n catch ex {\n  write-line caught %s %d $ex\n  return ()\n }\n throw pop\n})" % (me, k))
            elif op == "throw":
                line = say("gone", me)
                self.errors.append((me, parent))
                t["value"] = "any"
                out.append(line + "\nfin write x\nthrow 'boom %s'" % me)
                done = True
                break
            elif op == "spawn":
                self.n += 1
                kid = "t%d" % self.n
                kids.append(kid)
                hand = s[2] and "h%d" % self.n
                b = self.body(s[3], kid, me)
                if hand:
                    self.pre.append("define %s: chan\n" % hand)
                    b = "%s read\n" % hand + b
                if s[1] == "amp":
                    out.append("define %s: block {\n block {\n%s\n } &\n}" % (kid, b))
                elif s[1] == "method":
                    out.append("define %s: (method () {\n define passing 1\n spawn {\n%s\n }\n})" % (kid, b))
                elif s[1] == "loop":
                    out.append("define again true\ndefine %s ()\nwhile $again {\n set again ()\n set %s: spawn {\n%s\n }\n}" % (kid, kid, b))
                else:
                    out.append("define %s: spawn {\n%s\n}" % (kid, b))
                if hand:
                    # Only works while both are running.
                    out.append("%s write x" % hand)
            elif op == "foster":
                self.n += 1
                kid = "t%d" % self.n
                b = self.body(s[1], kid, me)
                self.pre.append("define g%s ()\n" % kid)
                out.append("wait (spawn {\n set g%s: spawn {\n%s\n }\n})" % (kid, b))
                v = self.tasks[kid]["value"]
                line = "fos %s %d %s" % (me, k, "any" if v == "any" else D.literal(v))
                out.append("wait $g%s\nwrite-line %s" % (kid, line) if v == "any" else "write fos %s %d (wait $g%s)" % (me, k, kid))
                lines.append(line)
                self.waits.append((line, [kid]))
                # Its parent is a task without a name.
                self.errors[:] = [(t, "other" if t == kid else q) for t, q in self.errors]
            elif op in ("wait", "waitall"):
                if op == "wait" and not kids:
                    continue
                on = [kids[i % len(kids)] for i in s[1]] if op == "wait" else []
                v = self.tasks[on[-1]]["value"] if on else None
                names = " ".join("$" + x for x in on)
                if v == "any":      # one that ended with an error
                    line = "%s %s %d any" % (op, me, k)
                    out.append("wait %s\nwrite-line %s" % (names, line))
                else:
                    line = "%s %s %d %s" % (op, me, k, D.literal(v))
                    out.append("write %s %s %d (wait %s)" % (op, me, k, names))
                lines.append(line)
                self.waits.append((line, on or list(kids)))
        if done:
            return "\n".join(out)
        if node["slow"]:
            out.append("vh sleep %d" % node["slow"])
        out.append("write-line own %s $own" % me)
        lines.append("own %s %s" % (me, me))
        out.append(say("gone", me))
        out.append("fin write x")
        last = node["last"]
        out.append({"list": "list r %s 'x y'" % me, "sym": "block {\n define v r%s\n resolve v\n}" % me, "ext": "vh exit 9", "none": "if false {\n list no\n}", "num": "add 2 5"}[last])
        t["value"] = {"list": D.lst([["y", "r"], ["y", me], ["s", "x y"]]), "sym": ["y", "r" + me], "ext": ["t", "9"], "none": None, "num": ["n", "7"]}[last]
        if last == "none":
            out[-1] = "list"
        return "\n".join(out)


def tree(ctx, case):
    g = Gen()
    body = g.body(case, "main", None)
    n = g.n
    src = "define lock: chan 1\ndefine count 0\ndefine fin: chan 100\nexport X main0\n" + "".join(g.pre) + body + "\n" + "fin read\n" * (n + 1) + "wait\nwrite-line total $count $own $X\n"
    r = ctx.script(src)
    if r.hang or r.rc:
        return "want a clean run, got %r\n%s" % (r, src)
    out = r.out.decode("latin-1").splitlines()
    env = any(s[0] == "env" for s in case["steps"])
    want = sorted([l for t in g.tasks.values() for l in t["lines"]] + ["total %d main %s" % (g.counts, "main" if env else "main0")])
    if sorted(out) != want:
        return "want, in some order, %r, got %r\n%s" % ([x for x in want if x not in out] or want, [x for x in out if x not in want] or out, src)
    at = {l: i for i, l in enumerate(out)}
    for t in g.tasks.values():
        places = [at[l] for l in t["lines"]]
        if places != sorted(places):
            return "steps of one task out of order: %r\n%s" % ([out[i] for i in sorted(places)], src)
    for line, on in g.waits:
        for k in on:
            if at["gone " + k] > at[line]:
                return "%r came before %s was done: %r\n%s" % (line, k, out, src)
    err = r.err.decode("latin-1").splitlines()
    boom = [l for l in err if l.startswith("error:")]
    may = ["error: boom " + t for t, _ in g.errors]
    # The end of the script waits for its own children only.
    must = ["error: boom " + t for t, p in g.errors if p == "main"]
    if len(set(boom)) != len(boom) or not set(must) <= set(boom) <= set(may):
        return "want errors from %r, got %r\n%s" % (g.errors, r.err, src)
    if not g.errors and r.err:
        return "unexpected %r\n%s" % (r.err, src)
    ctx.nontrivial = n > 1 and len(g.waits) > 0
    ctx.label("%d tasks" % n, *(["with errors"] if g.errors else []), *(["waits"] if g.waits else []))


# ------------------------------------------------------------------ many

@st.composite
def many_st(draw):
    return {"tasks": draw(st.lists(st.tuples(st.sampled_from(["ext", "ext", "sleep", "value", "throw", "pipe"]), st.integers(0, 255)).map(list), min_size=2, max_size=30)),
            "order": draw(st.randoms(use_true_random=False)).getrandbits(30), "all": draw(st.booleans())}


def many(ctx, case):
    """Tasks with a program each, waited for in any order."""
    import random
    src = []
    vals = []
    for i, (k, v) in enumerate(case["tasks"]):
        b = {"ext": "vh exit %d" % v, "sleep": "vh sleep %d\nvh exit %d" % (v % 16, v), "value": "list %d" % v, "throw": "vh exit %d\nthrow 'boom %d'" % (v, i),
             "pipe": "vh cat < /dev/null | vh exit %d" % v}[k]
        src.append("define t%d: spawn {\n%s\n}\n" % (i, b))
        vals.append({"value": D.lst([["y", str(v)]]), "throw": "any"}.get(k, ["t", str(v)]))
    if case["all"]:
        src.append("write (wait)\n")
    order = list(range(len(vals)))
    random.Random(case["order"]).shuffle(order)
    for i in order:
        src.append("write %d (wait $t%d)\n" % (i, i))
    src.append("write (wait %s)\n" % " ".join("$t%d" % i for i in order))
    src = "".join(src)
    r = ctx.script(src)
    want = ["()"] if case["all"] else []

    def lit(v):
        return v if v == "any" else D.literal(v)
    want += ["%d %s" % (i, lit(vals[i])) for i in order] + [lit(vals[order[-1]])]
    errs = sorted("error: boom %d" % i for i, t in enumerate(case["tasks"]) if t[0] == "throw")
    out = r.out.decode("latin-1").splitlines()
    bad = len(out) != len(want) or any(a != w and not w.endswith("any") for a, w in zip(out, want))
    if r.hang or r.rc or bad or sorted(l for l in r.err.decode("latin-1").splitlines() if l.startswith("error")) != errs:
        return "want %r, got %r\n%s" % (want, r, src)
    ctx.nontrivial = len(vals) > 3
    ctx.label("many")


PARTS = [
    Part("tree", tree_st, tree, 1500, 30000,
         "trees of up to nine tasks started by spawn, &, in methods and loops, some in step with their parent through a channel; steps print, wait (for some or all), count under a lock, run programs, capture, export, catch, "
         "throw. Non-trivial: two tasks and a wait"),
    Part("many", many_st, many, 400, 8000, "up to thirty tasks running programs, pipelines, failing, returning values, waited for in random order, several times. Non-trivial: more than three tasks"),
]
