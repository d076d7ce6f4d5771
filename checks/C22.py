"""C22: exit statuses are reported faithfully."""
import os
from hypothesis import strategies as st
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: generated programs run commands that end in every way, singly and many at once; statuses seen by conditions, variables, waits and the shell's own exit against how they ended"
ASSUMPTIONS = ["schedules are those the kernel and the Go scheduler produce with random delays", "statuses given to exit are 0 to 255"]

SIGS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 27, 29, 30, 31, 34, 40, 64]
CORES = [3, 4, 5, 6, 7, 8, 11, 24, 25, 31]


def end_st():
    """How a program ends."""
    code = st.one_of(st.just(0), st.integers(0, 255), st.sampled_from([1, 2, 126, 127, 128, 129, 130, 137, 254, 255]))
    return st.one_of(code.map(lambda c: ["exit", c]), code.map(lambda c: ["exit", c]), st.sampled_from(SIGS).map(lambda c: ["sig", c]), st.sampled_from(CORES).map(lambda c: ["core", c]),
                     st.tuples(st.just("stop"), st.integers(1, 20), st.one_of(st.just(-1), code)).map(list))


def command(e):
    """The command, and its status."""
    if e[0] == "exit": return "vh exit %d" % e[1], e[1]
    if e[0] == "stop": return "vh stop %d %d" % (e[1], e[2]), 137 if e[2] < 0 else e[2]
    return "vh %s %d" % (e[0], e[1]), 128 + e[1]


USES = ["value", "var", "if", "else-if", "and", "or", "not", "while", "pipe", "pipe3", "method", "return", "block", "spawn", "amp", "redirect", "capture", "catx", "number", "eval", "andor", "bool", "catch", "wait-map"]


@st.composite
def status_st(draw):
    return [[draw(st.sampled_from(USES)), draw(end_st()), draw(end_st())] for _ in range(draw(st.integers(1, 8)))]


def statuses(ctx, case):
    src, want = "", []
    for i, (use, e, o) in enumerate(case):
        c, s = command(e)
        oc, os_ = command(o)
        ctx.label("use " + use, "ends " + e[0])
        yes = "yes" if s == 0 else "no"
        if use == "value": src += "write-line v (%s)\n" % c; want.append("v %d" % s)
        elif use == "var": src += "define x%d: %s\nwrite-line v $x%d\n" % (i, c, i); want.append("v %d" % s)
        elif use == "if": src += "if (%s) {\n write-line yes\n} else {\n write-line no\n}\n" % c; want.append(yes)
        elif use == "else-if":
            src += "if (%s) {\n write-line a\n} else if (%s) {\n write-line b\n} else {\n write-line c\n}\n" % (c, oc)
            want.append("a" if s == 0 else "b" if os_ == 0 else "c")
        elif use in ("and", "or", "andor"):
            op = {"and": "&&", "or": "||", "andor": "&&"}[use]
            r = (s if s else os_) if op == "&&" else (s if s == 0 else os_)
            if use == "andor":
                src += "write-line v (%s && %s || vh exit 9)\n" % (c, oc)
                r = r if r == 0 else 9
            else:
                src += "write-line v (%s %s %s)\n" % (c, op, oc)
            want.append("v %d" % r)
        elif use == "not": src += "if (not (%s)) {\n write-line no\n} else {\n write-line yes\n}\n" % c; want.append(yes)
        elif use == "bool": src += "if (bool (%s)) {\n write-line yes\n} else {\n write-line no\n}\n" % c; want.append(yes)
        elif use == "while":
            src += "define n%d 0\nwhile (if (lt? $n%d 1) {\n %s\n} else {\n vh exit 1\n}) {\n set n%d: add $n%d 1\n}\nwrite-line n $n%d\n" % (i, i, c, i, i, i)
            want.append("n %d" % (1 if s == 0 else 0))
        elif use == "pipe": src += "write-line v (%s | %s)\n" % (oc, c); want.append("v %d" % s)
        elif use == "pipe3": src += "write-line v (%s | %s | %s)\n" % (oc, "vh exit 4", c); want.append("v %d" % s)
        elif use == "method": src += "define m%d: method () {\n %s\n %s\n}\nwrite-line v (m%d)\n" % (i, oc, c, i); want.append("v %d" % s)
        elif use == "return": src += "define m%d: method () {\n return (%s)\n %s\n}\nwrite-line v (m%d)\n" % (i, c, oc, i); want.append("v %d" % s)
        elif use == "block": src += "write-line v (block {\n %s\n %s\n})\n" % (oc, c); want.append("v %d" % s)
        elif use == "spawn": src += "define t%d: spawn {\n %s\n %s\n}\nwrite-line v (wait $t%d)\n" % (i, oc, c, i); want.append("v %d" % s)
        elif use == "amp": src += "define t%d: block {\n %s &\n}\nwrite-line v (wait $t%d)\n" % (i, c, i); want.append("v %d" % s)
        elif use == "wait-map": src += "define t%d: spawn {\n %s\n}\ndefine u%d: spawn {\n %s\n}\nwrite-line v (wait $u%d $t%d) (wait $u%d)\n" % (i, c, i, oc, i, i, i); want.append("v %d %d" % (s, os_))
        elif use == "redirect": src += "write-line v (%s >| out.tmp)\n" % c; want.append("v %d" % s)
        elif use == "capture": src += "write-line v `(vh puth 61 && %s)\n" % c; want.append("v a")
        elif use == "catx": src += "write-line v (vh catx %d < /dev/null)\n" % (s % 256); want.append("v %d" % s)
        elif use == "number": src += "write-line v (add (%s) 1)\n" % c; want.append("v %d" % (s + 1))
        elif use == "eval": src += "define e%d: method () e {\n return $e\n}\nwrite-line v (eval (quote (%s)))\n" % (i, c); want.append("v %d" % s)
        else: src += "define m%d: method () {\n catch ex {\n  return caught\n }\n %s\n}\nwrite-line v (m%d)\n" % (i, c, i); want.append("v %d" % s)
    r = ctx.script(src)
    if r.hang or r.err or r.rc or r.out.decode("latin-1").split("\n")[:-1] != want:
        return "want %r, got %r\n%s" % (want, r, src)
    ctx.nontrivial = any(command(e)[1] for _, e, _ in case) and len(case) > 1


# ------------------------------------------------------------------ many at once

@st.composite
def many_st(draw):
    n = draw(st.integers(2, 24))
    return {"tasks": [[draw(st.integers(0, 12)), draw(end_st()), draw(st.sampled_from(["spawn", "spawn", "loop", "pipe", "nested", "capture"]))] for _ in range(n)],
            "order": draw(st.permutations(range(n))), "fg": draw(st.lists(end_st(), max_size=4))}


def many(ctx, case):
    """Programs ending in all ways while others run."""
    src, want = "", []
    for i, (ms, e, how) in enumerate(case["tasks"]):
        c, s = command(e)
        ctx.label("task " + how)
        run = "vh sleep %d\n %s" % (ms, c)
        if how == "loop": run = "define k %d\n while (lt? 0 $k) {\n  set k: sub $k 1\n  vh exit 1\n }\n %s" % (1 + ms % 3, c)
        elif how == "pipe": run = "vh gen 5000 1 | block {\n vh cat\n vh exit 3\n} | vh catx %d >| /dev/null\n %s" % (ms, c)
        elif how == "nested": run = "wait (spawn {\n vh sleep %d\n %s\n })" % (ms, c)
        elif how == "capture": run = "define x: capture (vh sleep %d)\n %s" % (ms, c)
        src += "define t%d: spawn {\n %s\n}\n" % (i, run)
    for e in case["fg"]:
        c, s = command(e)
        src += "write-line fg (%s)\n" % c
        want.append("fg %d" % s)
    for i in case["order"]:
        src += "write-line t%d (wait $t%d)\n" % (i, i)
        want.append("t%d %d" % (i, command(case["tasks"][i][1])[1]))
    r = ctx.script(src)
    if r.hang or r.err or r.rc or r.out.decode("latin-1").split("\n")[:-1] != want:
        return "want %r, got %r\n%s" % (want, r, src)
    ctx.nontrivial = len(case["tasks"]) > 2


# ------------------------------------------------------------------ exit

@st.composite
def exit_st(draw):
    what = draw(st.one_of(st.tuples(st.sampled_from(["num", "sym", "status", "cmd", "var"]), st.integers(0, 255)), st.sampled_from([["true", 0], ["null", 1], ["none", 0], ["num", 1], ["num", 255], ["status", 0]]).map(tuple),
                              st.tuples(st.just("end"), end_st())))
    return {"what": list(what), "where": draw(st.lists(st.sampled_from(["method", "block", "if", "while", "catch", "handler", "eval", "source", "arg", "call", "and", "redirect", "builtin-arg"]), max_size=3)),
            "how": draw(st.sampled_from(["script", "script", "-c", "stdin"])), "before": draw(st.integers(0, 2)), "busy": draw(st.booleans())}


def exits(ctx, case):
    kind, n = case["what"]
    if kind == "end":
        c, n = command(n)
        arg = "(%s)" % c
    else:
        arg = {"num": "(number %s)" % n, "sym": "%s" % n, "status": "(status %s)" % n, "cmd": "(vh exit %s)" % n, "var": "$code", "true": "true", "null": "()", "none": ""}[kind]
    ctx.label("exit " + kind, "via " + case["how"])
    cwd = ctx.dir()
    out = "define code %s\nwrite-line first\n" % n
    line = "exit %s" % arg
    for k, w in enumerate(case["where"]):
        ctx.label("in " + w)
        after = "\nwrite-line after\n"
        if w == "method": line = "define m%d: method () {\n %s%s}\nm%d" % (k, line, after, k)
        elif w == "block": line = "block {\n %s%s}" % (line, after)
        elif w == "if": line = "if true {\n %s%s}" % (line, after)
        elif w == "while": line = "while true {\n %s%s}" % (line, after)
        elif w == "catch": line = "define m%d: method () {\n catch ex {\n  write-line handler\n  return ()\n }\n %s%s}\nm%d" % (k, line, after, k)
        elif w == "handler": line = "define m%d: method () {\n catch ex {\n %s%s return ()\n }\n throw 'x'%s}\nm%d" % (k, line, after, after, k)
        elif w == "eval": line = "define m%d: method () e {\n e eval (quote (block {\n %s%s}))%s}\nm%d" % (k, line, after, after, k)
        elif w == "source":
            with open(os.path.join(cwd, "f%d.oh" % k), "w") as f:
                f.write(line + after)
            line = "source ./f%d.oh" % k
        elif w == "arg": line = "write-line never (block {\n %s\n})" % line
        elif w == "builtin-arg": line = "add 1 (block {\n %s\n})" % line
        elif w == "call": line = "for (list 1 2) (method (x) {\n %s%s})" % (line, after)
        elif w == "and": line = "block {\n %s\n} && write-line after || write-line after" % line
        elif w == "redirect": line = "block {\n %s%s} < /dev/null" % (line, after)
    src = out + line + "\nwrite-line after\n"
    if case["busy"]:
        src = "spawn {\n vh sleep 60000 < /dev/null >& /dev/null\n}\n" + src
        ctx.label("a task is running")
    if case["how"] == "script":
        r = ctx.script(src, cwd=cwd)
    elif case["how"] == "-c":
        home = os.path.join(ctx.root, "home")
        os.makedirs(home, exist_ok=True)
        r = ctx.run(["oh", "-c", src], cwd, ctx.env(home))
    else:
        # Sourced from standard input.
        r = ctx.script("source /dev/stdin\nwrite-line after\n", cwd=cwd, stdin=src.encode())
    if r.hang or r.err or r.rc != n or r.out != b"first\n":
        return "want status %d, got %r\n%s" % (n, r, src)
    ctx.nontrivial = n != 0 or bool(case["where"])


# ------------------------------------------------------------------ cannot run

BADS = ["nosuchcommand", "./nosuch", "./sub/nosuch", "/nonexistent/x", "./plain", "./plain/x", "./loop", "./dangling", "plain", "./noexec", "./badinterp", "nosuch/x"]


@st.composite
def missing_st(draw):
    return [[draw(st.sampled_from(BADS)), draw(st.sampled_from(["plain", "args", "var", "pipe-left", "pipe-right", "if", "redirect", "capture", "spawn", "and", "arg"]))] for _ in range(draw(st.integers(1, 5)))]


def missing(ctx, case):
    """Programs that cannot be run: an exception, and whatever runs next is unharmed."""
    cwd = ctx.dir()
    os.mkdir(os.path.join(cwd, "sub"))
    with open(os.path.join(cwd, "plain"), "w") as f: f.write("text\n")
    with open(os.path.join(cwd, "noexec"), "wb") as f: f.write(b"\x00\x01\x02not a program")
    os.chmod(os.path.join(cwd, "noexec"), 0o755)
    with open(os.path.join(cwd, "badinterp"), "w") as f: f.write("#!/nonexistent/interp\n")
    os.chmod(os.path.join(cwd, "badinterp"), 0o755)
    os.symlink("loop", os.path.join(cwd, "loop"))
    os.symlink("nowhere", os.path.join(cwd, "dangling"))
    src, want = "", []
    for i, (b, how) in enumerate(case):
        ctx.label("how " + how, "bad " + b)
        c = b
        if how == "args": c = "%s a b" % b
        elif how == "var": c = "define v%d %s\n $v%d" % (i, b, i)
        elif how == "pipe-left": c = "%s | vh cat" % b
        elif how == "pipe-right": c = "vh exit 0 | %s" % b
        elif how == "if": c = "if (%s) {\n write-line yes\n} else {\n write-line no\n}" % b
        elif how == "redirect": c = "%s >| out%d.tmp" % (b, i)
        elif how == "capture": c = "capture (%s)" % b
        elif how == "and": c = "vh exit 0 && %s || write-line or" % b
        elif how == "arg": c = "write-line (%s)" % b
        if how == "spawn":
            src += "define m%d: method () {\n catch ex {\n  write-line caught\n  return ()\n }\n %s\n write-line not\n}\nwait (spawn {\n m%d\n})\nwrite-line s (vh exit %d)\n" % (i, b, i, i + 3)
            want += ["caught", "s %d" % (i + 3)]
            continue
        src += "define m%d: method () {\n catch ex {\n  write-line caught (null? $ex)\n  return ()\n }\n %s\n write-line not\n}\nm%d\nwrite-line s (vh exit %d)\n" % (i, c, i, i + 3)
        want += ["caught ()", "s %d" % (i + 3)]
    r = ctx.script(src, cwd=cwd)
    if r.hang or r.err or r.rc or r.out.decode("latin-1").split("\n")[:-1] != want:
        return "want %r, got %r\n%s" % (want, r, src)
    ctx.nontrivial = len(case) > 1


# ------------------------------------------------------------------ found along PATH

PDIRS = ["p0", "p1", "p2"]
PROGS = ["prog", "tool"]


def found_st():
    dirs = st.lists(st.sampled_from(PDIRS), max_size=3, unique=True)
    at = (st.sampled_from(PDIRS), st.sampled_from(PROGS))
    run = st.tuples(st.just("run"), st.sampled_from(PROGS), st.sampled_from(["plain", "plain", "command", "pipe", "task", "method", "string"])).map(list)
    op = st.one_of(run, st.tuples(st.just("put"), *at, st.integers(1, 9)).map(list), run, st.tuples(st.just("path"), dirs).map(list), run,
                   st.tuples(st.just("del"), *at).map(list), st.tuples(st.just("plain"), *at).map(list),
                   st.tuples(st.just("in"), dirs, st.lists(run, min_size=1, max_size=2)).map(list))
    return st.tuples(dirs, st.lists(st.tuples(*at, st.integers(1, 9)).map(list), max_size=4), st.lists(op, min_size=3, max_size=10)).map(list)


def found(ctx, case):
    """Programs found along PATH as PATH and the directories change."""
    path, first, ops = case
    cwd = ctx.dir()
    os.mkdir(os.path.join(cwd, "s"))
    for n in range(1, 10):
        f = os.path.join(cwd, "s", str(n))
        with open(f, "w") as g: g.write("#!/bin/sh\nexit %d\n" % n)
        os.chmod(f, 0o755)
    have = {}
    for d in PDIRS: os.mkdir(os.path.join(cwd, d))
    for d, p, n in first:
        if (d, p) in have: continue
        have[d, p] = n
        os.link(os.path.join(cwd, "s", str(n)), os.path.join(cwd, d, p))
    bindir = ctx.paths["bin"]
    setpath = lambda ds: "export PATH '%s'" % ":".join([os.path.join(cwd, d) for d in ds] + [bindir])
    src = "define report: method (what) {\n catch ex {\n  write-line gone\n  return ()\n }\n write-line (what)\n}\n"
    want, last, changed = [], {}, 0

    def run(op, path):
        nonlocal changed
        _, p, how = op
        ctx.label("how " + how)
        c = {"plain": p, "command": "command " + p, "pipe": "vh exit 0 | " + p, "task": "wait (spawn {\n  %s\n })" % p, "method": "(method () {\n  %s\n }) " % p, "string": "'%s'" % p}[how]
        n = next((have[d, p] for d in path if have.get((d, p))), None)
        if how == "task" and n is None: return ""
        want.append("gone" if n is None else str(n))
        if p in last and last[p] != n: changed += 1
        last[p] = n
        return "report (method () {\n %s\n})\n" % c

    src += setpath(path) + "\n"
    for op in ops:
        k = op[0]
        if k == "run": src += run(op, path)
        elif k == "path":
            path = op[1]
            src += setpath(path) + "\n"
        elif k == "in":
            # For a block only.
            src += "block {\n" + setpath(op[1]) + "\n" + "".join(run(o, op[1]) for o in op[2]) + "}\n"
        else:
            d, p = op[1], op[2]
            f = os.path.join(cwd, d, p)
            if (d, p) in have: src += "vh fs rm '%s'\n" % f
            have.pop((d, p), None)
            if k == "put":
                have[d, p] = op[3]
                src += "vh fs ln '%s' '%s'\n" % (os.path.join(cwd, "s", str(op[3])), f)
            elif k == "plain":
                # There, but not a program.
                have[d, p] = 0
                src += "vh fs touch '%s'\n" % f
    r = ctx.script(src, cwd=cwd)
    if r.hang or r.err or r.rc or r.out.decode("latin-1").split("\n")[:-1] != want:
        return "want %r, got %r\n%s" % (want, r, src)
    ctx.nontrivial = changed > 0


PARTS = [
    Part("found", found_st, found, 500, 12000,
         "up to ten steps that run two programs in seven ways while PATH, also for one block, and what its directories hold change; the status tells which was run. Non-trivial: what a name stands for changed"),
    Part("statuses", status_st, statuses, 900, 25000,
         "commands that exit with every status, are ended by signals, dump core, are stopped and continued or killed, in each place their status can be seen: values, variables, conditions, && and ||, loops, pipelines, methods, tasks. "
         "Non-trivial: two uses and a status other than 0"),
    Part("many", many_st, many, 350, 8000,
         "two to twenty-four tasks running programs that end in all these ways after random delays, while the parent runs more, each waited for in random order. Non-trivial: three tasks"),
    Part("exit", exit_st, exits, 700, 15000,
         "exit with statuses of every kind at up to three levels inside methods, blocks, loops, handlers, sourced files and arguments, from a script, -c or standard input, with a task running. Non-trivial: a status other than 0 or a level"),
    Part("missing", missing_st, missing, 400, 8000,
         "programs that are missing, not executable, not programs, unreadable interpreters and broken links, in pipelines, conditions, redirections and tasks; each must throw and leave the next command's status right. Non-trivial: two of these"),
]
