"""C34: jobs stopped, resumed and interrupted at a terminal."""
import os
import signal
import time
from hypothesis import strategies as st
import ptysess
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "model-based property testing: generated histories of starting, stopping, resuming, interrupting, killing and finishing jobs on a pseudo-terminal, each process advancing only when told to, against a model of the job table and of the progress of every process"
ASSUMPTIONS = ["a job that waits in oh itself for a channel or conduit when it is stopped (a pipeline whose last command has ended, a capture) is the known finding", "of jobs with processes only those that are one command or pipeline are interrupted",
               "a process killed while its job is stopped leaves the job listed until it is resumed"]

# kind: (lines, gates, how they follow each other, what is done at the end)
KINDS = {
    "one": (["vh gate %(a)s 0"], "a", None),
    "pipe": (["vh gate %(a)s 0 | vh gate %(b)s 0"], "ab", None),
    "pipe3": (["vh gate %(a)s 0 | vh gate %(b)s 0 | vh gate %(c)s 0"], "abc", None),
    "seq": (["block {", "vh gate %(a)s 0", "vh gate %(b)s 0", "vh mark %(d)s done", "}"], "a,b", "done"),
    "status": (["vh mark %(d)s (vh gate %(a)s 7)"], "a", "7"),
    "define": (["vh mark %(d)s (and (true) (vh gate %(a)s 0))"], "a", "0"),
    "loop": (["for (list %(ta)s %(tb)s) (method (i) {", "vh gate \"fifo.${i}\" \"out.${i}\" $i 0", "})"], "a,b", None),
    "method": (["(method () {", "vh gate %(a)s 3", "vh mark %(d)s $?", "})"], "a", None),
    "capture": (["vh mark %(d)s (splice: capture {", "vh gate %(a)s 0", "vh args x", "})"], "a", None),
    "stage": (["vh gate %(a)s 0 | block {", "vh gate %(b)s 0", "vh mark %(d)s done", "}"], "ab", "done"),
    "spawn": (["block {", "define t: spawn {", "vh gate %(a)s 0", "}", "wait $t", "vh mark %(d)s done", "}"], "a", "done"),
    "redirect": (["vh gate %(a)s 0 > %(d)s"], "a", ""),
    "busy": (["block {", "vh mark %(a)s go", "while (not (exists %(flag)s)) {", "}", "vh mark %(d)s done", "}"], "", "done"),
}
KINDS["method"] = (["(method () {", "define r: vh gate %(a)s 3", "vh mark %(d)s $r", "})"], "a", "3")
CAPTURE = (["vh mark %(d)s ok (splice (capture (vh gate %(a)s 0)))"], "a", "ok")
del KINDS["capture"]
INTERRUPTIBLE = ("one", "pipe", "pipe3", "redirect", "busy")


@st.composite
def op_st(draw):
    k = draw(st.sampled_from(["start"] * 4 + ["stop"] * 5 + ["fg"] * 4 + ["bg"] * 3 + ["step"] * 5 + ["finish"] * 4 + ["jobs"] * 2 + ["int", "int", "say", "bad", "kill", "sigstop", "restop"]))
    if k == "start": return [k, draw(st.sampled_from(sorted(KINDS)))]
    if k in ("fg", "bg"): return [k, draw(st.sampled_from([None, None, 0, 1, 2]))]
    if k in ("step", "finish", "kill", "restop"): return [k, draw(st.integers(0, 3)), draw(st.integers(0, 2))]
    if k == "bad": return [k, draw(st.sampled_from(["fg", "bg"])), draw(st.integers(1, 3))]
    return [k]


history_st = st.builds(lambda kind, steps, rest: [["start", kind]] + steps + [["stop"]] + rest, st.sampled_from(sorted(KINDS)),
                       st.lists(st.builds(lambda k, i: [k, 0, i], st.sampled_from(["step", "step", "finish"]), st.integers(0, 2)), max_size=2),
                       st.lists(op_st(), min_size=2, max_size=20))


def blocked(j):
    """The known finding: the last command of a pipeline has ended, oh waits for the others."""
    return j.kind in ("pipe", "pipe3", "stage") and KINDS[j.kind][1][-1] not in (j.groups[0] if j.groups else [])


class Fail(Exception):
    pass


class Job:
    pass


class World:
    def __init__(self, ctx, d):
        self.ctx, self.d = ctx, d
        self.s = ptysess.Repl(ctx, d, d, ctx.env(d))
        self.jobs = []      # all
        self.table = {}     # number -> stopped job
        self.fg = None
        self.fds = {}
        self.n = 0

    def close(self):
        for fd in self.fds.values(): os.close(fd)
        self.s.close()

    def wait(self, cond, what):
        t0 = time.monotonic()
        while not cond():
            self.s._read(0.003)
            if self.s._exited(): raise Fail("the session ended while waiting for %s" % what)
            if time.monotonic() - t0 > 20: raise Fail("waited in vain for %s" % what)

    def text(self, p):
        try:
            with open(os.path.join(self.d, p), encoding="latin-1") as f: return f.read()
        except OSError: return ""

    # -- jobs

    def start(self, kind):
        j = Job()
        self.n += 1
        j.kind, j.n = kind, self.n
        lines, gates, j.done = CAPTURE if kind == "capture" else KINDS[kind]
        names = {"d": "d%d" % j.n, "flag": "f%d" % j.n}
        j.tags = {}
        for g in "abc":
            t = "%s%d" % (g, j.n)
            j.tags[g] = t
            names["t" + g] = t
            names[g] = "fifo.%s out.%s %s" % (t, t, t)
            if g in gates:
                os.mkfifo(os.path.join(self.d, "fifo." + t))
                self.fds[t] = os.open(os.path.join(self.d, "fifo." + t), os.O_RDWR)
        if kind == "busy": names["a"] = "out." + j.tags["a"]
        j.lines = [l % names for l in lines]
        # Groups of gates that run at the same time, one after the other.
        j.groups = [list(x) for x in gates.split(",")] if gates else []
        j.state = "fg"
        j.out = {}          # tag -> lines expected in its file
        j.queue = {}        # tag -> steps told to a gate that is stopped
        j.killed = False
        self.jobs.append(j)
        self.fg = j
        for l in j.lines[:-1]:
            out = self.s.ask(l.encode())
            if out: raise Fail("%r printed %r" % (l, out))
        self.s.enter(j.lines[-1].encode())
        if kind == "busy": self.wait(lambda: "go" in self.text("out." + j.tags["a"]), "%s to start" % j.lines)
        self.begin(j)
        self.ctx.label("job " + kind)

    def begin(self, j):
        """Waits for the gates of the job's first group to start."""
        if not j.groups: return
        for g in j.groups[0]:
            t = j.tags[g]
            j.out.setdefault(t, []).append("pid")
            j.queue[t] = []
            self.progress(j, t)

    def alive(self, j):
        return j.groups[0] if j.groups else []

    def progress(self, j, t):
        want = len(j.out[t])
        self.wait(lambda: self.text("out." + t).count("\n") >= want, "%s of %r to do %r, it has done %r" % (t, j.lines, j.out[t], self.text("out." + t)))
        self.compare(j, t)

    def compare(self, j, t):
        got = ["pid" if l.startswith("pid ") else l for l in self.text("out." + t).split("\n")[:-1]]
        if got != j.out[t]: raise Fail("%s of %r has done %r, not %r" % (t, j.lines, got, j.out[t]))

    def pid(self, j, t):
        return int([l for l in self.text("out." + t).split("\n") if l.startswith("pid ")][-1].split()[1])

    def tell(self, j, t, c):
        """Tells a gate to make a step, or to finish."""
        os.write(self.fds[t], c)
        if j.state == "stopped": j.queue[t].append(c)
        else: self.act(j, t, c)

    def act(self, j, t, c):
        if c == b"q": j.out[t].append("%s end" % t)
        else: j.out[t].append("%s %d" % (t, len([x for x in j.out[t][len(j.out[t]) - j.out[t][::-1].index("pid"):]]) + 1))

    def advance(self, j):
        """Lets a running job get as far as it can."""
        while j.state in ("fg", "bg") and j.groups:
            for g in j.groups[0]: self.progress(j, j.tags[g])
            j.groups[0] = [g for g in j.groups[0] if j.out[j.tags[g]][-1] != j.tags[g] + " end"]
            if j.groups[0]: return
            del j.groups[0]
            if j.groups: self.begin(j)
        if j.state in ("fg", "bg") and (j.kind != "busy" or os.path.exists(os.path.join(self.d, "f%d" % j.n))): self.complete(j)

    def complete(self, j):
        was = j.state
        if was == "fg":
            self.prompt("", j)
            self.fg = None
        j.state = "done"
        if j.done is not None and not (j.killed and j.done == "x"):
            want = j.done + "\n" if j.done else ""
            self.wait(lambda: self.text("d%d" % j.n).count("\n") >= want.count("\n") and os.path.exists(os.path.join(self.d, "d%d" % j.n)), "%r to finish" % j.lines)
            if self.text("d%d" % j.n) != want: raise Fail("%r finished with %r, not %r" % (j.lines, self.text("d%d" % j.n), want))

    def busy(self, j):
        """Waits for oh itself to be what gets the terminal's signals."""
        if j.kind != "busy": return
        self.wait(lambda: self.s.foreground() == self.s.p.pid, "the terminal to be oh's again")
        self.s.settle(0.02, 0.2)

    # -- the terminal

    def prompt(self, want, what):
        out = self.s.prompt()
        if self.s.kind != b": ": raise Fail("prompt %r after %r" % (self.s.kind, getattr(what, "lines", what)))
        self.printed(out, want, what)
        return out

    def printed(self, out, want, what):
        got = out.replace(b"^Z", b"").replace(b"^C", b"").replace(b"\r\n", b"\n").decode("latin-1")
        if got.strip("\n") != want.strip("\n"): raise Fail("%r printed %r, not %r" % (getattr(what, "lines", what), got, want))

    def listing(self, n):
        last = max(self.table) == n
        l = "[%d]%s" % (n, "+" if last else "")
        r = ""
        for x in self.table[n].lines:
            r += "%s\t%s\n" % (l, x)
            l = "    "
        return r

    def stopped(self, j):
        j.state = "stopped"
        for t in j.queue: j.queue[t] = []
        n = max(self.table, default=0) + 1
        self.table[n] = j
        return self.listing(n)

    def resumed(self, j):
        for t, q in list(j.queue.items()):
            for c in q: self.act(j, t, c)
            j.queue[t] = []
        self.advance(j)


def check(ctx, case):
    d = ctx.dir()
    w = World(ctx, d)
    s = w.s
    trace = []
    try:
        stops = 0
        for op in case:
            k = op[0]
            trace.append(op)
            j = w.fg
            if k == "start":
                if j or len(w.jobs) > 6: continue
                w.start(op[1])
            elif k == "stop" or k == "sigstop":
                if not j or blocked(j): continue
                stops += 1
                w.busy(j)
                if k == "stop" or not w.alive(j): s.send(b"\x1a")
                else:
                    for g in w.alive(j): os.kill(w.pid(j, j.tags[g]), signal.SIGSTOP)
                w.fg = None
                w.prompt(w.stopped(j), j)
            elif k == "int":
                if not j or j.kind not in INTERRUPTIBLE: continue
                w.busy(j)
                s.send(b"\x03")
                w.fg = None
                j.state = "dead"
                w.prompt("", j)
            elif k in ("fg", "bg"):
                if j or not w.table: continue
                nums = sorted(w.table)
                n = nums[-1] if op[1] is None else nums[op[1] % len(nums)]
                r = w.table[n]
                cmd = k if op[1] is None else "%s %d" % (k, n)
                del w.table[n]
                text = "".join(l + "\n" for l in r.lines)
                s.enter(cmd.encode())
                if k == "bg":
                    r.state = "bg"
                    w.prompt(text, cmd)
                else:
                    r.state = "fg"
                    w.fg = r
                    pre, _ = s.expect(("".join(l + "\r\n" for l in r.lines)).encode("latin-1").replace(b"\\", b"\\\\").replace(b"(", b"\\(").replace(b")", b"\\)").replace(b"|", b"\\|").replace(b"$", b"\\$").replace(b"{", b"\\{").replace(b"}", b"\\}").replace(b".", b"\\.").replace(b"?", b"\\?"))
                    if pre: raise Fail("fg printed %r first" % pre)
                w.resumed(r)
            elif k in ("step", "finish"):
                # Of the job in the foreground, or of any other.
                live = [j] if j and op[1] < 2 else [x for x in w.jobs if x.state in ("fg", "bg", "stopped")]
                if not live: continue
                r = live[op[1] % len(live)]
                if r.kind == "busy":
                    if k == "step" or os.path.exists(os.path.join(d, "f%d" % r.n)): continue
                    open(os.path.join(d, "f%d" % r.n), "w").close()
                    if r.state != "stopped": w.advance(r)
                    continue
                gs = [g for g in w.alive(r) if b"q" not in r.queue[r.tags[g]] and not r.killed]
                if not gs: continue
                w.tell(r, r.tags[gs[op[2] % len(gs)]], b"n" if k == "step" else b"q")
                if r.state == "stopped":
                    ctx.label("told while stopped")
                    time.sleep(0.01)
                    for g in w.alive(r): w.compare(r, r.tags[g])
                else: w.advance(r)
            elif k == "kill":
                # A process of a stopped job is killed.
                live = [x for x in w.table.values() if x.kind in ("one", "status", "method", "redirect") and not x.killed]
                if not live: continue
                r = live[op[1] % len(live)]
                t = r.tags["a"]
                p = w.pid(r, t)
                os.kill(p, signal.SIGKILL)
                w.wait(lambda: not os.path.exists("/proc/%d" % p), "%d to be reaped" % p)
                r.killed = True
                r.queue[t] = []
                r.groups = []
                if r.done in ("7", "3"): r.done = "137"
                ctx.label("killed while stopped")
            elif k == "restop":
                # A job in the background is stopped from outside.
                live = [x for x in w.jobs if x.state == "bg" and w.alive(x) and not blocked(x)]
                if j or not live: continue
                r = live[op[1] % len(live)]
                for g in w.alive(r): os.kill(w.pid(r, r.tags[g]), signal.SIGSTOP)
                text = w.stopped(r)
                w.wait(lambda: s.buf.replace(b"\r\n", b"\n").decode("latin-1") == text, "the listing %r, got %r" % (text, s.buf))
                s.buf = b""
                ctx.label("stopped in the background")
            elif j: continue
            elif k == "jobs":
                out = s.ask(b"jobs")
                w.printed(out, "".join(w.listing(n) for n in sorted(w.table)), "jobs")
            elif k == "say":
                out = s.ask(b"vh args say")
                w.printed(out, "[%s]\nend\n" % b"say".hex(), "vh args")
            elif k == "bad":
                n = max(w.table, default=0) + op[2]
                out = s.ask(("%s %d" % (op[1], n)).encode())
                if b"error: job does not exist\r\n" not in out: raise Fail("%s %d with jobs %r printed %r" % (op[1], n, sorted(w.table), out))
        # Everything left is finished: what is stopped in the foreground.
        trace.append("end")
        guard = 0
        while True:
            guard += 1
            if guard > 60: raise Fail("harness: cannot finish")
            live = [x for x in w.jobs if x.state in ("fg", "bg")]
            if live:
                r = live[0]
                if r.kind == "busy":
                    open(os.path.join(d, "f%d" % r.n), "w").close()
                    w.advance(r)
                else:
                    for g in list(w.alive(r))[:1]: w.tell(r, r.tags[g], b"q")
                    w.advance(r)
                continue
            if not w.table: break
            n = max(w.table)
            r = w.table.pop(n)
            s.enter(b"fg")
            s.expect(r"\r\n".encode() if False else b"(?:[^@]*\r\n){%d}" % len(r.lines))
            r.state = "fg"
            w.fg = r
            w.resumed(r)
        out = s.ask(b"jobs")
        w.printed(out, "", "jobs at the end")
        out = s.ask(b"vh args bye")
        w.printed(out, "[%s]\nend\n" % b"bye".hex(), "vh args at the end")
        for r in w.jobs:
            for t in r.out: w.compare(r, t)
            if r.state == "done" and r.done and w.text("d%d" % r.n) != r.done + "\n": raise Fail("%r finished with %r, not %r" % (r.lines, w.text("d%d" % r.n), r.done))
            if r.state == "dead" and os.path.exists(os.path.join(d, "d%d" % r.n)) and r.kind == "busy": raise Fail("%r went on after ctrl-C" % r.lines)
        s.send(b"\x04")
        rc = s.exit_status()
        if rc != 0: raise Fail("ended with status %r" % rc)
        ctx.nontrivial = stops > 0
        ctx.label("stops %s" % min(stops, 4))
    except Fail as ex:
        return "%s\nafter %r\n%r" % (ex, trace[-12:], s.log[-900:])
    except ptysess.Hang as ex:
        return "session stuck: %s; last %r\nafter %r\n%r" % (ex, s.buf[-300:], trace[-12:], s.log[-900:])
    finally:
        w.close()
    return None


# Jobs that are nothing but tasks of oh: each counts, and marks its end.

SHAPES = {
    "spawn": ["block {", "spawn {", 0, "}", 1, "}"],
    "spawns": ["block {", "spawn {", 0, "}", "spawn {", 1, "}", 2, "}"],
    "nested": ["block {", "spawn {", "spawn {", 0, "}", 1, "}", 2, "}"],
    "wait": ["block {", "define t: spawn {", 0, "}", "wait $t", "set m1: add $m1 1", "}"],
    "waits": ["block {", "define t: spawn {", 0, "}", "define u: spawn {", 1, "}", "wait $t $u", "}"],
    "pipe": ["block {", 0, "} | block {", 1, "}"],
    "pipe3": ["block {", 0, "} | block {", 1, "} | block {", 2, "}"],
    "pipe spawn": ["block {", "spawn {", 0, "}", 1, "} | block {", 2, "}"],
    "method": ["(method () {", "spawn {", 0, "}", 1, "})"],
}

tasks_st = st.fixed_dictionaries({"shape": st.sampled_from(sorted(SHAPES)), "stops": st.integers(1, 3), "settle": st.sampled_from([1, 3, 5, 20, 60]),
                                  "how": st.lists(st.sampled_from(["fg", "fg 1"]), min_size=3, max_size=3), "end": st.sampled_from(["bg", "fg", "bg 1", "int", "int"])})


def tasks_check(ctx, case):
    d = ctx.dir()
    rc = "define fin ()\n" + "".join("define c%d 0\ndefine m%d 0\n" % (i, i) for i in range(3))
    s = ptysess.Repl(ctx, d, d, ctx.env(d), rc=rc)
    lines = []
    used = set()
    for x in SHAPES[case["shape"]]:
        if isinstance(x, int):
            used.add(x)
            lines += ["while (not $fin) {", "set c%d: add $c%d 1" % (x, x), "}", "set m%d: add $m%d 1" % (x, x)]
        else: lines.append(x)
    used = sorted(used)
    marks = [1 if any("set m%d:" % i in l for l in lines) else 0 for i in range(3)]
    listing = "[1]+\t" + "\n    \t".join(lines) + "\n"
    pause = case["settle"] / 1000.0

    def clean(out): return out.replace(b"^Z", b"").replace(b"^C", b"").replace(b"\r\n", b"\n").decode("latin-1").strip("\n")

    def top(what, want):
        out = s.prompt()
        if s.kind != b": ": raise Fail("prompt %r after %s" % (s.kind, what))
        if clean(out) != want.strip("\n"): raise Fail("%s printed %r, not %r" % (what, out, want))

    def read(v): return [float(x) for x in clean(s.ask(("write-line $%s0 $%s1 $%s2" % (v, v, v)).encode())).split()]

    def frozen(what):
        a = read("c")
        for _ in range(5):
            s.settle(0.02, 0.1)
            b = read("c")
            if a == b: break
            a = b
        else: raise Fail("tasks still go on after %s" % what)
        if any(read("m")): raise Fail("a task has ended after %s: %r" % (what, read("m")))
        return a

    def stop():
        s.send(b"\x1a")
        top("ctrl-Z", listing)
        if clean(s.ask(b"jobs")) != listing.strip("\n"): raise Fail("jobs does not list the stopped command")
        return frozen("ctrl-Z")

    def poll(f, what):
        for _ in range(200):
            if f(): return
            s.settle(0.02, 0.05)
        raise Fail(what)

    def fg(cmd):
        s.enter(cmd.encode())
        s.expect(b"".join(x.replace(b"$", b"\\$").replace(b"(", b"\\(").replace(b")", b"\\)").replace(b"|", b"\\|").replace(b"{", b"\\{").replace(b"}", b"\\}") + b"\r\n" for x in (l.encode() for l in lines)))

    try:
        for l in lines[:-1]:
            out = s.ask(l.encode())
            if out: raise Fail("%r printed %r" % (l, out))
        s.enter(lines[-1].encode())
        s.settle(pause, pause)
        was = stop()
        for i in range(case["stops"] - 1):
            longer = pause
            for attempt in range(6):
                fg(case["how"][i])
                s.settle(longer, longer)
                now = stop()
                if all(now[u] > was[u] for u in used): break
                longer *= 2
            else: raise Fail("resumed with fg, a task does not go on: %r then %r" % (was, now))
            was = now
        end = case["end"]
        if end.startswith("bg"):
            s.enter(end.encode())
            top(end, "".join(l + "\n" for l in lines))
            poll(lambda: all(x > was[u] for u, x in enumerate(read("c")) if u in used), "resumed with bg, a task does not go on from %r" % was)
            if clean(s.ask(b"set fin true")) != "": raise Fail("set fin true printed something")
        elif end == "fg":
            if clean(s.ask(b"set fin true")) != "": raise Fail("set fin true printed something")
            frozen("ctrl-Z")
            fg("fg")
            top("the end", "")
        else:
            fg("fg")
            s.settle(pause, pause)
            s.send(b"\x03")
            top("ctrl-C", "")
            frozen("ctrl-C")
            if clean(s.ask(b"set fin true")) != "": raise Fail("set fin true printed something")
            frozen("ctrl-C")
        if end != "int":
            poll(lambda: read("m") == marks, "the tasks do not end: %r" % read("m"))
        out = s.ask(b"jobs")
        if clean(out): raise Fail("jobs printed %r at the end" % out)
        s.send(b"\x04")
        code = s.exit_status()
        if code != 0: raise Fail("ended with status %r" % code)
        ctx.nontrivial = any(was)
        ctx.label("tasks " + case["shape"])
        ctx.label("tasks end " + end)
    except Fail as ex:
        return "%s\nthe command: %r\n%r" % (ex, lines, s.log[-900:])
    except ptysess.Hang as ex:
        return "session stuck: %s; last %r\nthe command: %r\n%r" % (ex, s.buf[-300:], lines, s.log[-900:])
    finally:
        s.close()
    return None


# The known finding.

def kf_check(ctx, case):
    d = ctx.dir()
    w = World(ctx, d)
    w.s.quiet = 3.0
    try:
        w.start(case["kind"])
        w.s.send(b"\x1a")
        w.s.prompt()
    except ptysess.Hang:
        return "ctrl-Z during %r does not bring the prompt back" % w.jobs[0].lines
    finally:
        w.close()
    return None


PARTS = [Part("jobs", lambda: history_st, check, quick=400, thorough=8000, rule="at least one job was stopped"),
         Part("tasks", lambda: tasks_st, tasks_check, quick=80, thorough=1500, rule="a task had counted before the command was stopped"),
         Part("kf", None, kf_check, 0, 0, "known finding probe")]
