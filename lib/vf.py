"""Core of the verification harness: build, run, generate, shrink, report.

A property module (checks/<ID>.py) defines PARTS, a list of Part objects, each
an executable statement of (a clause of) the property over generated cases.
Cases are plain JSON values, so that a shrunk failure is a replay file which
bypasses the generator library.
"""
import ctypes, hashlib, importlib, json, multiprocessing, os, resource, select, shutil, signal
import subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
WORKERS = int(os.environ.get("VF_WORKERS", "8"))
SHRINK_BUDGET = float(os.environ.get("VF_SHRINK", "40"))

GOENV = dict(
    HOME="/root",
    PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off",
    GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
    LANG="C", LC_ALL="C", TZ="UTC", TMPDIR="/tmp")


class HarnessError(Exception):
    """The check itself could not do its work (never a violation)."""


class Inconclusive(Exception):
    """This one case could not be decided (resources, time)."""


class Abort(KeyboardInterrupt):
    """Leave the generator library at once."""


# --------------------------------------------------------------------------- build

def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build(tmp, want):
    """Builds what the check needs from REPO's working tree into tmp."""
    paths = {}
    bindir = os.path.join(tmp, "bin")
    os.makedirs(bindir)
    rc, out = sh(["gcc", "-O1", "-o", os.path.join(bindir, "vh"), os.path.join(VERIF, "c", "vh.c")])
    if rc:
        raise HarnessError("helper build failed: " + out)
    for n in ("cat", "rm", "sh", "hostname", "true", "false", "head", "sleep", "bash", "bc"):
        src = shutil.which(n, path="/usr/bin:/bin")
        if src:
            os.symlink(src, os.path.join(bindir, n))
    os.symlink("/bin/false", os.path.join(bindir, "ls"))  # oh's start-up probes for ls --color
    paths["bin"] = bindir
    paths["vh"] = os.path.join(bindir, "vh")
    if "oh" in want:
        paths["oh"] = os.path.join(tmp, "oh")
        rc, out = sh(["go", "build", "-buildvcs=false", "-o", paths["oh"], "."], cwd=REPO, env=GOENV)
        if rc:
            raise HarnessError("oh build failed: " + out)
    if "race" in want:
        paths["race"] = os.path.join(tmp, "oh-race")
        rc, out = sh(["go", "build", "-race", "-buildvcs=false", "-o", paths["race"], "."], cwd=REPO, env=GOENV)
        if rc:
            raise HarnessError("oh race build failed: " + out)
    if "probe" in want:
        paths["probe"] = os.path.join(tmp, "probe")
        ov = os.path.join(tmp, "overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": {os.path.join(REPO, "internal/verifprobe/main.go"):
                                   os.path.join(VERIF, "go/probe/main.go")}}, f)
        rc, out = sh(["go", "build", "-buildvcs=false", "-overlay", ov, "-o", paths["probe"],
                      "./internal/verifprobe"], cwd=REPO, env=GOENV)
        if rc:
            raise HarnessError("probe build failed: " + out)
    return paths


# --------------------------------------------------------------------------- running oh

class Result:
    __slots__ = ("rc", "out", "err", "hang", "left", "cpu", "maxrss")

    def __repr__(self):
        return "rc=%r hang=%r out=%r err=%r" % (self.rc, self.hang, self.out[:400], self.err[:400])


def _libc():
    return ctypes.CDLL(None, use_errno=True)


def become_subreaper():
    _libc().prctl(36, 1, 0, 0, 0)  # PR_SET_CHILD_SUBREAPER


def _descendants(root):
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    s = f.read()
                r = s.rindex(")")
                fld = s[r + 2:].split()
                kids.setdefault(int(fld[1]), []).append(int(d))
            except (OSError, ValueError):
                pass
    out, todo = [], [root]
    while todo:
        p = todo.pop()
        for c in kids.get(p, ()):
            out.append(c)
            todo.append(c)
    return out


def _activity(pids):
    """(total cpu ticks, any thread runnable or in uninterruptible sleep)"""
    total, busy = 0, False
    for p in pids:
        try:
            for t in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/stat" % (p, t)) as f:
                    s = f.read()
                fld = s[s.rindex(")") + 2:].split()
                if fld[0] in "RD":
                    busy = True
                total += int(fld[11]) + int(fld[12])
        except (OSError, ValueError):
            pass
    return total, busy


QUIET_S = 15.0      # whole process tree asleep, using no cpu, this long = deadlock
CPU_S = 60          # cpu seconds used by one small case = runaway
WALL_S = 400.0      # give up: inconclusive


class Ctx:
    """One worker's view: binaries, scratch space, counters."""

    def __init__(self, paths, scratch):
        self.paths = paths
        self.root = scratch
        self.n = 0
        self.labels = {}
        self.nontrivial = False
        self.key = None
        self._probe = None

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def dir(self):
        """A fresh empty scratch directory (the previous one is removed)."""
        self.n += 1
        d = os.path.join(self.root, "c%d" % self.n)
        old = os.path.join(self.root, "c%d" % (self.n - 1))
        if os.path.lexists(old):
            rmtree(old)
        os.mkdir(d)
        return d

    def env(self, home, extra=None):
        e = {"PATH": self.paths["bin"], "HOME": home, "USER": "u", "LANG": "C", "LC_ALL": "C", "TZ": "UTC",
             "TMPDIR": home, "OH_RC": home + "/.no-such-rc", "GOMAXPROCS": os.environ.get("VF_GOMAXPROCS", "4")}
        if extra:
            e.update(extra)
        return e

    def run(self, argv, cwd, env, stdin=b"", binary=None, fds=None, cpu=CPU_S, wall=WALL_S, user=None, quiet=QUIET_S,
            pty=False):
        """Runs argv (argv[0] is replaced by the oh binary unless binary given)."""
        exe = binary or self.paths["oh"]
        fo = os.memfd_create("o")
        fe = os.memfd_create("e")
        if isinstance(stdin, int):
            fi, closei = stdin, False
        else:
            fi, closei = os.memfd_create("i"), True
            if stdin:
                off = 0
                while off < len(stdin):
                    off += os.write(fi, stdin[off:])
                os.lseek(fi, 0, 0)

        def limits():
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
            for s in (signal.SIGPIPE, signal.SIGXFSZ, signal.SIGINT, signal.SIGQUIT):
                signal.signal(s, signal.SIG_DFL)

        r = Result()
        r.hang = None
        r.left = 0
        t0 = time.monotonic()
        try:
            try:
                p = subprocess.Popen(argv, executable=exe, cwd=cwd, env=env, stdin=fi, stdout=fo, stderr=fe,
                                     start_new_session=True, preexec_fn=limits, close_fds=True,
                                     user=user, group=user, extra_groups=[] if user else None)
            except OSError as ex:
                raise HarnessError("cannot start %s: %s" % (exe, ex))
            pfd = os.pidfd_open(p.pid)
            pl = select.poll()
            pl.register(pfd, select.POLLIN)
            last, since = -1, time.monotonic()
            first = True
            while True:
                if pl.poll(3000 if first else 500):
                    break
                first = False
                now = time.monotonic()
                pids = [p.pid] + _descendants(p.pid)
                total, busy = _activity(pids)
                if busy or total != last:
                    last, since = total, now
                elif now - since > quiet:
                    r.hang = "deadlock"
                    break
                if now - t0 > wall:
                    r.hang = "wall"
                    break
            if r.hang:
                for q in [p.pid] + _descendants(p.pid):
                    try:
                        os.kill(q, signal.SIGKILL)
                    except OSError:
                        pass
            os.close(pfd)
            _, st, ru = os.wait4(p.pid, 0)
            p.returncode = os.waitstatus_to_exitcode(st)
            r.rc = p.returncode
            r.cpu = ru.ru_utime + ru.ru_stime
            r.maxrss = ru.ru_maxrss
            if r.rc in (-signal.SIGXCPU, -signal.SIGKILL) and not r.hang and r.cpu >= cpu - 2:
                r.hang = "spin"
            # Anything left behind was re-parented to this worker. Most of
            # it is just about to finish; what is not is ended.
            deadline = time.monotonic() + 0.3
            while True:
                try:
                    pid, _ = os.waitpid(-1, os.WNOHANG)
                except ChildProcessError:
                    break
                if pid == 0:
                    mine = [q for q in _descendants(os.getpid()) if not self._probe or q != self._probe.pid]
                    if not mine:
                        break
                    if time.monotonic() > deadline:
                        r.left = max(r.left, len(mine))
                        for q in mine:
                            try:
                                os.kill(q, signal.SIGKILL)
                            except OSError:
                                pass
                    time.sleep(0.01)
            r.out = _slurp(fo)
            r.err = _slurp(fe)
        finally:
            os.close(fo)
            os.close(fe)
            if closei:
                os.close(fi)
        if r.hang == "wall":
            raise Inconclusive("no verdict within %gs" % wall)
        return r

    def script(self, text, cwd=None, args=(), stdin=b"", env=None, name="s.oh", **kw):
        """Runs a script file holding text, in a fresh scratch directory."""
        if cwd is None:
            cwd = self.dir()
        if isinstance(text, str):
            text = text.encode("latin-1")
        home = os.path.join(self.root, "home")
        if not os.path.isdir(home):
            os.mkdir(home)
            os.chmod(home, 0o777)
        path = os.path.join(home, name)
        with open(path, "wb") as f:
            f.write(text)
        e = self.env(home)
        if env is not None:
            e.update(env)
        return self.run(["oh", path] + list(args), cwd, e, stdin, **kw)

    # The in-process reader probe: one JSON request and reply per line.
    def probe(self, req, limit=90.0):
        if self._probe is None or self._probe.poll() is not None:
            def limits():
                resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            self._probe = subprocess.Popen([self.paths["probe"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                           stderr=subprocess.PIPE, env=self.env("/nonexistent"), preexec_fn=limits)
            self._buf = b""
        p = self._probe
        try:
            p.stdin.write(json.dumps(req).encode() + b"\n")
            p.stdin.flush()
        except OSError:
            return self._probe_dead()
        fd = p.stdout.fileno()
        t0 = time.monotonic()
        cpu0, _ = _activity([p.pid])
        while b"\n" not in self._buf:
            rd, _, _ = select.select([fd], [], [], 1.0)
            if rd:
                d = os.read(fd, 1 << 20)
                if not d:
                    return self._probe_dead()
                self._buf += d
            else:
                cpu, busy = _activity([p.pid])
                if cpu - cpu0 > 1500:   # 15 s of processor time on one small text
                    self._probe_kill()
                    return {"status": "spin"}
                if not busy and time.monotonic() - t0 > 20 and cpu - cpu0 < 100:
                    self._probe_kill()
                    return {"status": "deadlock"}
                if time.monotonic() - t0 > limit:
                    self._probe_kill()
                    raise Inconclusive("probe gave no answer in %gs" % limit)
        line, self._buf = self._buf.split(b"\n", 1)
        return json.loads(line)

    def _probe_kill(self):
        self._probe.kill()
        self._probe.wait()
        for f in (self._probe.stdin, self._probe.stdout, self._probe.stderr):
            try:
                f.close()
            except OSError:
                pass
        self._probe = None

    def _probe_dead(self):
        err = self._probe.stderr.read().decode("utf-8", "replace")
        self._probe_kill()
        return {"status": "crash", "error": err[:2000]}

    def close(self):
        if self._probe is not None:
            self._probe_kill()


def _slurp(fd):
    os.lseek(fd, 0, 0)
    out = []
    while True:
        b = os.read(fd, 1 << 20)
        if not b:
            return b"".join(out)
        out.append(b)


def rmtree(d):
    def onerror(fn, path, exc):
        try:
            os.chmod(os.path.dirname(path), 0o700)
            os.chmod(path, 0o700)
            fn(path)
        except OSError:
            pass
    shutil.rmtree(d, onerror=onerror)


# --------------------------------------------------------------------------- parts and workers

class Part:
    def __init__(self, name, strategy, check, quick, thorough, rule, samples=3, confirm=3, enumerate=None):
        self.name = name            # unique within the property
        self.strategy = strategy    # () -> hypothesis strategy of JSON cases
        self.check = check          # (ctx, case) -> None | reason
        self.quick = quick          # number of cases, all workers together
        self.thorough = thorough
        self.rule = rule            # how cases are made and what is non-trivial
        self.samples = samples
        self.confirm = confirm      # attempts to reproduce a shrunk failure
        self.enumerate = enumerate  # () -> iterable of cases checked exhaustively first


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _shorten(case, n=1500):
    s = json.dumps(case)
    return case if len(s) <= n else s[:n] + "...(truncated)"


def _guard(part, ctx, case):
    """Runs one case; None, a reason, or Inconclusive/HarnessError."""
    ctx.nontrivial = False

    def late(*_):
        raise Inconclusive("the harness took over 200 s for one case")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(200)
    try:
        t0 = time.monotonic()
        try:
            return part.check(ctx, case)
        finally:
            if os.environ.get("VF_SLOW") and time.monotonic() - t0 > float(os.environ["VF_SLOW"]):
                print("SLOW %.1f %s %s" % (time.monotonic() - t0, part.name, _shorten(case)), file=sys.stderr)
    finally:
        signal.alarm(0)


def worker(pid, prop, paths, tmp, idx, nworkers, stop, queue, tier, seed):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    become_subreaper()
    mod = load(prop)
    scratch = os.path.join(tmp, "w%d" % idx)
    os.mkdir(scratch)
    os.chmod(scratch, 0o777)
    ctx = Ctx(paths, scratch)
    rep = {"idx": idx, "parts": {}, "failure": None, "error": None, "inconclusive": 0, "incnotes": []}
    part = None
    try:
        for pn, part in enumerate(mod.PARTS):
            if os.environ.get("VF_PART") and os.environ["VF_PART"] != part.name:
                continue
            st = {"evaluations": 0, "keys": set(), "samples": [], "labels": {}, "inconclusive": 0, "t": 0.0}
            rep["parts"][part.name] = st
            total = part.thorough if tier == "thorough" else part.quick
            total = int(total * float(os.environ.get("VF_SCALE", "1")))
            n = total // nworkers + (1 if idx < total % nworkers else 0)
            t_part = time.monotonic()
            ctx.labels = st["labels"]
            fails = []
            first = [None]

            def one(case):
                if stop.is_set() and not fails:
                    raise Abort()
                if first[0] is not None and time.monotonic() - first[0] > SHRINK_BUDGET:
                    raise Abort()
                try:
                    why = _guard(part, ctx, case)
                except Inconclusive as ex:
                    st["inconclusive"] += 1
                    if len(rep["incnotes"]) < 5:
                        rep["incnotes"].append("%s: %s" % (part.name, ex))
                    return None
                if first[0] is None:
                    st["evaluations"] += 1
                    if ctx.nontrivial:
                        k = case_key(case)
                        if k not in st["keys"]:
                            st["keys"].add(k)
                            if len(st["samples"]) < part.samples and idx < 3:
                                st["samples"].append(_shorten(case))
                if why:
                    if first[0] is None:
                        first[0] = time.monotonic()
                    fails.append((case, why))
                return why

            try:
                if part.enumerate is not None:
                    for j, case in enumerate(part.enumerate()):
                        if j % nworkers == idx and one(case):
                            raise Abort()
                if n > 0 and part.strategy is not None:
                    @hypothesis.seed(seed * 1000003 + pn * 10007 + idx)
                    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                              phases=(Phase.generate, Phase.shrink), print_blob=False,
                              verbosity=hypothesis.Verbosity.quiet)
                    @given(part.strategy())
                    def test(case):
                        why = one(case)
                        if why:
                            raise AssertionError("property fails")
                    test()
            except Abort:
                pass
            except AssertionError:
                if not fails:
                    raise
            except (HarnessError, MemoryError):
                raise
            except BaseException:
                if not fails:
                    raise
            st["t"] = time.monotonic() - t_part
            if fails:
                ordered = sorted(fails, key=lambda f: len(json.dumps(f[0])))
                # Shrunk case first; the first failure seen as a fallback.
                for case, why in [ordered[0], fails[0]]:
                    ok = 0
                    for _ in range(part.confirm):
                        try:
                            w = _guard(part, ctx, case)
                        except Inconclusive:
                            w = None
                        if w:
                            ok += 1
                            why = w
                            break
                    if ok:
                        rep["failure"] = {"part": part.name, "case": case, "reason": why}
                        stop.set()
                        break
                if rep["failure"]:
                    break
                rep["incnotes"].append("%s: a failure did not reproduce: %s: %s" % (
                    part.name, ordered[0][1][:400], json.dumps(ordered[0][0])[:400]))
                st["inconclusive"] += 1
            if stop.is_set():
                break
    except BaseException:
        rep["error"] = "%s: %s" % (part.name if part else "?", traceback.format_exc()[-3000:])
        stop.set()
    finally:
        ctx.close()
    for st in rep["parts"].values():
        st["keys"] = list(st["keys"])
    queue.put(rep)


def load(prop):
    for d in ("lib", "checks"):
        p = os.path.join(VERIF, d)
        if p not in sys.path:
            sys.path.insert(0, p)
    return importlib.import_module(prop)


# --------------------------------------------------------------------------- known findings, regressions

def findings(prop):
    """finding lines: 'finding: property=ID part=PART case=JSON what=TEXT'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    with open(p) as f:
        for line in f:
            if line.startswith("finding: property=%s " % prop):
                rest = line.strip().split(" ", 2)[2]
                part, rest = rest.split(" ", 1)
                case, what = rest.split(" what=", 1)
                out.append((part[len("part="):], json.loads(case[len("case="):]), what))
    return out


def regressions(prop):
    p = os.path.join(VERIF, "regress", prop + ".jsonl")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [json.loads(l) for l in f if l.strip()]


# --------------------------------------------------------------------------- main

def save_replay(prop, fail):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, case_key(fail["case"])))
    with open(path, "w") as f:
        json.dump(dict(property=prop, **fail), f, indent=1)
    return path


def evidence(prop, mod, t0, parts, violations, inconclusive, notes, findings_seen):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = sum(p["evaluations"] for p in parts.values())
    nt = sum(p["distinct_nontrivial"] for p in parts.values())
    samples = []
    for name, p in parts.items():
        for s in p.pop("samples")[:3]:
            samples.append({"part": name, "case": s})
    cov = {"evaluations": ev, "distinct_nontrivial": nt,
           "rule": " | ".join("%s: %s" % (p.name, p.rule) for p in mod.PARTS),
           "samples": samples, "parts": parts, "inconclusive": inconclusive, "notes": notes[:10],
           "known_findings_reproduced": findings_seen}
    out = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
           "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.monotonic() - t0, 2),
           "violations": violations}
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(out, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def main(argv):
    prop = argv[0]
    if prop == "--setup":
        tmp = tempfile.mkdtemp(prefix="vf-setup-", dir="/tmp")
        try:
            build(tmp, ("oh", "probe"))
        except HarnessError as ex:
            print(ex)
            return 2
        finally:
            rmtree(tmp)
        return 0
    mod = load(prop)
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir="/tmp")
    os.chmod(tmp, 0o755)
    try:
        return _main(prop, mod, argv, t0, tmp)
    finally:
        rmtree(tmp)


def _main(prop, mod, argv, t0, tmp):
    try:
        paths = build(tmp, getattr(mod, "NEEDS", ("oh",)))
    except HarnessError as ex:
        print("ERROR property=%s %s" % (prop, ex))
        return 2
    byname = {p.name: p for p in mod.PARTS}

    if len(argv) > 2 and argv[1] == "--replay":
        with open(argv[2]) as f:
            fail = json.load(f)
        os.mkdir(os.path.join(tmp, "r"))
        os.chmod(os.path.join(tmp, "r"), 0o777)
        become_subreaper()
        ctx = Ctx(paths, os.path.join(tmp, "r"))
        why = None
        for _ in range(byname[fail["part"]].confirm):
            why = _guard(byname[fail["part"]], ctx, fail["case"])
            if why:
                break
        ctx.close()
        if why:
            print(why)
            print("VIOLATION property=%s replay=%s" % (prop, argv[2]))
            return 1
        print("replay passes")
        return 0

    seen = []
    failure = None
    # Known findings and the saved regression cases, one process.
    os.mkdir(os.path.join(tmp, "k"))
    os.chmod(os.path.join(tmp, "k"), 0o777)
    fixed_n = 0
    pre = findings(prop), regressions(prop)
    if any(pre) and not os.environ.get("VF_PART"):
        q = multiprocessing.Queue()

        def prelude():
            become_subreaper()
            ctx = Ctx(paths, os.path.join(tmp, "k"))
            out = {"seen": [], "failure": None, "n": 0, "error": None}
            try:
                for part, case, what in pre[0]:
                    try:
                        if _guard(byname[part], ctx, case):
                            out["seen"].append(what)
                    except Inconclusive:
                        pass
                for r in pre[1]:
                    try:
                        why = _guard(byname[r["part"]], ctx, r["case"])
                        if why:
                            why = _guard(byname[r["part"]], ctx, r["case"])
                    except Inconclusive:
                        why = None
                    out["n"] += 1
                    if why:
                        out["failure"] = {"part": r["part"], "case": r["case"], "reason": why}
                        break
            except BaseException:
                out["error"] = traceback.format_exc()[-2000:]
            ctx.close()
            q.put(out)
        p = multiprocessing.Process(target=prelude)
        p.start()
        out = q.get()
        p.join()
        if out["error"]:
            print("ERROR property=%s %s" % (prop, out["error"]))
            return 2
        seen, failure, fixed_n = out["seen"], out["failure"], out["n"]
    for w in seen:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))

    reps = []
    if failure is None:
        stop = multiprocessing.Event()
        q = multiprocessing.Queue()
        nw = WORKERS
        procs = [multiprocessing.Process(target=worker, args=(os.getpid(), prop, paths, tmp, i, nw, stop, q, TIER, SEED))
                 for i in range(nw)]
        for p in procs:
            p.start()
        pending = nw
        while pending:
            try:
                reps.append(q.get(timeout=5))
                pending -= 1
            except Exception:
                if not any(p.is_alive() for p in procs):
                    try:
                        while pending:
                            reps.append(q.get(timeout=1))
                            pending -= 1
                    except Exception:
                        print("ERROR property=%s a worker died" % prop)
                        return 2
        for p in procs:
            p.join()

    parts, inconclusive, notes = {}, 0, []
    for part in mod.PARTS:
        agg = {"evaluations": 0, "distinct_nontrivial": 0, "classes": {}, "samples": [], "seconds": 0.0}
        keys = set()
        for r in reps:
            st = r["parts"].get(part.name)
            if not st:
                continue
            agg["evaluations"] += st["evaluations"]
            keys.update(st["keys"])
            agg["samples"] += st["samples"]
            inconclusive += st["inconclusive"]
            agg["seconds"] = max(agg["seconds"], round(st["t"], 1))
            for k, v in st["labels"].items():
                agg["classes"][k] = agg["classes"].get(k, 0) + v
        agg["distinct_nontrivial"] = len(keys)
        parts[part.name] = agg
    for r in reps:
        notes += r["incnotes"]
        if r["error"] and failure is None and not any(x["failure"] for x in reps):
            print("ERROR property=%s %s" % (prop, r["error"]))
            return 2
    fs = sorted((r["failure"] for r in reps if r["failure"]), key=lambda f: len(json.dumps(f["case"])))
    if fs:
        failure = fs[0]
    if fixed_n:
        notes.append("%d saved regression cases replayed" % fixed_n)
    evidence(prop, mod, t0, parts, 1 if failure else 0, inconclusive, notes, seen)
    if os.environ.get("VF_VERBOSE"):
        print(json.dumps(parts, indent=1)[:6000])
    for n in notes:
        print("note: " + n[:600])
    print("%s: %d cases, %d distinct non-trivial, %d inconclusive, %.1fs" % (
        prop, sum(p["evaluations"] for p in parts.values()),
        sum(p["distinct_nontrivial"] for p in parts.values()), inconclusive, time.monotonic() - t0))
    if failure:
        path = save_replay(prop, failure)
        print("part %s: %s" % (failure["part"], failure["reason"][:2000]))
        print("case: %s" % json.dumps(failure["case"])[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
