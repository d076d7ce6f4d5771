"""A session of oh on a pseudo-terminal of its own, driven one step at a time."""
import fcntl
import os
import re
import resource
import select
import signal
import struct
import subprocess
import termios
import time

import vf

COLS = 4000


class Hang(Exception):
    """Nothing in the session can make progress any more."""


class Session:
    def __init__(self, ctx, cwd, env, argv=("oh",), quiet=5.0, wall=100.0):
        self.quiet, self.wall = quiet, wall
        self.buf = b""
        self.log = b""
        self.ended = False
        self.rc = None
        self.m, s = os.openpty()
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", 200, COLS, 0, 0))
        self.before = termios.tcgetattr(s)
        e = dict(env)
        e["TERM"] = "xterm"

        def pre():
            fcntl.ioctl(0, termios.TIOCSCTTY, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (60, 65))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
            for g in (signal.SIGPIPE, signal.SIGXFSZ, signal.SIGINT, signal.SIGQUIT, signal.SIGTSTP, signal.SIGTTIN,
                      signal.SIGTTOU, signal.SIGCHLD):
                signal.signal(g, signal.SIG_DFL)
            signal.pthread_sigmask(signal.SIG_SETMASK, [])

        try:
            self.p = subprocess.Popen(list(argv), executable=ctx.paths["oh"], cwd=cwd, env=e, stdin=s, stdout=s,
                                      stderr=s, start_new_session=True, preexec_fn=pre, close_fds=True)
        except OSError as ex:
            os.close(self.m)
            raise vf.HarnessError("cannot start oh: %s" % ex)
        finally:
            self.slave = s

    # -- output

    def _read(self, timeout):
        """Reads what is there. False if nothing came."""
        r, _, _ = select.select([self.m], [], [], timeout)
        if not r:
            return False
        try:
            b = os.read(self.m, 65536)
        except OSError:
            b = b""
        if not b:
            return False
        self.buf += b
        self.log += b
        if len(self.log) > 1 << 22:
            raise Hang("endless output")
        return True

    def _exited(self):
        if self.rc is None:
            try:
                pid, st = os.waitpid(self.p.pid, os.WNOHANG)
            except ChildProcessError:
                pid, st = self.p.pid, 0
            if pid:
                self.rc = os.waitstatus_to_exitcode(st)
                self.p.returncode = self.rc
        return self.rc is not None

    def wait(self, cond, what):
        """Reads until cond() is true. Hang if the session goes quiet before."""
        t0 = time.monotonic()
        last, since = -1, t0
        while True:
            v = cond()
            if v:
                return v
            if self._read(0.005):
                last = -1
                continue
            if self._exited():
                while self._read(0.0):
                    pass
                v = cond()
                if v:
                    return v
                raise Hang("ended with %r while waiting for %s" % (self.rc, what))
            if self._read(0.1):
                last = -1
                continue
            now = time.monotonic()
            total, busy = vf._activity([self.p.pid] + vf._descendants(self.p.pid))
            if busy or total != last:
                last, since = total, now
            elif now - since > self.quiet:
                raise Hang("idle while waiting for %s (%s)" % (what, self.processes()))
            if now - t0 > self.wall:
                raise Hang("no answer while waiting for %s" % what)

    def expect(self, rx, what=None):
        """Waits for rx, returns (text before, match) and drops both from the buffer."""
        c = re.compile(rx, re.S)
        m = self.wait(lambda: c.search(self.buf), what or repr(rx))
        pre = self.buf[:m.start()]
        self.buf = self.buf[m.end():]
        return pre, m

    def settle(self, seconds=0.1, limit=20):
        """Reads until nothing has come for a while and everything sleeps."""
        last = -1
        deadline = time.monotonic() + limit
        while time.monotonic() < deadline:
            if self._read(seconds):
                last = -1
                continue
            total, busy = vf._activity([self.p.pid] + vf._descendants(self.p.pid))
            if not busy and total == last:
                return
            last = total

    def send(self, b):
        while b:
            try:
                n = os.write(self.m, b)
            except OSError as ex:
                raise Hang("write to the terminal failed: %s" % ex)
            b = b[n:]

    def processes(self):
        """What is left of the session, for reports."""
        out = []
        for q in [self.p.pid] + vf._descendants(self.p.pid):
            try:
                with open("/proc/%d/stat" % q) as f:
                    x = f.read()
                with open("/proc/%d/cmdline" % q) as f:
                    c = f.read().replace("\0", " ")
                y = x[x.rindex(")") + 2:].split()
                out.append("%d %s pgrp %s fg %s: %s" % (q, y[0], y[2], y[5], c))
            except (OSError, ValueError):
                pass
        return "; ".join(out)

    def exit_status(self):
        self.wait(self._exited, "exit")
        while self._read(0.05):
            pass
        return self.rc

    def modes(self):
        return termios.tcgetattr(self.slave)

    def foreground(self):
        return struct.unpack("i", fcntl.ioctl(self.m, termios.TIOCGPGRP, b"\0\0\0\0"))[0]

    def close(self):
        for q in [self.p.pid] + vf._descendants(self.p.pid):
            try:
                os.kill(q, signal.SIGKILL)
            except OSError:
                pass
        for fd in (self.m, self.slave):
            try:
                os.close(fd)
            except OSError:
                pass
        if self.rc is None:
            try:
                self.p.wait(20)
            except subprocess.TimeoutExpired:
                pass
        # What was left behind was re-parented to this worker.
        deadline = time.monotonic() + 5
        while time.monotonic() < deadline:
            try:
                pid, _ = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                break
            if pid == 0:
                break


RC = r"""
block {
    define count 0
    define show: method (suffix) {
        set count: add $count 1
        mend '' '@@' $count $suffix '%'
    }
    replace-make-prompt $show
}
"""

PROMPT = rb"@@(\d+)(: |  )%"


class Repl(Session):
    """A session with numbered prompts."""

    def __init__(self, ctx, home, cwd, env, argv=("oh",), rc="", **kw):
        with open(os.path.join(home, "rc.oh"), "w", encoding="latin-1") as f:
            f.write(RC + rc)
        e = dict(env)
        e["OH_RC"] = os.path.join(home, "rc.oh")
        e["OH_HISTORY"] = os.path.join(home, "hist")
        Session.__init__(self, ctx, cwd, e, argv, **kw)
        self.n = 0
        self.kind = None
        self.greeting = self.prompt()

    def prompt(self):
        """Waits for the next prompt. Returns what came before it."""
        self.n += 1
        pre, m = self.expect(rb"@@%d(: |  )%%" % self.n, "prompt %d" % self.n)
        self.kind = m.group(1)
        # The line editor prints its prompt before it takes over ctrl-C.
        self.wait(lambda: not self.modes()[3] & termios.ISIG, "the line editor")
        return pre

    def enter(self, line):
        """Types a line at the prompt."""
        self.send(line + b"\r")
        # Whatever the editor echoes is one line.
        self.expect(rb"\r?\n", "echo")

    def ask(self, line):
        """Types a line and returns its output, up to the next prompt."""
        self.enter(line)
        return self.prompt()
