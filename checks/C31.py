"""C31: open gives each mode its documented effect on files."""
import os
from hypothesis import strategies as st
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "stateful property-based testing: generated sequences of opens in every mode, reads, writes and closes, by the shell and by commands run with the conduit, over several files; results, contents and permissions against a model of files and descriptions"
ASSUMPTIONS = ["a conduit reads ahead, at most 4096 bytes at a time, as it always did; lines read by read-list hold words",
               "runs as an unprivileged user, so permissions are enforced"]

USER = 65534
PATHS = ["new", "new", "new2", "old", "old", "old2", "empty", "ro", "wo", "none", "dir", "gone/x", "link", "dangling", "a b*", "loop", "dirlink", "old/x", "/dev/null"]
START = {"old": b"one two\nthree\n", "old2": b"x\n\n  y z # c\nlast", "empty": b"", "ro": b"ro\n", "wo": b"wo\n", "none": b"none\n"}
MODES = {"ro": 0o444, "wo": 0o222, "none": 0}
TEXTS = ["a", "bb c", "", "longer text here", "w1 w2 w3"]


@st.composite
def op_st(draw):
    k = draw(st.sampled_from(["open"] * 4 + ["write", "write", "write-line", "read-line", "read-line", "read-list", "read", "xwrite", "xread", "close", "reader-close", "writer-close", "umask", "cat", "redirect"]))
    x = {"k": k}
    if k == "open":
        x["mode"] = draw(st.one_of(st.sampled_from(["r", "w", "a", "rw", "r-", "w-", "a-", "wa", "ra", "", "-", "rwa", "rw-", "aw", "wr", "ra-"]), st.text(st.sampled_from("rwa-"), max_size=4)))
    if k in ("open", "cat", "redirect"): x["path"] = draw(st.sampled_from(PATHS))
    if k == "redirect": x["op"] = draw(st.sampled_from([">|", ">>"]))
    if k in ("write", "write-line", "xwrite", "redirect"): x["t"] = draw(st.sampled_from(TEXTS))
    if k == "umask": x["m"] = draw(st.sampled_from([0, 0o22, 0o77, 0o777, 0o27, 0o1, 0o111, 0o666, 0o200, 0o4]))
    x["h"] = draw(st.integers(0, 5))
    return x


@st.composite
def case_st(draw):
    big = draw(st.integers(0, 11)) == 5
    return {"big": big, "ops": [{"k": "open", "mode": draw(st.sampled_from(["r", "w", "a", "rw", "ra", ""])), "path": draw(st.sampled_from(PATHS[:6])), "h": 0}] * draw(st.integers(0, 1)) + draw(st.lists(op_st(), min_size=2, max_size=14)),
            "umask": draw(st.sampled_from([0o22, 0o22, 0, 0o77]))}


class File:
    def __init__(self, data, mode): self.data, self.mode = bytearray(data), mode


class Conduit:
    def __init__(self, f, read, write, append): self.f, self.r, self.w, self.append, self.pos, self.buf = f, read, write, append, 0, b""

    def put(self, b):
        if self.append: self.pos = len(self.f.data)
        if len(self.f.data) < self.pos: self.f.data += b"\0" * (self.pos - len(self.f.data))
        self.f.data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)

    def get(self, n):
        b = bytes(self.f.data[self.pos:self.pos + n])
        self.pos += len(b)
        return b

    def line(self):
        while b"\n" not in self.buf:
            # The whole buffer is used.
            b = self.get(4096 - len(self.buf) if len(self.buf) < 4096 else 4096)
            if not b:
                l, self.buf = self.buf, b""
                return l or None
            self.buf += b
        l, _, self.buf = self.buf.partition(b"\n")
        return l + b"\n"


class Fail(Exception): pass


def check(ctx, case):
    cwd = ctx.dir()
    os.chmod(cwd, 0o777)
    start = dict(START)
    if case["big"]: start["old"] = b"".join(b"line %d %s\n" % (i, b"x" * (i * 7 % 90)) for i in range(150))
    files = {}
    for n, d in start.items():
        p = os.path.join(cwd, n)
        with open(p, "wb") as f: f.write(d)
        os.chmod(p, MODES.get(n, 0o666))
        files[n] = File(d, MODES.get(n, 0o666))
    os.mkdir(os.path.join(cwd, "dir"))
    for l, t in (("link", "old"), ("dangling", "target"), ("loop", "loop"), ("dirlink", "dir")): os.symlink(t, os.path.join(cwd, l))
    mask = case["umask"]
    lines = ["umask %d" % mask]
    want, hs = [], []

    def opening(path, creat, trunc, read, write, append):
        """A conduit, or Fail."""
        if path == "/dev/null":
            c = Conduit(File(b"", 0), read, write, append)
            c.put = lambda b: None
            return c
        path = {"link": "old", "dangling": "target"}.get(path, path)
        if path in ("gone/x", "loop", "old/x"): raise Fail()
        if path in ("dir", "dirlink"): raise Fail() if write or creat or trunc else KeyError
        if path not in files:
            if not creat: raise Fail()
            files[path] = File(b"", 0o666 & ~mask)
        else:
            m = files[path].mode
            if path in MODES: ok_r, ok_w = m & 0o004, m & 0o002
            elif path in start: ok_r = ok_w = True
            else: ok_r, ok_w = m & 0o400, m & 0o200
            if read and not ok_r or (write or trunc) and not ok_w: raise Fail()
        f = files[path]
        if trunc: del f.data[:]
        return Conduit(f, read, write, append)

    opened = 0
    for n, x in enumerate(case["ops"]):
        k = x["k"]
        h = hs[x["h"] % len(hs)] if hs else None
        if k == "open":
            m = x["mode"]
            read, write = "r" in m, "w" in m or "a" in m
            if read == write: read = write = True
            body = "define f%d (open '%s' %s)\nwrite-line ok" % (n, m, D.quote(x["path"]))
            try: hs.append((n, opening(x["path"], "-" not in m, "w" in m and "a" not in m, read, write, "a" in m))); want.append("ok"); opened += 1
            except Fail: want.append("refused"); body = "open '%s' %s" % (m, D.quote(x["path"]))
            except KeyError: continue
            if want[-1] == "ok": lines.append(body); ctx.label("mode " + "".join(sorted(set(m)))); continue
            ctx.label("refused")
        elif k == "umask":
            body = "write-line (umask %d)" % x["m"]
            want.append("0o%o" % mask)
            mask = x["m"]
        elif k == "cat":
            if x["path"] == "/dev/null": continue
            body = "vh catf %s\nwrite-line end" % D.quote(x["path"])
            try: c = opening(x["path"], False, False, True, False, False)
            except (Fail, KeyError): continue
            want += [bytes(c.f.data).decode("latin-1") + "end"]
        elif k == "redirect":
            body = "vh puth '%s' %s %s" % (x["t"].encode().hex(), x["op"], D.quote(x["path"]))
            try: opening(x["path"], True, x["op"] == ">|", False, True, x["op"] == ">>").put(x["t"].encode())
            except Fail: want.append("refused")
            except KeyError: continue
        elif not h: continue
        else:
            n, c = h
            f = "f%d" % n
            if k in ("write", "write-line"):
                t = x["t"] if k == "write-line" else x["t"].split(" ")[0] or "z"
                body = "%s %s %s" % (f, k, D.quote(t) if k == "write-line" else t)
                if not c.w: want.append("refused")
                else:
                    # write shows the list written.
                    c.put((t if k == "write-line" else t).encode() + b"\n")
            elif k == "read-line":
                body = "write-line \"<${_}>\""
                body = "define l (%s read-line)\nif (null? $l) {\n write-line none\n} else {\n write-line \"<${l}>\"\n}" % f
                l = c.line() if c.r else None
                want.append("none" if l is None else "<%s>" % l.decode().rstrip("\n"))
            elif k in ("read-list", "read"):
                l = None
                while c.r:
                    l = c.line()
                    if l is None: break
                    l = l.decode().partition("#")[0].split()
                    if l: break
                if k == "read": body = "write-line (%s read)" % f; want.append(l[0] if l else "()")
                else: body = "write (%s read-list)" % f; want.append("(" + " ".join(l) + ")" if l else "()")
            elif k == "xwrite":
                if not c.w: continue
                body = "define stdout $%s\nvh puth '%s'" % (f, x["t"].encode().hex())
                c.put(x["t"].encode())
            elif k == "xread":
                if not c.r: continue
                body = "define stdin $%s\nvh cat\nwrite-line end" % f
                want.append(c.get(1 << 20).decode() + "end")
            elif k == "close": body = f + " close"; c.r = c.w = False; c.buf = b""
            elif k == "reader-close": body = f + " reader-close"; c.r = False; c.buf = b""
            else: body = f + " writer-close"; c.w = False
            if k == "xread" and not c.r: continue
        lines.append("(method () {\n catch ex {\n  write-line refused\n  return ()\n }\n %s\n})" % body.replace("\n", "\n "))
    if not opened: return None
    src = "\n".join(lines) + "\n"
    r = ctx.script(src, cwd=cwd, user=USER)
    out = "".join(w + "\n" for w in want).encode("latin-1")
    if r.hang or r.rc or r.err or r.out != out: return "want %r, got %r\n%s\n%s" % (out[-3000:], r.out[-3000:], r, src)
    have = {}
    for e in os.scandir(cwd):
        if e.is_file(follow_symlinks=False):
            with open(e.path, "rb") as f: have[e.name] = (f.read(), e.stat(follow_symlinks=False).st_mode & 0o7777)
    exp = {p: (bytes(f.data), f.mode) for p, f in files.items()}
    if have != exp: return "files %r, want %r\n%s" % ({k: v for k, v in have.items() if exp.get(k) != v}, {k: v for k, v in exp.items() if have.get(k) != v}, src)
    ctx.nontrivial = opened > 0 and len(lines) > 2


PARTS = [
    Part("files", case_st, check, 3500, 60000,
         "up to fifteen opens in modes of up to four of r w a -, of new, old, large, empty, protected, linked and impossible files, writes, reads of lines and lists, commands run reading and writing the conduit, closes of either end, umasks and redirections. "
         "Non-trivial: something was opened and used"),
]
