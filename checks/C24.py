"""C24: pipelines pass all data through every stage and report the last."""
import os
from hypothesis import strategies as st
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: random pipelines of stages with known effect on bytes; output, value, side effects and exceptions against their composition"
ASSUMPTIONS = ["a stage that stops reading early only follows programs (they end when nobody reads; what an oh command that writes does then is its own affair)",
               "schedules are those the kernel and the Go scheduler produce with random delays"]


def hx(b): return b.hex() or "''"


@st.composite
def data_st(draw):
    """Bytes to send: [kind, ...]."""
    k = draw(st.sampled_from(["text", "text", "text", "lines", "big", "none"]))
    if k == "text": return ["text", draw(D.text_st(12))]
    if k == "lines": return ["lines", draw(st.lists(D.text_st(6).filter(lambda t: "\n" not in t), max_size=6)), draw(st.booleans())]
    if k == "big": return ["big", draw(st.sampled_from([4096, 4097, 65535, 65536, 65537, 200000, 1000003])), draw(st.integers(0, 3))]
    return ["text", ""]


def data(d):
    if d[0] == "text": return d[1].encode("latin-1")
    if d[0] == "lines": return ("\n".join(d[1]) + ("\n" if d[2] and d[1] else "")).encode("latin-1")
    unit = bytes((i * 7 + d[2] * 31 + (i >> 8)) % 256 for i in range(65521))
    return (unit * (d[1] // len(unit) + 1))[:d[1]]


MIDDLE = ["cat", "cat", "upper", "number", "loop", "block", "method", "mill", "oe", "var", "prefix", "nested", "redirect-in", "head", "ignore", "twice", "if", "while", "lambda"]
DELAY = st.sampled_from([0, 0, 0, 1, 5, 15])


@st.composite
def case_st(draw):
    n = draw(st.integers(1, 6))
    first = draw(st.sampled_from(["puth", "file", "write", "block", "method", "oe", "stdin", "none", "redirect"]))
    stages = [[draw(st.sampled_from(MIDDLE)), draw(DELAY), draw(DELAY), draw(st.integers(0, 255))] for _ in range(n)]
    return {"first": first, "data": draw(data_st()), "err": draw(D.text_st(4)), "delay": draw(DELAY), "stages": stages, "amp": [draw(st.sampled_from([0, 0, 1])) for _ in range(n)],
            "last": draw(st.sampled_from(["status", "list", "sym", "none", "number"])), "status": draw(st.integers(0, 255)),
            "throw": draw(st.one_of(st.none(), st.none(), st.none(), st.lists(st.integers(0, n), min_size=1, max_size=2, unique=True))), "how": draw(st.sampled_from(["throw", "throw", "nosuch", "builtin"])),
            "ctx": draw(st.sampled_from(["plain", "plain", "capture", "redirect", "method", "block", "spawn", "cond", "again"]))}


def check(ctx, case):
    cwd = ctx.dir()
    d = data(case["data"])
    big = len(d) > 3000
    with open(os.path.join(cwd, "in"), "wb") as f:
        f.write(d)
    pre, srcs, marks = "", [], []
    throws = case["throw"] or []
    boom = {"throw": lambda k: ("throw 'boom%d'" % k, "boom%d" % k), "nosuch": lambda k: ("nosuch%d" % k, "nosuch%d: command not found" % k), "builtin": lambda k: ("div %d 0" % (k + 1), "division by zero")}[case["how"]]
    err = case["err"].encode("latin-1")
    lasterr = [b""]
    first = case["first"]
    ctx.label("first " + first, "data " + case["data"][0])

    # The first stage: its text, and what it writes on each stream in order.
    steps = []
    amp = case["amp"]
    if first == "none": steps, o = ["vh exit 3"], b""
    elif first == "write" and not big:
        ls = d.split(b"\n")
        steps, o = ["write-line %s" % D.quote(l.decode("latin-1")) for l in ls], d + b"\n"
    elif first == "puth" and not big: steps, o = ["vh puth %s" % hx(d)], d
    elif first == "block" and not big: steps, o = ["vh puth %s" % hx(d), "write-line x", "vh puth %s" % hx(d)], d + b"x\n" + d
    elif first == "stdin": steps, o = ["vh cat"], d
    elif first == "redirect": steps, o = ["vh cat < in"], d
    elif first == "oe" and not big:
        steps, o = ["vh oe %s %s" % (hx(d), hx(err))], d
        if amp[0]: o = d + err
        else: lasterr[0] += err
    else: steps, o = ["vh catf in"], d
    external = first not in ("write", "block", "method")
    if 0 in throws:
        steps.append(boom(0)[0])
        external = False
    if case["delay"]:
        steps.insert(0, "vh sleep %d" % case["delay"])
        steps.insert(len(steps) - (0 in throws), "vh sleep %d" % case["delay"])
        if 0 not in throws:
            steps.append("vh mark marks m0")
            marks.append("m0")
    if first == "method":
        pre += "define m0: method () {\n%s\n}\n" % "\n".join(steps)
        srcs.append("m0")
    else:
        srcs.append(steps[0] if len(steps) == 1 else "block {\n%s\n}" % "\n".join(steps))
    n = len(case["stages"])
    for i, (kind, d1, d2, arg) in enumerate(case["stages"]):
        k, last = i + 1, i == n - 1
        if big and kind in ("loop", "mill", "while", "twice", "number") or b"\0" in o and kind == "number": kind = "cat"
        if kind in ("head", "ignore") and (not external or len(o) > 60000): kind = "cat"
        ctx.label("stage " + kind)
        body = ["vh cat"]
        x = False
        def nl(b): return b if b.endswith(b"\n") or not b else b + b"\n"
        if kind == "cat": x = True
        elif kind == "upper": body, o, x = ["vh upper"], bytes(c - 32 if 97 <= c <= 122 else c for c in o), True
        elif kind == "number": body, o, x = ["vh number"], b"".join(b"%d:%s" % (j + 1, l) for j, l in enumerate(o.splitlines(True) if False else [l + b"\n" for l in o.split(b"\n")[:-1]] + ([o.split(b"\n")[-1]] if o.split(b"\n")[-1] else []))), True
        elif kind in ("loop", "while"):
            body, o = ["while (define l: read-line) {\n write-line $l\n}"], nl(o)
        elif kind == "lambda": body = ["(method () {\n vh cat\n})"]
        elif kind == "mill":
            body = ["vh upper"] if False else ["while (define l: stdin read-line) {\n stdout write-line $l\n}"]
            o = nl(o)
        elif kind == "oe":
            body = ["vh cat", "vh oe 4f 45"]
            o += b"O"
            if not last and amp[i + 1]: o += b"E"
            else: lasterr[0] += b"E"
        elif kind == "var":
            pre += "define c%d: list vh\ndefine p%d vh\n" % (k, k)
            body = ["$p%d cat" % k]
        elif kind == "prefix": body = ["ZZ=%d vh cat" % k]
        elif kind == "nested": body = ["vh cat | vh cat"]
        elif kind == "redirect-in":
            body, o = ["vh cat", "vh cat < in" if not big else "vh puth 71"], o + (d if not big else b"q")
        elif kind == "head": body, o, x = ["vh headc %d" % arg], o[:arg], True
        elif kind == "ignore": body, o, x = ["vh exit 0"], b"", True
        elif kind == "twice": body, o = ["vh cat", "write-line more"], o + b"more\n"
        elif kind == "if": body = ["if true {\n vh cat\n}"]
        plain = len(body) == 1
        if not x: external = False
        if k in throws:
            body.append(boom(k)[0])
            external = False
        if d1: body.insert(0, "vh sleep %d" % d1)
        if d2 and k not in throws:
            body += ["vh sleep %d" % d2, "vh mark marks m%d" % k]
            marks.append("m%d" % k)
        if last and k not in throws:
            v = case["last"]
            if v == "status": body.append("vh exit %d" % case["status"]); value = "%d" % case["status"]
            elif v == "list": body.append("list a 'b c' %d" % k); value = "(a b c %d)" % k
            elif v == "sym": body.append("quote last%d" % k); value = "last%d" % k
            elif v == "number": body.append("add %d 1/2" % k); value = "%d/2" % (2 * k + 1)
            else: value = None
        if kind == "method" or kind == "while":
            pre += "define m%d: method () {\n%s\n}\n" % (k, "\n".join(body))
            srcs.append("m%d" % k)
        else:
            srcs.append(body[0] if len(body) == 1 and not body[0].startswith(("while", "if")) and "|" not in body[0] else "block {\n%s\n}" % "\n".join(body))
    line = srcs[0]
    for i in range(n):
        line += (" |& " if amp[i] else " | ") + srcs[i + 1]
    # Only the last reader's output comes out; anything written to standard
    # error by a stage not before |& comes out on standard error.
    c = case["ctx"]
    ctx.label("in " + c)
    reps = 1
    if throws:
        ctx.label("a stage throws")
        src = pre + "(method () {\n catch ex {\n  vh puth 1e\n  write-line caught $ex\n  return ()\n }\n%s\n write-line not caught\n})\n" % line
        src += "write-line done\n"
    else:
        show = "vh puth 1e\nwrite-line v %s\n" % ("$v" if value is not None else "any")
        if c == "plain": src = pre + "define v (%s)\n%s" % (line, show)
        elif c == "block": src = pre + "define v: block {\n%s\n}\n%s" % (line, show)
        elif c == "method": src = pre + "define run: method () {\n%s\n}\ndefine v: run\n%s" % (line, show)
        elif c == "spawn": src = pre + "define v: wait (spawn {\n%s\n})\n%s" % (line, show)
        elif c == "redirect": src = pre + "define v (block {\n%s\n} >| out)\nvh catf out\n%s" % (line, show)
        elif c == "cond": src = pre + "define v (block {\n%s\n} || vh exit 0)\n%s" % (line, show)
        elif c == "again":
            reps = 3
            src = pre + "define v ()\ndefine k: list 1 2 3\nwhile $k {\n set v: block {\n%s\n}\n set k: k tail\n}\n%s" % (line, show)
        else: src = pre + "for (capture (%s)) $write-line\n" % line
        if c == "cond" and (case["last"] == "status" and case["status"]):
            value = "0"
        if first == "stdin" and reps > 1:
            reps = 1
            src = pre + "define v: block {\n%s\n}\n%s" % (line, show)
    r = ctx.script(src, cwd=cwd, stdin=d)
    if r.hang: return "%r\n%s" % (r, src[:3000])
    if throws:
        head, _, tail = r.out.rpartition(b"\x1e")
        msgs = [b"caught %s\ndone\n" % boom(k)[1].encode() for k in throws]
        if tail not in msgs: return "want one of %r, got %r\n%s" % (msgs, r, src[:3000])
        got, want = head, o
    elif c == "capture":
        got, want = r.out, o if o.endswith(b"\n") or not o else o + b"\n"
        if big: ctx.label("big capture")
    else:
        got, _, tail = r.out.rpartition(b"\x1e")
        w = b"v %s\n" % (value.encode() if value is not None else b"any")
        if tail != w: return "want value %r, got %r (rc %s, standard error %r)\n%s" % (w, tail, r.rc, r.err[:300], src[:3000])
        want = o * reps
    if got != want:
        return "output differs: %d bytes %r..., should be %d bytes %r... (standard error %r)\n%s" % (len(got), got[:200], len(want), want[:200], r.err[:300], src[:3000])
    if sorted(r.err) != sorted(lasterr[0] * reps) or r.rc: return "standard error %r, should be %r\n%s" % (r.err[:300], lasterr[0] * reps, src[:3000])
    m = os.path.join(cwd, "marks")
    seen = open(m).read().split() if os.path.exists(m) else []
    if sorted(seen) != sorted(marks * reps): return "stages finished %r, should be %r\n%s" % (seen, marks * reps, src[:3000])
    ctx.nontrivial = n > 1 or bool(throws)


# ------------------------------------------------------------------ stages that have had enough

@st.composite
def early_st(draw):
    return {"from": draw(st.sampled_from(["file", "endless", "chain", "file", "nested"])), "lines": draw(st.integers(0, 5)), "size": draw(st.sampled_from([1, 3, 40, 70])), "reader": draw(st.sampled_from(["block", "method", "while", "loop", "stdin", "redirect", "capture", "spawn"])),
            "after": draw(st.sampled_from(["none", "cat", "upper"])), "value": draw(st.integers(0, 9)), "times": draw(st.sampled_from([1, 1, 2, 5]))}


def early(ctx, case):
    cwd = ctx.dir()
    n, z = case["lines"], case["size"]
    line = "x" * z
    with open(os.path.join(cwd, "in"), "w") as f:
        for _ in range(400000 // (z + 1)): f.write(line + "\n")
    w = {"file": "vh catf in", "endless": "sh -c 'while :; do echo %s; done'" % line, "chain": "vh catf in | vh cat | vh cat", "nested": "block {\n vh catf in\n}"}[case["from"]]
    k = case["reader"]
    take = ["write-line (splice (list (read-line)))"] * n
    pre = ""
    if k == "block": rd = "block {\n%s\n list v %d\n}" % ("\n".join(take), case["value"])
    elif k == "method":
        pre, rd = "define rd: method () {\n%s\n list v %d\n}\n" % ("\n".join(take), case["value"]), "rd"
    elif k == "while": rd = "block {\n define i 0\n while (lt? $i %d) {\n  set i: add $i 1\n  write-line (read-line)\n }\n list v %d\n}" % (n, case["value"])
    elif k == "loop": rd = "block {\n for (seq %d) (method (i) {\n  write-line (read-line)\n })\n list v %d\n}" % (n, case["value"])
    elif k == "stdin": rd = "block {\n%s\n list v %d\n}" % ("\n".join(["stdout write-line (stdin read-line)"] * n), case["value"])
    elif k == "redirect": rd = "block {\n block {\n%s\n } >| got\n vh catf got\n list v %d\n}" % ("\n".join(take) or "vh exit 0", case["value"])
    elif k == "capture": rd = "block {\n for (capture (block {\n%s\n})) $write-line\n list v %d\n}" % ("\n".join(take) or "vh exit 0", case["value"])
    else: rd = "block {\n wait (spawn {\n%s\n })\n list v %d\n}" % ("\n".join(take) or "vh exit 0", case["value"])
    if n == 0 and k == "spawn": rd = rd.replace("spawn {\nvh exit 0\n", "spawn {\nvh exit 0\n")
    line_ = w + " | " + rd
    want = (line + "\n") * n
    v = "(v %d)" % case["value"]
    if case["after"] != "none":
        line_ += " | vh " + case["after"]
        v = "0"
        if case["after"] == "upper": want = want.upper()
    src = pre + ("define v (%s)\nwrite-line is $v\n" % line_) * case["times"] + "write-line done\n"
    r = ctx.script(src, cwd=cwd)
    want = (want + "is %s\n" % v) * case["times"] + "done\n"
    ctx.label("reader " + k, "from " + case["from"])
    ctx.nontrivial = n > 0
    if r.hang or r.out != want.encode() or r.err or r.rc: return "want %r, got %r\n%s" % (want[:300], r, src)


PARTS = [
    Part("pipelines", case_st, check, 1500, 40000,
         "two to seven stages: programs, writes, loops over lines, blocks, methods, nested pipelines, stages that stop early, write errors or throw, with random delays; data from nothing to a megabyte with every byte, | and |&; in "
         "blocks, methods, tasks, captures, redirections and loops. Output, standard error, value, exception and what each stage did before the pipeline ended are compared. Non-trivial: three stages or an exception"),
    Part("early", early_st, early, 250, 6000, "programs that write for ever, or much, read by an oh command (eight kinds) that takes up to five lines and ends: the pipeline ends with what was read and the last value. Non-trivial: a line is read"),
]
