"""C17: channels deliver each value once, in order, within capacity."""
from hypothesis import strategies as st
import ohcalc as K
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: random task graphs over channels with per-message accounting; operation histories against a queue model; a writer's progress against capacity plus reads"
ASSUMPTIONS = ["schedules are those the Go scheduler produces on several threads with random amounts of work between steps",
               "that a writer waits is observed as no progress within 15 ms after it was able to make some"]

# ------------------------------------------------------------------ traffic

work = st.integers(0, 6)


@st.composite
def traffic_st(draw):
    n = draw(st.integers(1, 3))
    caps = [draw(st.sampled_from([None, 0, 1, 2, 3, 7, 40])) for _ in range(n)]
    writers = [[draw(st.integers(0, n - 1)), draw(st.integers(0, 25)), draw(work), draw(st.sampled_from(["write", "write", "write-line"]))]
               for _ in range(draw(st.integers(1, 4)))]
    readers = [[draw(st.integers(0, n - 1)), draw(st.one_of(st.none(), st.integers(0, 12))), draw(work), draw(st.sampled_from(["read-list", "read"]))]
               for _ in range(draw(st.integers(0, 4)))]
    forwards = [[i, draw(st.integers(0, 2)), draw(work)] for i in range(n - 1)]
    return {"caps": caps, "writers": writers, "readers": readers, "forwards": forwards, "late": draw(st.booleans()), "closer": draw(st.sampled_from(["close", "writer-close"])),
            "payload": draw(st.lists(st.sampled_from([["s", "two words"], ["s", ""], ["n", "1/2"], ["y", "x"], D.lst([["s", "in"], ["y", "ner"]]), None, ["s", "'\n|"]]), max_size=2))}


def busy(n):
    return "" if not n else " seq %d\n" % n


def traffic(ctx, case):
    n = len(case["caps"])
    pay = [D.source(x) for x in case["payload"]]
    src = []
    for i, c in enumerate(case["caps"]):
        src.append("define c%d: chan%s\n" % (i, "" if c is None else " %d" % c))
    readers = [list(r) for r in case["readers"]]
    for i in range(n):      # someone drains each channel
        if not any(r[0] == i and r[1] is None for r in readers):
            readers.append([i, None, 0, "read-list"])
    start_w, start_r = [], []
    for i, (c, k, wk, how) in enumerate(case["writers"]):
        start_w.append("define w%d: spawn {\n define i 0\n while (lt? $i %d) {\n%s  c%d %s (list w%d $i %s)\n  set i: add $i 1\n }\n}\n" % (i, k, busy(wk), c, how, i, " ".join(pay)))
    for i, (c, k, wk, how) in enumerate(readers):
        src.append("define got%d ()\n" % i)
        body = "set got%d (cons $m $got%d)\n" % (i, i)
        if k is None:
            start_r.append("define r%d: spawn {\n while (define m: c%d %s) {\n%s  %s }\n}\n" % (i, c, how, busy(wk), body))
        else:
            # Reads () when there is nothing more.
            start_r.append("define r%d: spawn {\n define i 0\n while (lt? $i %d) {\n%s  define m: c%d %s\n  %s  set i: add $i 1\n }\n}\n" % (i, k, busy(wk), c, how, body))
    start_f = []
    for c, k, wk in case["forwards"]:
        for j in range(k):
            start_f.append("define f%d-%d: spawn {\n while (define m: c%d read) {\n%s  c%d write $m\n }\n}\n" % (c, j, c, busy(wk), c + 1))
    src += start_w + start_f + start_r if case["late"] else start_r + start_f + start_w
    for i in range(len(case["writers"])):
        src.append("wait $w%d\n" % i)
    for i in range(n):
        src.append("c%d %s\n" % (i, case["closer"]))
        for c, k, _ in case["forwards"]:
            if c == i:
                for j in range(k):
                    src.append("wait $f%d-%d\n" % (c, j))
    for i in range(len(readers)):
        src.append("wait $r%d\nwrite $got%d\n" % (i, i))
    for i in range(n):
        src.append("write (c%d read) (c%d read-list) (c%d read-line)\n" % (i, i, i))
    src = "".join(src)
    r = ctx.script(src)
    if r.hang or r.err or r.rc:
        return "want a clean run, got %r\n%s" % (r, src)
    try:
        lines = D.lines(r.out)
    except D.Bad as ex:
        return "%s: %r\n%s" % (ex, r.out[:2000], src)
    if len(lines) != len(readers) + n or any(l != [None, None, None] for l in lines[len(readers):]):
        return "wrong final lines %r\n%s" % (r.out[-1500:], src)
    sent = {}
    for i, (c, k, _, how) in enumerate(case["writers"]):
        for j in range(k):
            # write sends the list of its arguments, here of one.
            sent[(i, j)] = c
    seen = {}
    plain = all(k <= 1 for _, k, _ in case["forwards"])
    for i, ((c, k, _, how), l) in enumerate(zip(readers, lines)):
        items = D.unlist(l[0])[::-1]
        last = {}
        ended = False
        if k is not None and len(items) != k:
            return "reader %d read %d times, got %d values\n%s" % (i, k, len(items), src)
        for m in items:
            if m is None:
                ended = True
                continue
            if ended:
                return "reader %d got a value after the end\n%s" % (i, src)
            u = D.unlist(m) or []
            if how == "read-list" and len(u) == 1:
                u = D.unlist(u[0]) or []
            if len(u) != 2 + len(case["payload"]) or u[2:] != case["payload"] or u[1][0] != "n" and u[1][0] != "y":
                return "reader %d got a strange value %r\n%s" % (i, m, src)
            w, j = int(u[0][1][1:]), int(u[1][1])
            if (w, j) not in sent or sent[(w, j)] > c:
                return "reader %d got %r, never written to it\n%s" % (i, (w, j), src)
            if (w, j) in seen:
                return "readers %d and %d both got %r\n%s" % (seen[(w, j)], i, (w, j), src)
            seen[(w, j)] = i
            if plain and j <= last.get(w, -1):
                return "reader %d got message %d of writer %d after message %d\n%s" % (i, j, w, last[w], src)
            last[w] = j
    lost = sorted(set(sent) - set(seen))
    if lost:
        return "lost %r\n%s" % (lost[:10], src)
    ctx.nontrivial = len(sent) > 3 and (len(case["writers"]) > 1 or len(readers) > 1)
    ctx.label("%d channels" % n, "%d writers" % len(case["writers"]), "%d readers" % min(len(readers), 5))


# ------------------------------------------------------------------ requests

@st.composite
def calls_st(draw):
    return {"cap": draw(st.sampled_from([None, 0, 1, 5])), "servers": [draw(work) for _ in range(draw(st.integers(1, 3)))],
            "clients": [[draw(st.integers(1, 10)), draw(work), draw(st.sampled_from(["fresh", "kept"])), draw(st.sampled_from([0, 1]))] for _ in range(draw(st.integers(1, 5)))]}


def calls(ctx, case):
    """Replies come through channels and methods sent with the requests."""
    src = ["define req: chan%s\n" % ("" if case["cap"] is None else " %d" % case["cap"])]
    for wk in case["servers"]:
        src.append("spawn {\n while (define q: req read-list) {\n%s  (q head) write (add 1000 (q get 1)) (q get 2)\n }\n}\n" % busy(wk))
    want = []
    for i, (k, wk, how, cap) in enumerate(case["clients"]):
        src.append("define got%d ()\n" % i)
        mk = "define reply: chan %d\n" % cap
        src.append("define t%d: spawn {\n define i 0\n %s while (lt? $i %d) {\n%s  %s  req write $reply $i c%d\n  set got%d (cons (reply read-list) $got%d)\n  set i: add $i 1\n }\n}\n"
                   % (i, mk if how == "kept" else "", k, busy(wk), mk if how == "fresh" else "", i, i, i))
        want.append([D.lst([D.lst([["n", str(1000 + j)], ["y", "c%d" % i]]) for j in reversed(range(k))])])
    for i in range(len(case["clients"])):
        src.append("wait $t%d\nwrite $got%d\n" % (i, i))
    src.append("req close\nwait\nwrite done\n")
    want.append([["y", "done"]])
    src = "".join(src)
    r = ctx.script(src)
    if r.hang or r.err or r.rc or D.lines(r.out) != want:
        return "want %r, got %r\n%s" % (want, r, src)
    ctx.nontrivial = len(case["clients"]) > 1
    ctx.label("%d clients" % len(case["clients"]))


# ------------------------------------------------------------------ one task

VALUES = [D.lst([["y", "a"]]), D.lst([["s", "two words"], ["n", "3/2"]]), D.lst([None]), D.lst([D.lst([["y", "p"], ["s", "q"]]), ["t", "3"]]), D.lst([["s", ""]]),
          D.lst([["y", "m"], ["y", "n"], ["y", "o"]])]


@st.composite
def history_st(draw):
    caps = [draw(st.integers(1, 4)) for _ in range(draw(st.integers(1, 2)))]
    n = len(caps)
    steps = []
    for _ in range(draw(st.integers(5, 30))):
        op = draw(st.sampled_from(["write", "write", "write", "write-line", "read", "read-list", "read-line", "read", "share", "write-chan", "close", "reader-close", "fresh"]))
        steps.append([op, draw(st.integers(0, n - 1)), draw(st.sampled_from(VALUES)), draw(st.integers(0, 3))])
    return {"caps": caps, "steps": steps}


def history(ctx, case):
    """One task only does what does not have to wait."""
    caps = list(case["caps"])
    q = [[] for _ in caps]
    closed = [False] * len(caps)
    setup = "".join("define c%d: chan %d\n" % (i, c) for i, c in enumerate(caps)) + "define keep: list k0 k1\ndefine other: chan\n"
    exprs, want = [], []
    keep = 0
    T = ["y", "true"]
    through = 0
    for op, i, v, k in case["steps"]:
        items = D.unlist(v)
        args = " ".join(D.source(x) for x in items)
        if op in ("write", "write-line", "share", "write-chan"):
            if not closed[i] and len(q[i]) >= caps[i]:
                continue
            a = {"share": "$keep", "write-chan": "$other"}.get(op, args)
            e = "(c%d %s %s)" % (i, "write-line" if op == "write-line" else "write", a)
            if op in ("share", "write-chan"):
                e = "(bool %s)" % e
            exprs.append(e)
            if closed[i]:
                want.append(("ex", None))
                ctx.label("write to a closed one")
                continue
            q[i].append(op if op in ("share", "write-chan") else v)
            want.append(("v", T if op in ("share", "write-chan") else v))
        elif op in ("read", "read-list", "read-line"):
            if not q[i]:
                if not closed[i]:
                    continue
                exprs.append("(c%d %s)" % (i, op))
                want.append(("v", None))
                ctx.label("read at the end")
                continue
            v = q[i].pop(0)
            through += 1
            if v == "write-chan":
                exprs.append("(equal? $other (c%d read))" % i)
                want.append(("v", T))
            elif v == "share":
                # The list itself went through, not a copy of it.
                keep += 1
                exprs.append("((c%d read) set-head %s)" % (i, "k%d" % keep))
                want.append(("v", ["y", "k%d" % keep]))
                exprs.append("($keep head)")
                want.append(("v", ["y", "k%d" % keep]))
            elif op == "read-line":
                items = D.unlist(v)
                if all(x is not None and x[0] in "sy" for x in items):
                    exprs.append("(c%d read-line)" % i)
                    want.append(("v", ["s", " ".join(x[1] for x in items)]))
                else:
                    exprs.append("(c%d read-list)" % i)
                    want.append(("v", v))
            else:
                exprs.append("(c%d %s)" % (i, op))
                want.append(("v", v if op == "read-list" else D.unlist(v)[0]))
        elif op == "close":
            exprs.append("(c%d %s)" % (i, "close" if k % 2 else "writer-close"))
            want.append(("ex", None) if closed[i] else ("v", None))
            closed[i] = True
        elif op == "reader-close":
            exprs.append("(c%d reader-close)" % i)
            want.append(("v", None))
        else:
            exprs.append("(bool (set c%d (chan %d)))" % (i, caps[i]))
            want.append(("v", T))
            q[i], closed[i] = [], False
    for i in range(len(caps)):
        if not closed[i]:
            exprs.append("(c%d close)" % i)
            want.append(("v", None))
        for v in q[i] + [None]:
            if isinstance(v, str):
                exprs.append("(bool (c%d read))" % i)
                want.append(("v", T))
            else:
                exprs.append("(c%d read-list)" % i)
                want.append(("v", v))
    ctx.nontrivial = through > 1
    try:
        got, _, src = K.run(ctx, setup, exprs)
    except K.Odd as ex:
        return str(ex)
    for e, w, g in zip(exprs, want, got):
        if w[0] != g[0] or w[0] == "v" and w[1] != g[1]:
            return "%s: want %r, got %r\n%s" % (e, w, g, src)


# ------------------------------------------------------------------ capacity

@st.composite
def waits_st(draw):
    return {"cap": draw(st.integers(0, 5)), "writers": [draw(st.integers(1, 8)) for _ in range(draw(st.integers(1, 3)))],
            "reads": draw(st.lists(st.integers(1, 5), min_size=1, max_size=4)), "end": draw(st.booleans())}


def waits(ctx, case):
    """Writers get exactly as far as capacity and reads allow."""
    cap, total = case["cap"], sum(case["writers"])
    src = ["define c: chan %d\ndefine lock: chan 1\ndefine done 0\ndefine thrown 0\n"
           "define bump: method () {\n lock write x\n set done: add $done 1\n lock read\n}\n"
           "define fail: method () {\n lock write x\n set thrown: add $thrown 1\n lock read\n}\n"
           "define until: method (n) {\n define tries 0\n while (and (lt? $done $n) (lt? $tries 4000)) {\n  vh sleep 2\n  set tries: add $tries 1\n }\n vh sleep 15\n write-line at $done\n}\n" % cap]
    for i, k in enumerate(case["writers"]):
        src.append("define w%d: spawn {\n (method () {\n  catch ex {\n   fail\n   return ()\n  }\n  define i 0\n  while (lt? $i %d) {\n   c write w%d $i\n   bump\n   set i: add $i 1\n  }\n })\n}\n" % (i, k, i))
    done = min(total, cap)
    src.append("until %d\n" % done)
    want = [done]
    reads = 0
    for r in case["reads"]:
        r = min(r, total - reads)
        src.append("c read\n" * r)
        reads += r
        done = min(total, cap + reads)
        src.append("until %d\n" % done)
        want.append(done)
    left = total - reads
    thrown = 0
    if case["end"]:
        src.append("c close\n")
        # Those that were waiting can't any more.
        left = min(left, cap)
        thrown = None
    else:
        src.append("c read\n" * left)
        left = 0
    src.append("".join("wait $w%d\n" % i for i in range(len(case["writers"]))))
    if case["end"]:
        src.append("define n 0\nwhile (c read) {\n set n: add $n 1\n}\nwrite-line left $n\n")
    src.append("write-line end $done $thrown\n")
    src = "".join(src)
    r = ctx.script(src)
    if r.hang or r.err or r.rc:
        return "want a clean run, got %r\n%s" % (r, src)
    lines = [l.split() for l in r.out.decode("latin-1").splitlines()]
    got = [int(l[1]) for l in lines if l[0] == "at"]
    if got != want:
        return "want writes completed %r, got %r\n%s" % (want, got, src)
    end = lines[-1]
    if case["end"]:
        if int(lines[-2][1]) != left:
            return "want %d left after close, got %r\n%s" % (left, r.out, src)
        if int(end[1]) != done or (done < total) != (int(end[2]) > 0):
            return "want %d writes and a throw for the rest: got %r\n%s" % (done, r.out, src)
    elif end[1:] != [str(total), "0"]:
        return "want all %d written, got %r\n%s" % (total, r.out, src)
    ctx.nontrivial = total > cap
    ctx.label("closed while writing" if case["end"] else "read to the end", "capacity %d" % cap)


PARTS = [
    Part("traffic", traffic_st, traffic, 700, 20000,
         "one to three channels of capacity none to 40 with writers, readers (to the end or a number of values), forwarders between them, random work between steps, started in either order; "
         "every message accounted for. Non-trivial: more than three messages and more than one writer or reader"),
    Part("requests", calls_st, calls, 300, 8000, "clients sending reply channels to a pool of servers. Non-trivial: several clients"),
    Part("history", history_st, history, 600, 15000,
         "operations by one task on one or two buffered channels, with close, use after close, replaced channels, values shared through the channel. Non-trivial: two values went through"),
    Part("waits", waits_st, waits, 200, 5000,
         "one to three writers against capacity 0 to 5: writes completed after each batch of reads; closing while they wait. Non-trivial: more written than fits"),
]
