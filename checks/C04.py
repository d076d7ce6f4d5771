"""C04: how input is split into reads never changes the commands read."""
import base64
from vf import Part
import ohdata as D, ohsyntax as S, C03
from hypothesis import strategies as st

NEEDS = ("oh", "probe")
TECHNIQUE = "property-based testing: metamorphic, the same text cut at random places and delivered by different routes"
ASSUMPTIONS = ["positions reported in an error message may depend on how text was cut inside a line and are not compared",
               "a read that ends in an error delivers nothing from that read (the shell reports the error instead)"]


def b64(s):
    return base64.b64encode(s.encode("latin-1")).decode()


def text_st():
    prog = st.builds(S.render, st.lists(S.line(1), min_size=1, max_size=3), st.lists(st.integers(0, 11), min_size=1, max_size=6))
    return st.one_of(prog, prog, C03.mutated().map(lambda t: t + "\n"), C03.soup().map(lambda t: t + "\n"))


def strat():
    return st.fixed_dictionaries({"text": text_st(), "cuts": st.lists(st.integers(0, 10 ** 4), min_size=2, max_size=8),
                                  "all": st.integers(0, 9).map(lambda i: i == 9), "copies": st.lists(st.integers(0, 40), max_size=5)})


def pieces(text, cuts):
    ks = sorted({c % (len(text) + 1) for c in cuts} | {0, len(text)})
    return [text[a:b] for a, b in zip(ks, ks[1:])]


def strip_pos(e):
    """An error without its position and without the text it quotes."""
    import re
    e = re.sub(r"t:\d+:\d+: ", "", e)
    return re.sub(r"(got|unexpected) ['\"].*", r"\1", e, flags=re.S)


BAD = ("spin", "deadlock", "crash", "emits", "tokens")


def check(ctx, case):
    text = case["text"]
    ps = list(text) if case["all"] else pieces(text, case["cuts"])
    ctx.nontrivial = len(ps) > 1 and len(text) > 6
    ctx.label("pieces:%s" % ("1" if len(ps) < 2 else "2-5" if len(ps) < 6 else "6+"))
    one = ctx.probe({"op": "parse", "chunks": [b64(text)]})
    many = ctx.probe({"op": "parse", "chunks": [b64(p) for p in ps], "copies": case["copies"]})
    if one["status"] in BAD or many["status"] in BAD:
        return "reading %r: %s %s" % (ps, one["status"], many["status"])
    ctx.label(one["status"])
    if (one["status"], one["cmds"], strip_pos(one.get("error", ""))) != (many["status"], many["cmds"], strip_pos(many.get("error", ""))):
        return "text %r: in one piece %s %r, in pieces %r (copies %r) %s %r" % (
            text, one["status"], _show(one), ps, case["copies"], many["status"], _show(many))
    # The reader the shell uses, line by line: the same commands, each once.
    # The command a line completes is available before more lines are read.
    lines = text.splitlines(keepends=True) if "\r" not in text and "\x0b" not in text else None
    if lines and all(l.endswith("\n") for l in lines) and text.count("\n") == len(lines):
        rd = ctx.probe({"op": "read", "chunks": [b64(l) for l in lines]})
        if rd["status"] in BAD:
            return "reader on %r: %s" % (lines, rd["status"])
        if one["status"] == "incomplete":
            if rd["status"] != "incomplete" or rd["cmds"] != one["cmds"]:
                return "text %r: parsed as %r, read line by line as %s %r" % (text, _show(one), rd["status"], _show(rd))
            byline = ctx.probe({"op": "parse", "chunks": [b64(l) for l in lines]})
            if byline["cmds"] != rd["cmds"] or byline["at"] != rd["at"]:
                return "text %r: commands delivered late: %r instead of %r" % (text, rd["at"], byline["at"])
        elif one["status"] == "error":
            if rd["status"] != "error" or rd["cmds"] != one["cmds"][:len(rd["cmds"])]:
                return "text %r: parsed as %r then error, read line by line as %s %r" % (text, _show(one), rd["status"], _show(rd))
            ctx.label("line-error")


def _show(r):
    return [base64.b64decode(c) for c in r["cmds"]], r.get("error")


# Whole programs by three routes.
def route_strat():
    w = D.word_st().filter(lambda w: not any(c in w for c in "*?[]!^%"))
    cmd = st.one_of(
        w.map(lambda x: "write %s" % x),
        st.tuples(w, w).map(lambda x: "write %s; write %s" % x),
        st.tuples(w, w).map(lambda x: "true && write %s || write %s" % x),
        st.tuples(w, w).map(lambda x: "block {\n  write %s\n\twrite %s\n}" % x),
        w.map(lambda x: "write (list %s \\\n b)" % x),
        w.map(lambda x: "write '%s\n second'" % x),
        w.map(lambda x: "write $'%s\\n'" % x),
        st.tuples(w, w).map(lambda x: "if (list %s) {\n  write %s\n} else {\n write no\n}" % x),
        w.map(lambda x: "write %s # comment ' { (" % x),
        w.map(lambda x: "define t: spawn {\n write %s\n}\nwait $t" % x),
        w.map(lambda x: "define m: method (a) {\n\twrite $a\n}\nm %s" % x),
        w.map(lambda x: "write \"q %s\" |\n\n cat" % x))
    return st.fixed_dictionaries({"cmds": st.lists(cmd, min_size=1, max_size=6), "nl": st.lists(st.sampled_from(["\n", "\n\n", " \n", "\n# c\n"]), min_size=1, max_size=4),
                                  "end": st.booleans(), "cuts": st.lists(st.integers(0, 400), max_size=4)})


def route(ctx, case):
    src, n = "", len(case["cmds"])
    for i, c in enumerate(case["cmds"]):
        src += c + (case["nl"][i % len(case["nl"])] if i + 1 < n else "")
    if case["end"]:
        src += "\n"
    ctx.nontrivial = n > 1
    a = ctx.script(src)
    d = ctx.dir()
    b = ctx.run(["oh", "-c", src, "x"], d, ctx.env(d))
    runs = [("script", a), ("-c", b)]
    # Through a pipe, read as data and evaluated.
    feed = "".join("%s -n %s\n" % ("vh put", D.quote(p)) for p in ())
    ps = pieces(src + "\n", case["cuts"])
    prog = "define p: pipe\ndefine e: method () = {\n  while (define c: p read-list) {\n    eval $c\n  }\n}\nspawn {\n  block {\n"
    prog += "".join("    vh puth %s\n" % p.encode("latin-1").hex() for p in ps if p)
    prog += "  } > $p\n  p writer-close\n}\ne\n"
    c = ctx.script(prog)
    runs.append(("pipe", c))
    for name, r in runs:
        if r.hang or r.err or r.rc:
            return "%s: %r for %r" % (name, r, src)
        if r.out != a.out:
            return "%r: as a script %r, as %s %r" % (src, a.out, name, r.out)
    ctx.label("lines:%d" % min(a.out.count(b"\n"), 9))
    want = sum(1 for _ in case["cmds"])
    if a.out.count(b"\n") < want:
        return "commands lost: %r gives %r" % (src, a.out)


PARTS = [
    Part("pieces", strat, check, 9000, 200000,
         "valid and malformed texts cut at up to 9 random places or into single bytes, with completion snapshots of the reader before random "
         "pieces; compared with the text in one piece, and with the shell's reader line by line. Non-trivial: more than one piece"),
    Part("routes", route_strat, route, 160, 2500,
         "programs run as a script, with -c and through a pipe in pieces; output must be equal and complete. Non-trivial: several commands"),
]
