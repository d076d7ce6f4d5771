"""C03: reading any text terminates: commands, more input wanted, or an error."""
import base64
import re
from vf import Part
import ohdata as D, ohsyntax as S
from hypothesis import strategies as st

NEEDS = ("oh", "probe")
TECHNIQUE = "fuzzing (random, grammar-mutated and truncated texts) with totality and print/re-read oracles"
ASSUMPTIONS = ["a read is stuck only if it uses 15 s of processor time or every thread sleeps for 20 s",
               "re-reading is judged only for commands without improper (|cons ..|) forms and without symbols mixing joining characters (known finding of C01)"]


def b64(s):
    return base64.b64encode(s.encode("latin-1")).decode()


FRAG = ["(", ")", "{", "}", "{\n", "}\n", "|", "||", "&", "&&", ";", "<", ">", ">>", ">&", ">|", ">&|", ">>&", "|<", "|>", "|&",
        "$", "$$", "${", "`", "'", '"', "$'", "\\", "\\\n", "#", "\n", " ", "\t", "=", ":", ".", "/", "~", ",", "@", "(|", "|)",
        "(|cons ", "(|number ", "(|status ", "(|symbol ", "a", "b", "x=1", "if ", "else ", "1", "-1", "'s'", "$'\\x41'", '"d $x"',
        "\0", "\xff", "\xc3", "\xc3\xa9", "\r", "\x01", "()", "a b", "block {\n", "\\x", "$x", "$'\\", "\n\n"]


def soup():
    return st.lists(st.one_of(st.sampled_from(FRAG), st.sampled_from(FRAG), st.integers(0, 255).map(chr)), max_size=24).map("".join)


def mutated():
    def mk(lines, lay, muts):
        t = S.render(lines, lay)
        for pos, kind, frag in muts:
            i = pos % (len(t) + 1)
            if kind == 0:
                t = t[:i] + frag + t[i:]
            elif kind == 1:
                t = t[:i] + t[i + 1:]
            elif kind == 2:
                t = t[:i]
            elif kind == 3:
                t = t[:i] + frag + t[i + 1:]
            else:
                j = (pos * 7) % (len(t) + 1)
                t = t[:min(i, j)] + t[max(i, j):]
        return t
    return st.builds(mk, st.lists(S.line(1), min_size=1, max_size=2), st.lists(st.integers(0, 11), min_size=1, max_size=6),
                     st.lists(st.tuples(st.integers(0, 10 ** 4), st.integers(0, 4), st.sampled_from(FRAG)), min_size=1, max_size=3))


def strat():
    return st.fixed_dictionaries({"text": st.one_of(soup(), mutated(), soup().map(lambda t: t + "\n"), mutated().map(lambda t: t + "\n"))})


def improper(d):
    if d is None or d[0] != "p":
        return False
    while d is not None and d[0] == "p":
        if improper(d[1]):
            return True
        d = d[2]
    return d is not None


def cells(d):
    if d is not None and d[0] == "p":
        yield from cells(d[1])
        yield from cells(d[2])
    else:
        yield d


def judged(d):
    return not improper(d)


def check(ctx, case):
    text = case["text"]
    chunks = [b64(text)] if text else []
    ctx.nontrivial = len(text) > 3
    rep = ctx.probe({"op": "parse", "chunks": chunks})
    stt = rep["status"]
    ctx.label(stt)
    if stt in ("spin", "deadlock", "crash", "emits", "tokens"):
        return "reading %r: %s %s" % (text, stt, rep.get("error", ""))
    if rep.get("bad"):
        return "reading %r produced an ill-formed command: %s" % (text, rep["bad"])
    if stt == "error":
        e = rep.get("error", "")
        if not e.strip():
            return "reading %r: an error without a message" % text
        if "runtime error" in e or "nil pointer" in e or "index out of range" in e or "interface conversion" in e:
            return "reading %r fails inside the reader: %s" % (text, e)
    cmds = [base64.b64decode(c) for c in rep["cmds"]]
    ctx.label("commands:%d" % min(len(cmds), 3))
    # What was produced prints in a form that reads back identically.
    for c in cmds:
        try:
            items = D.Reader(c).line()
        except (D.Bad, ValueError, IndexError, TypeError):
            continue    # an improper command, or text only oh's reader knows
        if any(improper(i) for i in items) or any(a is not None and a[0] == "y" and _compound(a[1]) for i in items for a in cells(i)):
            continue
        if items and items[0] is not None and items[0][0] == "y" and len(items) > 1 and items[1] == ["y", "="]:
            continue
        # Quoted as data: a list inside a command.
        back = ctx.probe({"op": "parse", "chunks": [base64.b64encode(b"x (" + c + b")\n").decode()]})
        bc = [base64.b64decode(x) for x in back["cmds"]]
        if back["status"] != "incomplete" or len(bc) != 1:
            return "command %r of %r does not read back: %s %s" % (c, text, back["status"], back.get("error"))
        ctx.label("re-read")
        if bc[0] not in (b"x (" + c + b")", b"x " + c):
            return "command %r of %r reads back as %r" % (c, text, bc[0])
    # No prefix that lacks its end delivers the command: dropping the last
    # character of a text never delivers more commands than the whole.
    if stt == "incomplete" and text:
        pre = ctx.probe({"op": "parse", "chunks": [b64(text[:-1])] if text[:-1] else []})
        if pre["status"] in ("incomplete", "done"):
            pc = [base64.b64decode(c) for c in pre["cmds"]]
            if pc != cmds[:len(pc)]:
                return "a prefix of %r delivers %r, the whole %r" % (text, pc, cmds)
    return None


def _compound(t):
    """Symbols that are read as more than one element when written."""
    j = set(",./:=@~$")
    return t == "" or ("\\" in t) or (len(t) > 1 and any(c in j for c in t))


# Incomplete texts never run anything: whole programs through the shell.
def cut_strat():
    def mk(w, closer, tail, how):
        return {"how": how, "pre": "write %s\n" % w, "cut": closer + tail}
    return st.builds(mk, D.word_st().filter(lambda w: not any(c in w for c in "*?[]!^%")), st.sampled_from(
        ["write (list bad", "block {\nwrite bad\n", "write 'bad", 'write "bad', "write $'bad", "write bad |", "write bad &&",
         "write bad ||", "while true {\nwrite bad", "write bad |& ", "(write bad", "write bad | (cat"]), st.sampled_from(["", " ", "\n", "\n\n"]),
        st.sampled_from(["-c", "script"]))


def cut(ctx, case):
    ctx.nontrivial = True
    text = case["pre"] + case["cut"]
    want = case["pre"][6:].encode()
    d = ctx.dir()
    if case["how"] == "-c":
        r = ctx.run(["oh", "-c", text, "x"], d, ctx.env(d))
        bad = r.rc == 0
    else:
        r = ctx.script(text)
        bad = False
    if r.hang or r.out not in (want, b"") or bad or not r.err:
        return "incomplete text %r (%s): %r" % (text, case["how"], r)


# Bytes that are not characters count as one character each.
PLAIN = [f for f in FRAG if all(ord(c) < 128 and c != "\0" for c in f)]


def alien_strat():
    piece = st.one_of(st.sampled_from(PLAIN), st.sampled_from(["a", "bc", "x y", "'q r'", '"d e"', "$'f'", "write ", "\n"]), st.just("\x00"), st.just("\x00"))
    return st.fixed_dictionaries({"text": st.one_of(st.lists(piece, min_size=2, max_size=16).map("".join), mutated().map(lambda c: c)),
                                  "at": st.lists(st.integers(0, 200), min_size=1, max_size=3), "bytes": st.lists(st.sampled_from("\xff\xfe\x80\xc0\xf8"), min_size=3, max_size=3)})


def alien(ctx, case):
    t = "".join(c for c in case["text"] if ord(c) < 128)
    t = t.replace("\0", "Q")
    for i in case["at"]:
        i %= len(t) + 1
        t = t[:i] + "\0" + t[i:]
    if re.search(r"[\\$]\0|\$'[^']*\0", t): return
    u, k = "", 0
    for c in t:
        if c == "\0": u += case["bytes"][k % 3]; k += 1
        else: u += c
    a = ctx.probe({"op": "parse", "chunks": [b64(t.replace("\0", "Q"))]})
    b = ctx.probe({"op": "parse", "chunks": [b64(u)]})
    ctx.nontrivial = len(a.get("cmds") or []) > 0
    ctx.label(a["status"])
    if a["status"] != b["status"] or len(a.get("cmds") or []) != len(b.get("cmds") or []):
        return "reading %r: %s, %d commands; with Q for the bad bytes: %s, %d commands" % (u, b["status"], len(b.get("cmds") or []), a["status"], len(a.get("cmds") or []))


PARTS = [
    Part("totality", strat, check, 16000, 400000,
         "texts from token soup over all bytes and from mutated/truncated grammar-generated programs; each ends in commands, more input "
         "wanted or a message; commands re-read identically; prefixes agree. Non-trivial: longer than 3 bytes"),
    Part("incomplete", cut_strat, cut, 240, 2000, "-c programs whose last command is incomplete: nothing of it runs, failing status; all non-trivial"),
    Part("bad bytes", alien_strat, alien, 3000, 80000, "texts with bytes that are not UTF-8 are read as the same text with letters in their place: as many commands, the same end. Non-trivial: a complete command"),
]
