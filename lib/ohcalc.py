"""Many expressions in one script, each under a handler; what each gave."""
import ohdata as D


def script(setup, exprs, after=()):
    """exprs: source texts of expressions, or (name, text) to keep the value."""
    out = [setup]
    for e in exprs:
        name = None
        if isinstance(e, tuple):
            name, e = e
        if name:
            out.append("define %s ()\n" % name)
            e = "(set %s %s)" % (name, e)
        out.append("(method () {\n catch ex {\n  write ex $ex\n  return ()\n }\n write v %s\n})\n" % e)
    for a in after:
        out.append("write after %s\n" % a)
    return "".join(out)


class Odd(Exception):
    """The script did not give one line for each expression."""


def outcomes(r, exprs, after=()):
    """[("v", datum) | ("ex", text)] for exprs, then the data of after."""
    if r.hang or r.err or r.rc:
        raise Odd("the script failed: %r" % r)
    try:
        lines = D.lines(r.out)
    except D.Bad as ex:
        raise Odd("unreadable output: %s %r" % (ex, r.out[:1500]))
    if len(lines) != len(exprs) + len(after):
        raise Odd("want %d lines, got %d: %r" % (len(exprs) + len(after), len(lines), r.out[:1500]))
    got = []
    for l in lines[:len(exprs)]:
        if l and l[0] == ["y", "v"] and len(l) == 2:
            got.append(("v", l[1]))
        elif l and l[0] == ["y", "ex"] and len(l) == 2:
            got.append(("ex", l[1][1] if l[1] else None))
        else:
            raise Odd("bad line %r in %r" % (l, r.out[:1500]))
    tail = []
    for l in lines[len(exprs):]:
        if not l or l[0] != ["y", "after"]:
            raise Odd("bad line %r in %r" % (l, r.out[:1500]))
        tail.append(l[1:])
    return got, tail


def run(ctx, setup, exprs, after=(), **kw):
    src = script(setup, exprs, after)
    r = ctx.script(src, **kw)
    try:
        return outcomes(r, exprs, after) + (src,)
    except Odd as ex:
        raise Odd("%s\n%s" % (ex, src))
