"""A reference interpreter for the core of oh, used as a differential oracle.

Programs are JSON. An element is
  "name"     a symbol           "$name"    a reference
  [e, ...]   a command in ( )   {"b": [cmd, ...]}  a { } block
  {"s": t}   a string           {"q": t}   an interpolated string
  {"n": f}   a number
A program is a list of commands. render() gives oh source for it, run() what
it means: the lines it writes and the error it ends in. Written as a machine
with explicit continuations, from the language's description: scopes, frames,
commands bound to the scope or object they were found in.
"""
import re
from fractions import Fraction

import ohdata as D


class OutOfModel(Exception):
    """The program leaves the part of the language modelled here."""


class Oops(Exception):
    """An error raised by the language; the frame it is raised in."""

    def __init__(self, msg, frame=None):
        self.msg, self.frame = msg, frame


class Sym(str):
    __slots__ = ()


class Str:
    __slots__ = ("t",)

    def __init__(self, t): self.t = t


class Num:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = Fraction(f)
        if self.f.numerator.bit_length() + self.f.denominator.bit_length() > 6000:
            raise OutOfModel("number too big")


class Status(Num):
    __slots__ = ()


class Pair:
    __slots__ = ("a", "d")

    def __init__(self, a, d): self.a, self.d = a, d


NULL = None     # the empty list
TRUE = Sym("true")


class Ref:
    __slots__ = ("v",)

    def __init__(self, v): self.v = v


class Env:
    name = "environment"

    def __init__(self, previous):
        self.previous, self.private, self.public = previous, {}, {}

    def lookup(self, k):
        e = self
        while e is not None:
            r = e.private.get(k) or e.public.get(k)
            if r:
                return r
            e = e.previous
        return None

    def put(self, table, k, v):
        r = table.get(k)
        if r:
            r.v = v
        else:
            table[k] = Ref(v)

    def define(self, k, v): self.put(self.private, k, v)
    def export(self, k, v): self.put(self.public, k, v)

    def remove(self, k):
        e = self
        while e is not None:
            if k in e.private:
                del e.private[k]
                return True
            if k in e.public:
                del e.public[k]
                return True
            e = e.previous
        return False

    def expose(self): return self


class Obj:
    name = "object"

    def __init__(self, env): self.env = env
    def lookup(self, k): return self.env.public.get(k)
    def define(self, k, v): raise Oops("private names cannot be added to object")
    def export(self, k, v): self.env.export(k, v)
    def remove(self, k): return self.env.public.pop(k, None) is not None
    def expose(self): return self.env


def nearest(e):
    """The nearest scope that exports something."""
    while e is not None and not e.public:
        e = e.previous
    return e


def visible(e, o):
    o = nearest(o)
    return True if o is None else nearest(e) is o


class Frame:
    __slots__ = ("scope", "previous")

    def __init__(self, scope, previous): self.scope, self.previous = scope, previous

    def resolve(self, k):
        r = self.scope.lookup(k)
        if r:
            return self.scope, r
        f = self.previous
        while f is not None:
            s = f.scope
            while s is not None:
                r = s.public.get(k)
                if r:
                    return s, r
                s = s.previous
            f = f.previous
        return None, None


class Closure:
    __slots__ = ("kind", "body", "elabel", "params", "slabel", "scope")

    @property
    def name(self): return self.kind


class Builtin:
    __slots__ = ("kind", "fn", "id")

    def __init__(self, kind, id, fn): self.kind, self.id, self.fn = kind, id, fn

    @property
    def name(self): return self.kind


class Bound:
    __slots__ = ("cmd", "self")

    def __init__(self, cmd, self_): self.cmd, self.self = cmd, self_

    @property
    def name(self): return self.cmd.name


class Cont:
    name = "continuation"
    __slots__ = ("k",)

    def __init__(self, k): self.k = k


class Multi(list):
    """What splice gives: several arguments."""


# ------------------------------------------------------------------ helpers

def L(*xs):
    r = NULL
    for x in reversed(xs):
        r = Pair(x, r)
    return r


def items(l):
    out = []
    while l is not NULL:
        if not isinstance(l, Pair):
            raise Oops("not a cons")
        out.append(l.a)
        l = l.d
        if len(out) > 100000:
            raise OutOfModel("cyclic")
    return out


def name(v):
    if v is NULL or isinstance(v, Pair): return "cons"
    if isinstance(v, Sym): return "symbol"
    if isinstance(v, Str): return "string"
    if isinstance(v, Status): return "status"
    if isinstance(v, Num): return "number"
    return v.name


def truth(v):
    if v is NULL: return False
    if isinstance(v, Status): return v.f == 0
    if isinstance(v, Num): return v.f != 0
    return True


def ispair(v): return v is NULL or isinstance(v, Pair)


def car(v):
    if v is NULL: return NULL
    if not isinstance(v, Pair): raise Oops("not a cons")
    return v.a


def cdr(v):
    if v is NULL: return NULL
    if not isinstance(v, Pair): raise Oops("not a cons")
    return v.d


def text(v):
    """The text of a value in a string context."""
    if isinstance(v, Sym): return str(v)
    if isinstance(v, Str): return v.t
    if isinstance(v, Num): return D.fr(v.f)
    if ispair(v): raise OutOfModel("text of a list")
    raise Oops(name(v) + " cannot be used in a string context")


NUMBER = re.compile(r"[+-]?[0-9]+(/[0-9]+)?\Z")


def number(v):
    if isinstance(v, Num): return v.f
    if isinstance(v, Sym):
        if NUMBER.match(v):
            return Fraction(v)
        if re.match(r"[A-Za-z]", v) and v[0] not in "iInN":
            raise Oops("'%s' is not a valid number" % v)
        raise OutOfModel("number " + v)
    raise Oops(name(v) + " cannot be use in a numeric context")


def integer(v):
    if isinstance(v, (Num, Sym)):
        f = number(v)
        if f.denominator == 1 and -2 ** 63 <= f < 2 ** 63:
            return int(f)
        raise Oops(name(v) + " does not have an integer value")
    raise Oops(name(v) + " cannot be converted to an integer value")


def boolv(b): return TRUE if b else NULL


def equal(a, b):
    if a is NULL or b is NULL: return a is b
    if isinstance(a, Pair) and isinstance(b, Pair):
        while isinstance(a, Pair) and isinstance(b, Pair):
            if not equal(a.a, b.a): return False
            a, b = a.d, b.d
        return equal(a, b)
    if isinstance(a, Sym): return isinstance(b, Sym) and a == b
    if isinstance(a, Str): return isinstance(b, Str) and a.t == b.t
    if isinstance(a, Status): return isinstance(b, Status) and a.f == b.f
    if isinstance(a, Num): return isinstance(b, Num) and not isinstance(b, Status) and a.f == b.f
    if isinstance(a, (Env, Obj)): return a is b
    raise OutOfModel("equality of " + name(a))


def datum(v, left=None):
    """The literal form, as ohdata JSON."""
    left = left or [20000]
    left[0] -= 1
    if left[0] < 0: raise OutOfModel("huge data")
    if v is NULL: return None
    if isinstance(v, Sym): return ["y", str(v)]
    if isinstance(v, Str): return ["s", v.t]
    if isinstance(v, Status): return ["t", D.fr(v.f)]
    if isinstance(v, Num): return ["n", D.fr(v.f)]
    if isinstance(v, Pair):
        xs, n = [], 0
        while isinstance(v, Pair):
            xs.append(datum(v.a, left))
            v = v.d
            n += 1
            if n > 20000:
                raise OutOfModel("cyclic")
        return D.lst(xs, datum(v, left))
    raise Oops(name(v) + " does not have a literal representation")


def key(v):
    """A name's literal form."""
    if isinstance(v, Sym): return str(v)
    if isinstance(v, Str): return D.quote(v.t)
    if isinstance(v, Num): return "(|%s %s|)" % (name(v), D.fr(v.f))
    raise OutOfModel("name that is a " + name(v))


def plural(n): return "%d argument%s" % (n, "" if n == 1 else "s")


def fixed(args, lo, hi):
    if len(args) < lo: raise Oops("expected %s, passed %d" % (plural(lo), len(args)))
    if len(args) > hi: raise Oops("expected %s, passed %d" % (plural(hi), len(args)))


# ------------------------------------------------------------------ source

REF = re.compile(r"(?:\$\$)|(?:\$\{.+?\})|(?:\$[!%*+\-0-9?@A-Z\[\]^_a-z]+)")


def code(e, raw=False):
    """The element as oh data, as the reader delivers it."""
    if isinstance(e, str):
        if e[0] == "$":
            return L(Sym("resolve"), Sym(e[1:]))
        if e[-1] == ":" and len(e) > 1 and not raw:
            return L(Sym("mend"), Sym(""), Sym(e[:-1]), Sym(":"))
        return Sym(e)
    if isinstance(e, dict):
        if "s" in e: return Str(e["s"])
        if "q" in e: return L(Sym("interpolate"), Str(e["q"]))
        if "n" in e: return Num(e["n"])
        raise ValueError(e)
    out = []
    for x in e:
        if isinstance(x, dict) and "b" in x:
            out += [code(c, raw) for c in x["b"]]
        else:
            out.append(code(x, raw))
    return L(*out)


def elem(e, ind):
    if isinstance(e, str): return e
    if isinstance(e, dict):
        if "s" in e: return D.quote(e["s"])
        if "q" in e: return '"' + e["q"].replace("\\", "\\\\").replace('"', '\\"') + '"'
        if "n" in e: return "(|number %s|)" % e["n"]
        if not e["b"]: raise ValueError("empty block")
        return "{\n" + "".join(line(c, ind + 1) for c in e["b"]) + "  " * ind + "}"
    return "(" + " ".join(elem(x, ind) for x in e) + ")"


def line(cmd, ind=0):
    return "  " * ind + " ".join(elem(x, ind) for x in cmd) + "\n"


def render(prog):
    return "".join(line(c) for c in prog)


# A reader for fully parenthesised text, for the bundled procedures below.
TOKEN = re.compile(r"\s*(?:([()])|'([^']*)'|(\$?[^\s()']+))")


def sexps(s):
    out, stack, i = [], [], 0
    cur = out
    s = s.rstrip()
    while i < len(s):
        m = TOKEN.match(s, i)
        i = m.end()
        if m.group(1) == "(":
            n = []
            cur.append(n)
            stack.append(cur)
            cur = n
        elif m.group(1) == ")":
            cur = stack.pop()
        elif m.group(2) is not None:
            cur.append({"s": m.group(2)})
        else:
            cur.append(m.group(3))
    return out


PRELUDE = """
(define and (syntax ((lst)) e
  (define r ())
  (while $lst (set r (e eval (lst head))) (if (not $r) (return $r)) (set lst (lst tail)))
  (return $r)))
(define or (syntax ((lst)) e
  (define r ())
  (while $lst (set r (e eval (lst head))) (if $r (return $r)) (set lst (lst tail)))
  (return $r)))
(define list (method ((l)) (return $l)))
(define not:: syntax ((v)) e (return (not (e eval $v))))
(define eq? (method ((args))
  (define len (args length))
  (if (gt? 2 $len) (throw (interpolate 'expected 2 arguments, passed ${len}')))
  (define c (args head))
  (set args (args tail))
  (while $args (if (not (equal? (string $c) (string (args head)))) (return ())) (set args (args tail)))
  (return true)))
(define ne? (method ((args)) (not (eq? (splice $args)))))
(define quasiquote (syntax (cell) e
  (if (not (cons? $cell)) (return $cell))
  (if (null? $cell) (return $cell))
  (if (equal? unquote (cell head)) (return (e eval (cell get 1))))
  (cons (e eval (list quasiquote (cell head))) (e eval (list quasiquote (cell tail))))))
(define quote (syntax (v) (return $v)))
(define object (syntax ((body)) e
  (set body ((body slice 0) append (quote ((method self () = (return (resolve self)))))))
  (e eval (cons block $body))))
(define map (method () (object (export del $unset) (export get $get) (export has $set?) (export set $export))))
(define for (method (l m)
  (define r (cons () ()))
  (define c $r)
  (while $l (c set-tail (cons (m (l head)) ())) (set c (c tail)) (set l (l tail)))
  (return (r tail))))
(define catch (syntax (name (clause)) e
  (define body (list throw (list resolve $name)))
  (if (null? $clause) (set body (list $body)) else (set body ((clause slice 0) append $body)))
  (define defn (list method (list $name throw) =))
  (defn extend $body)
  (define handler (e eval $defn))
  (define _return_ (e eval (list resolve return)))
  (define _throw_ $throw)
  (e export throw (method (msg) (_return_ (handler $msg $_throw_))))))
(define coalesce (method ((terms)) e
  (define next (terms tail))
  (define term (terms head))
  (while $next
    (if (e eval (list resolves? $term)) (return (e eval (list resolve $term))))
    (set term (next head))
    (set next (next tail)))
  (return $term)))
(define seq (method (n)
  (define l ())
  (while (gt? $n 0) (set n (sub $n 1)) (set l (cons $n $l)))
  (return $l)))
"""


# ------------------------------------------------------------------ machine

class Result:
    """lines: what write wrote, as lists of ohdata; error: message of the
    uncaught exception as text, or None."""

    def __init__(self):
        self.lines, self.error, self.steps, self.stats = [], None, 0, {}


class Done(Exception):
    def __init__(self, value):
        self.value = value


class Machine:
    def __init__(self, limit=60000):
        self.res = Result()
        self.limit = limit
        env0 = Env(None)
        scope0 = Env(None)
        self.scope0 = scope0
        ex = Bound(Builtin("syntax", "export", None), None).cmd
        env0.export("export", ex)
        scope0.export("export", ex)
        for k in ("block", "define", "if", "while", "set", "method", "syntax"):
            scope0.define(k, Builtin("syntax", k, None))
        for k, fn in BUILTINS.items():
            scope0.define(k, Builtin("method", k, fn))
        for k in SPECIAL:
            scope0.define(k, Builtin("method", k, None))
        env0.export("throw", Builtin("method", "top-throw", None))
        scope0.define("sys", Obj(env0))
        env0.export("stdout", Obj(Env(None)))
        self.lists = Env(None)
        for k, fn in LISTS.items():
            self.lists.export(k, Builtin("method", k, fn))
        self.frame = Frame(scope0, Frame(env0, None))

    def count(self, k):
        self.res.stats[k] = self.res.stats.get(k, 0) + 1

    def run(self, prog):
        for c in sexps(PRELUDE):
            self.drive(code(c, True))
        self.res.steps, self.res.stats = 0, {}
        body = L(*[code(c) for c in prog])
        try:
            self.go((self.ev_block, body, self.frame, self.stop, NULL))
        except Done as d:
            self.res.value = d.value
        return self.res

    def stop(self, v): raise Done(v)

    def drive(self, c):
        try:
            self.go((self.ev_cmd, c, self.frame, self.stop))
        except Done as d:
            return d.value

    def go(self, step):
        while True:
            self.res.steps += 1
            if self.res.steps > self.limit:
                raise OutOfModel("too many steps")
            try:
                step = step[0](*step[1:])
            except Oops as ex:
                if ex.frame is None:
                    raise RuntimeError("error without a frame: " + ex.msg)
                self.count("error")
                step = (self.ev_cmd, L(Sym("throw"), Str(ex.msg)), ex.frame, self.returned)
            except RecursionError:
                raise OutOfModel("recursion")

    def returned(self, v): raise OutOfModel("throw returned")

    # Elements: commands are run, anything else is itself.
    def ev(self, c, f, k):
        if ispair(c):
            return (self.ev_cmd, c, f, k)
        return (k, c)

    def ev_block(self, body, f, k, value):
        if body is NULL or not ispair(car(body)):
            return (k, value)
        if cdr(body) is NULL:
            return (self.ev_cmd, body.a, f, k)
        return (self.ev_cmd, body.a, f, lambda v: (self.ev_block, body.d, f, k, v))

    def value(self, f, s, n):
        if s is not None and s.expose() is not f.scope:
            r = s.lookup(n)
        else:
            s, r = f.resolve(n)
        if r is None:
            return False, None
        v = r.v
        if isinstance(v, (Builtin, Closure, Bound)):
            v = Bound(v.cmd if isinstance(v, Bound) else v, s)
        return True, v

    def ev_cmd(self, c, f, k):
        if c is NULL:
            return (k, NULL)
        args = c.d

        def head(h):
            if isinstance(h, Multi):
                raise OutOfModel("splice as head")
            if isinstance(h, Sym):
                ok, v = self.value(f, None, h)
                if ok:
                    h = v
            return (self.ex_cmd, h, args, f, k)
        return (self.ev, c.a, f, head)

    def ex_cmd(self, h, args, f, k):
        if ispair(h) or isinstance(h, (Env, Obj)):
            a = car(args)

            def member(m):
                if not isinstance(m, Sym):
                    raise Oops("member name must be a symbol not a " + name(m), f)
                r = self.lists.public.get(m) if ispair(h) else h.lookup(m)
                if r is None:
                    raise Oops("'%s' not defined" % m, f)
                if not isinstance(r.v, (Bound, Builtin, Closure)):
                    raise Oops("%s is not executable" % m, f)
                v = r.v
                self.count("member")
                return (self.ex_bound, Bound(v.cmd if isinstance(v, Bound) else v, h), cdr(args), f, k)
            return (self.ev, a, f, member)
        if isinstance(h, Bound):
            return (self.ex_bound, h, args, f, k)
        if isinstance(h, Cont):
            self.count("continuation")
            return (self.ev, car(args), f, h.k)
        if isinstance(h, (Sym, Str)):
            return (self.ev_args, args, f, lambda xs: self.external(h, xs, f, k), [])
        if isinstance(h, Num):
            raise Oops("unexpected problem evaluating command *%s.T" % {"number": "num", "status": "status"}[name(h)], f)
        raise OutOfModel("head is a " + name(h))

    def environment(self, f):
        """What a program run from this frame sees: exported names, nearest
        first, whose values have a text."""
        env = {}
        while f is not None:
            s = f.scope
            while s is not None:
                for n, r in s.public.items():
                    if n not in env and (r.v is NULL or isinstance(r.v, (Sym, Str, Num, Pair))):
                        env[n] = D.rep(datum(r.v))
                s = s.previous
            f = f.previous
        return env

    def external(self, h, xs, f, k):
        t = text(h)
        if t == "vh" and xs and xs[0] == "enval":
            env = self.environment(f)
            for n in xs[1:]:
                self.res.lines.append([D.y("env"), D.y(str(n)), D.y("x" + env[n].encode("latin-1").hex() if n in env else "-")])
            self.count("external")
            return (k, Status(0))
        if not re.match(r"nosuch[a-z0-9]*\Z", t):
            raise OutOfModel("external command " + t)
        raise Oops("%s: command not found" % t, f)

    def ev_args(self, args, f, k, done):
        if args is NULL:
            return (k, done)

        def one(v):
            d = done + (list(v) if isinstance(v, Multi) else [v])
            return (self.ev_args, args.d, f, k, d)
        return (self.ev, args.a, f, one)

    def ex_bound(self, b, args, f, k):
        c = b.cmd
        if isinstance(c, Bound):
            c = c.cmd
        if isinstance(c, Closure):
            if c.kind == "syntax":
                self.count("syntax call")
                return (self.apply, c, b.self, items(args), f, k)
            return (self.ev_args, args, f, lambda xs: (self.apply, c, b.self, xs, f, k), [])
        if c.kind == "syntax":
            return (getattr(self, "syn_" + c.id.replace("-", "_")), b.self, args, f, k)
        return (self.ev_args, args, f, lambda xs: (self.builtin, c, b.self, xs, f, k), [])

    def builtin(self, c, self_, xs, f, k):
        try:
            if c.fn is None:
                return getattr(self, "sp_" + SPECIAL[c.id])(self_, xs, f, k)
            return (k, c.fn(*( [self_] if c.id in LISTS and c.fn is LISTS[c.id] else []), xs))
        except Oops as ex:
            if ex.frame is None:
                ex.frame = f
            raise

    def apply(self, c, self_, xs, f, k):
        self.count("call")
        s = f.scope
        e = Env(c.scope)
        g = Frame(e, f) if not visible(c.scope, s) else Frame(e, f.previous)
        if g.previous is f:
            self.count("new frame")
        if c.elabel is not NULL:
            e.define(key(c.elabel), s)
        if c.slabel is not NULL:
            if not isinstance(self_, (Env, Obj)):
                raise Oops("%s cannot be used in an object context" % name(self_), g)
            e.define(key(c.slabel), self_)
        params = items(c.params)
        i = 0
        while i < len(params) and i < len(xs) and isinstance(params[i], Sym):
            e.define(str(params[i]), xs[i])
            i += 1
        if i < len(params) and isinstance(params[i], Pair) and i + 1 == len(params) and cdr(params[i]) is NULL:
            e.define(key(params[i].a), L(*xs[i:]))
        elif len(params) != len(xs):
            raise Oops("expected %s, passed %d" % (plural(len(params)), len(xs)), g)
        e.define("return", Cont(k))
        if c.body is NULL:
            raise OutOfModel("empty body")
        return (self.ev_block, c.body, g, k, NULL)

    # ---- syntax

    def syn_block(self, self_, args, f, k):
        return (self.ev_block, args, Frame(Env(f.scope), f.previous), k, NULL)

    def syn_if(self, self_, args, f, k):
        return (self.if_, args, Frame(Env(f.scope), f.previous), k)

    def if_(self, args, g, k):
        def test(v):
            code, alt = args, False
            if not truth(v):
                alt = True
                code = cdr(code)
                while isinstance(car(code), Pair):
                    code = cdr(code)
                c = car(code)
                if c is not NULL and not (isinstance(c, Sym) and c == "else"):
                    raise Oops("expected else", g)
            code = cdr(code)
            if code is NULL:
                return (k, v)
            nxt = car(code)
            if alt and not ispair(nxt):
                if not (isinstance(nxt, Sym) and nxt == "if"):
                    raise Oops("expected if", g)
                self.count("else if")
                return (self.ev_cmd, code, g, k)
            self.count("else" if alt else "then")
            return (self.ev_block, code, g, k, v)
        return (self.ev, car(args), g, test)

    def syn_while(self, self_, args, f, k):
        g = Frame(Env(f.scope), f.previous)

        def again(_):
            return (self.ev, car(args), g, test)

        def test(v):
            if not truth(v):
                return (k, v)
            self.count("iteration")
            return (self.ev_block, cdr(args), g, again, v)
        return again(None)

    def named(self, args, f, k):
        def gotkey(kv):
            rest = cdr(args)
            n = key(kv)
            if n.endswith(":"):
                n, rest = n[:-1], rest
            else:
                rest = car(rest)
            return (self.ev, rest, f, lambda v: k(n, v))
        return (self.ev, car(args), f, gotkey)

    def syn_define(self, self_, args, f, k):
        def done(n, v):
            try:
                self_.define(n, v)
            except Oops as ex:
                ex.frame = f
                raise
            return (k, v)
        return self.named(args, f, done)

    def syn_export(self, self_, args, f, k):
        def done(n, v):
            self_.export(n, v)
            return (k, v)
        return self.named(args, f, done)

    def syn_set(self, self_, args, f, k):
        def done(n, v):
            r = self_.lookup(n)
            if r is None:
                raise Oops("'%s' not defined" % n, f)
            r.v = v
            return (k, v)
        return self.named(args, f, done)

    def closure(self, kind, args, f, k):
        c = Closure()
        c.kind, c.scope = kind, f.scope
        c.slabel, first = NULL, car(args)
        args = cdr(args)
        if isinstance(first, Sym):
            c.slabel, first = first, car(args)
            args = cdr(args)
        c.params = first
        if not ispair(first):
            raise OutOfModel("parameters")
        c.elabel = NULL
        if not ispair(car(args)):
            c.elabel = car(args)
            args = cdr(args)
        c.body = args
        return (k, Bound(c, Obj(f.scope)))

    def syn_method(self, self_, args, f, k): return self.closure("method", args, f, k)
    def syn_syntax(self, self_, args, f, k): return self.closure("syntax", args, f, k)

    # ---- builtins that need the frame

    def sp_eval(self, self_, xs, f, k):
        fixed(xs, 1, 1)
        self.count("eval")
        s = self_
        if isinstance(s, Obj):
            raise OutOfModel("eval on an object")
        g = Frame(s, f) if not visible(s, f.scope) else Frame(s, f.previous)
        return (self.ev, xs[0], g, k)

    def sp_get(self, self_, xs, f, k):
        if not xs: raise OutOfModel("get of nothing")
        n = key(xs[0])
        r = self_.lookup(n)
        if r is None: raise Oops("'%s' not defined" % n)
        v = r.v
        if isinstance(v, (Bound, Builtin, Closure)):
            v = Bound(v.cmd if isinstance(v, Bound) else v, self_)
        return (k, v)

    def sp_isset(self, self_, xs, f, k):
        if not xs: raise OutOfModel("set? of nothing")
        return (k, boolv(self_.lookup(key(xs[0])) is not None))

    def sp_unset(self, self_, xs, f, k):
        if not xs: raise OutOfModel("unset of nothing")
        return (k, boolv(self_.remove(key(xs[0]))))

    def sp_resolve(self, self_, xs, f, k):
        if not xs: raise OutOfModel("resolve of nothing")
        n = key(xs[0])
        ok, v = self.value(f, self_, n)
        if not ok: raise Oops("'%s' not defined" % n)
        return (k, v)

    def sp_resolves(self, self_, xs, f, k):
        if not xs: raise OutOfModel("resolves? of nothing")
        ok, v = self.value(f, self_, key(xs[0]))
        return (k, boolv(ok))

    def sp_interpolate(self, self_, xs, f, k):
        fixed(xs, 1, 1)

        def cb(m):
            r = m.group(0)
            if r == "$$": return "$"
            n = r[1:]
            if n[0] == "{": n = n[1:-1]
            ok, v = self.value(f, self_, n)
            if not ok: raise Oops("'%s' not defined" % n)
            return text(v)
        return (k, Str(REF.sub(cb, text(xs[0]))))

    def sp_splice(self, self_, xs, f, k):
        fixed(xs, 1, 1)
        return (k, Multi(items(xs[0])))

    def sp_write(self, self_, xs, f, k):
        if not xs: raise OutOfModel("write nothing")
        self.res.lines.append([datum(x) for x in xs])
        return (k, L(*xs))

    def sp_top(self, self_, xs, f, k):
        fixed(xs, 1, 1)
        self.res.error = text(xs[0]) if not ispair(xs[0]) else datum(xs[0])
        raise Done(TRUE)

    def sp_pred(which):
        def p(self, self_, xs, f, k):
            fixed(xs, 1, 1)
            v = xs[0]
            c = v.cmd if isinstance(v, Bound) else None
            return (k, boolv({"method?": c is not None and c.kind == "method", "syntax?": c is not None and c.kind == "syntax",
                              "continuation?": isinstance(v, Cont), "object?": isinstance(v, (Env, Obj))}[which]))
        return p

    sp_ismethod = sp_pred("method?")
    sp_issyntax = sp_pred("syntax?")
    sp_iscont = sp_pred("continuation?")
    sp_isobject = sp_pred("object?")


SPECIAL = {"eval": "eval", "get": "get", "set?": "isset", "unset": "unset", "resolve": "resolve", "resolves?": "resolves",
           "interpolate": "interpolate", "splice": "splice", "write": "write", "top-throw": "top", "method?": "ismethod",
           "syntax?": "issyntax", "continuation?": "iscont", "object?": "isobject"}


# ------------------------------------------------------------------ plain builtins

def _fold(op, zero=False):
    def g(xs):
        if zero:
            r = Fraction(0)
            for x in xs: r = Num(op(r, number(x))).f
            return Num(r)
        if not xs: raise Oops("expected 1 argument, passed 0")
        r = number(xs[0])
        for x in xs[1:]:
            r = Num(op(r, number(x))).f
        return Num(r)
    return g


def _div(a, b):
    if b == 0: raise Oops("division by zero")
    return a / b


def _mod(xs):
    fixed(xs, 2, 2)
    a, b = number(xs[0]), number(xs[1])
    if a.denominator != 1: raise Oops("dividend must be an integer")
    if b.denominator != 1: raise Oops("divisor must be an integer")
    if b == 0: raise Oops("division by zero")
    return Num(a % abs(b))


def _cmp(op):
    def g(xs):
        if len(xs) < 2: raise Oops("expected 2 arguments, passed %d" % len(xs))
        prev, cur, i = number(xs[0]), number(xs[1]), 2
        while True:
            if not op(prev, cur): return NULL
            if i == len(xs): return TRUE
            prev, cur, i = cur, number(xs[i]), i + 1
    return g


def _equal(xs):
    if len(xs) < 2: raise Oops("expected 2 arguments, passed %d" % len(xs))
    return boolv(all(equal(a, b) for a, b in zip(xs, xs[1:])))


def _one(fn):
    def g(xs):
        fixed(xs, 1, 1)
        return fn(xs[0])
    return g


def _cons(xs):
    fixed(xs, 2, 2)
    return Pair(xs[0], xs[1])


def _mend(xs):
    if len(xs) < 2: raise Oops("expected 2 arguments, passed %d" % len(xs))
    t = text(xs[0]).join(text(x) for x in xs[1:])
    if len(t) > 100000: raise OutOfModel("text too long")
    return Str(t) if any(isinstance(x, Str) for x in xs[1:]) else Sym(t)


def _number(v):
    if isinstance(v, Num): return Num(v.f)
    t = text(v)
    if NUMBER.match(t): return Num(Fraction(t))
    if re.match(r"[a-zA-Z]+\Z", t) and t[0] not in "iInN": raise Oops("'%s' is not a valid number" % t)
    raise OutOfModel("number " + t)


BUILTINS = {
    "add": _fold(lambda a, b: a + b, True), "sub": _fold(lambda a, b: a - b), "mul": _fold(lambda a, b: a * b),
    "div": _fold(_div), "mod": _mod,
    "lt?": _cmp(lambda a, b: a < b), "le?": _cmp(lambda a, b: a <= b), "gt?": _cmp(lambda a, b: a > b), "ge?": _cmp(lambda a, b: a >= b),
    "equal?": _equal, "cons": _cons, "mend": _mend,
    "not": _one(lambda v: boolv(not truth(v))), "bool": _one(lambda v: boolv(truth(v))),
    "null?": _one(lambda v: boolv(v is NULL)), "cons?": _one(lambda v: boolv(ispair(v))),
    "symbol?": _one(lambda v: boolv(isinstance(v, Sym))), "string?": _one(lambda v: boolv(isinstance(v, Str))),
    "number?": _one(lambda v: boolv(isinstance(v, Num) and not isinstance(v, Status))),
    "status?": _one(lambda v: boolv(isinstance(v, Status))),
    "string": _one(lambda v: Str(text(v))), "symbol": _one(lambda v: Sym(text(v))), "number": _one(_number),
    "status": _one(lambda v: Status(number(v))),
}


# Lists.

def _lself(s):
    if s is not NULL and not isinstance(s, Pair): raise Oops("not a cons")
    return s


def proper(l):
    """Cells of the list; an improper one is an error."""
    out = []
    while l is not NULL:
        if not isinstance(l, Pair): raise Oops("not a cons")
        out.append(l)
        l = l.d
        if len(out) > 50000: raise OutOfModel("cyclic")
    return out


def l_append(s, xs):
    fixed(xs, 1, 1)
    cells = proper(s)
    p = Pair(xs[0], NULL)
    if not cells: return p
    cells[-1].d = p
    return s


def l_extend(s, xs):
    fixed(xs, 1, 1)
    if s is NULL:
        l = xs[0]
        if l is NULL: return NULL
        proper(l)
        return l
    end = proper(s)[-1]
    l = xs[0]
    n = 0
    while l is not NULL:
        if not isinstance(l, Pair): raise Oops("not a cons")
        p = Pair(l.a, NULL)
        end.d = p
        end = p
        l = l.d
        n += 1
        if n > 5000: raise OutOfModel("extending by itself")
    return s


def l_get(s, xs):
    i = integer(xs[0]) if xs else 0
    cells = proper(s)
    j = i + len(cells) if i < 0 else i
    if 0 <= j < len(cells): return cells[j].a
    if len(xs) < 2: raise Oops("index before first element" if j < 0 else "index after last element")
    return xs[1]


def l_slice(s, xs):
    fixed(xs, 1, 2)
    start = integer(xs[0])
    end = integer(xs[1]) if len(xs) == 2 else 0
    cells = proper(s)
    n = len(cells)
    if start < 0: start += n
    if start < 0: raise Oops("slice starts before first element")
    start = min(start, n)
    if end <= 0: end += n
    if end < 0: raise Oops("slice ends before first element")
    end = min(end, n)
    if end < start: raise Oops("end of slice before start")
    return L(*[c.a for c in cells[start:end]])


def l_set(which):
    def g(s, xs):
        fixed(xs, 1, 1)
        if s is NULL: raise Oops("the empty list cannot be modified")
        setattr(s, which, xs[0])
        return xs[0]
    return g


def l_head(s, xs):
    fixed(xs, 0, 0)
    return car(s)


def l_tail(s, xs):
    fixed(xs, 0, 0)
    return cdr(s)


def l_length(s, xs):
    fixed(xs, 0, 0)
    return Num(len(proper(s)))


def l_reverse(s, xs):
    fixed(xs, 0, 0)
    return L(*[c.a for c in reversed(proper(s))])


LISTS = {"append": l_append, "extend": l_extend, "get": l_get, "head": l_head, "length": l_length, "reverse": l_reverse,
         "set-head": l_set("a"), "set-tail": l_set("d"), "slice": l_slice, "tail": l_tail}


def run(prog, limit=60000):
    return Machine(limit).run(prog)


# ------------------------------------------------------------------ comparing with oh

ERR = re.compile(rb"^error: (.*)\Z", re.S | re.M)


def compare(ctx, prog, res, fmt=None, **kw):
    """Runs the program in oh; a reason if it does not do what the model did."""
    src = render(prog) if fmt is None else fmt(prog)
    r = ctx.script(src, **kw)
    if r.hang:
        return "%s: %r; program:\n%s" % (r.hang, r, src)
    try:
        got = D.lines(r.out)
    except D.Bad as ex:
        return "unreadable output (%s): %r; program:\n%s" % (ex, r, src)
    if got != res.lines:
        n = 0
        while n < len(got) and n < len(res.lines) and got[n] == res.lines[n]:
            n += 1
        return "line %d written is %s, should be %s (error expected %r; standard error %r); program:\n%s" % (
            n + 1, got[n] if n < len(got) else "missing", res.lines[n] if n < len(res.lines) else "absent", res.error, r.err[:600], src)
    # An uncaught error ends the program with its message, last, on standard error.
    if res.error is None:
        if r.err:
            return "unexpected standard error %r; program:\n%s" % (r.err[:600], src)
    else:
        tail = b"error: %s\n" % (res.error.encode("latin-1") if isinstance(res.error, str) else b"")
        if isinstance(res.error, str) and not r.err.endswith(tail):
            return "standard error %r should end in %r; program:\n%s" % (r.err[:600], tail, src)
        if not isinstance(res.error, str) and not r.err:
            return "no error reported, expected %r; program:\n%s" % (res.error, src)
    return None
