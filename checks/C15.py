"""C15: objects and maps behave as independent name/value stores."""
from fractions import Fraction
import json

from hypothesis import strategies as st
import ohcalc as K
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "stateful property-based testing: random operation histories on several maps and objects against a model of each"
ASSUMPTIONS = ["names a map or object uses for its own operations (get, set, ...) are not used as keys, nor symbols ending in a colon, nor lists (whose literal form as a name has no outer brackets)"]

# ------------------------------------------------------------------ maps

KEYS = [["y", "a"], ["s", "a"], ["y", "b"], ["y", "1"], ["s", "1"], ["n", "1"], ["n", "1/2"], ["t", "1"],
        ["y", ""], ["s", ""], ["y", "a b"], ["s", "a b"], ["y", "(|number 1|)"], ["y", "(1)"], ["s", "()"], ["y", "()"], ["s", "x\ny"], ["y", "$a"], ["s", "é".encode().decode("latin-1")],
        ["y", "self"], ["y", "return"], ["y", "PATH"], ["y", "true"], ["y", "map"]]


def datum(): return st.one_of(st.integers(-3, 30).map(lambda n: ["y", str(n)]), st.sampled_from([["s", "txt"], None, ["n", "5/2"], D.lst([["y", "p"], ["s", "q"]])]))


@st.composite
def map_step(draw, keys):
    m = st.integers(0, 2)
    key = st.sampled_from(keys)
    op = draw(st.sampled_from(["set", "set", "set", "get", "get", "has", "del", "alias", "new", "same", "nest", "into", "method", "call", "by-method"]))
    args = {"set": [key, datum()], "get": [key], "has": [key], "del": [key], "alias": [m], "new": [], "same": [m], "nest": [key, m], "into": [key, key, datum()],
            "method": [st.sampled_from(["a", "b", "f"])], "call": [st.sampled_from(["a", "b", "f", "zz"]), key], "by-method": [key, datum()]}[op]
    return [op, draw(m)] + [draw(a) for a in args]


@st.composite
def map_case(draw):
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=2, max_size=5))
    if draw(st.booleans()):
        keys += [["y", "a"], ["s", "a"]]
    return draw(st.lists(map_step(keys), min_size=8, max_size=25))


def kid(k): return json.dumps(k)


# Methods made under a handler would keep using it, so they are made here.
OWN = """define own: method self (k) {
 return (self holds $k)
}
define own-map: method self (k) {
 return (self has $k)
}
"""
SETUP = OWN + """define put: method (m k v) {
 m set $k $v
}
"""


def maps(ctx, case):
    M = [{}, {}, {}]
    exprs, want = [], []
    setup = SETUP + "define m0: map\ndefine m1: map\ndefine m2: map\n"
    T = ["y", "true"]

    def data(v): return v[1] if v[0] == "d" else None
    hits = 0
    for s in case:
        op, i = s[0], s[1]
        m = M[i]
        k = s[2] if len(s) > 2 else None
        ks = D.source(k) if op in ("set", "get", "has", "del", "nest", "into", "by-method") else None
        w = None
        if op in ("set", "by-method"):
            e = "(m%d set %s %s)" % (i, ks, D.source(s[3])) if op == "set" else "(put $m%d %s %s)" % (i, ks, D.source(s[3]))
            m[kid(k)] = ("d", s[3])
            w = ("v", s[3])
        elif op == "get":
            e = "(m%d get %s)" % (i, ks)
            v = m.get(kid(k))
            if v is None:
                w = ("ex", None)
            elif v[0] != "d":
                continue
            else:
                hits += 1
                w = ("v", v[1])
        elif op in ("has", "del"):
            e = "(m%d %s %s)" % (i, op, ks)
            w = ("v", T if kid(k) in m else None)
            hits += kid(k) in m
            if op == "del":
                m.pop(kid(k), None)
        elif op == "alias":
            e = "(bool (set m%d $m%d))" % (i, s[2])
            M[i] = M[s[2]]
            w = ("v", T)
        elif op == "new":
            e = "(bool (set m%d (map)))" % i
            M[i] = {}
            w = ("v", T)
        elif op == "same":
            e = "(equal? $m%d $m%d)" % (i, s[2])
            w = ("v", T if M[i] is M[s[2]] else None)
        elif op == "nest":
            e = "(object? (m%d set %s $m%d))" % (i, ks, s[3])
            m[kid(k)] = ("m", M[s[3]])
            w = ("v", T)
        elif op == "into":
            e = "((m%d get %s) set %s %s)" % (i, ks, D.source(s[3]), D.source(s[4]))
            v = m.get(kid(k))
            if v is not None and v[0] == "m":
                v[1][kid(s[3])] = ("d", s[4])
                w = ("v", s[4])
            elif v is None or v[1] is None or isinstance(v[1], list) and v[1][0] == "p":
                w = ("ex", None)
            else:
                continue
        elif op == "method":
            e = "(method? (m%d set %s $own-map))" % (i, k)
            m[kid(["y", k])] = ("f", None)
            w = ("v", T)
        elif op == "call":
            e = "(m%d %s %s)" % (i, k, D.source(s[3]))
            v = m.get(kid(["y", k]))
            if v is None:
                w = ("ex", "'%s' not defined" % k)
            elif v[0] != "f":
                w = ("ex", "%s is not executable" % k)
            else:
                hits += 1
                w = ("v", T if kid(s[3]) in m else None)
        exprs.append(e)
        want.append(w)
        ctx.label("map " + op, "throws" if w[0] == "ex" else "value")
    # What each holds in the end.
    for i, m in enumerate(M):
        for k in KEYS:
            exprs.append("(m%d has %s)" % (i, D.source(k)))
            want.append(("v", T if kid(k) in m else None))
            v = m.get(kid(k))
            if v is not None and v[0] == "d":
                exprs.append("(m%d get %s)" % (i, D.source(k)))
                want.append(("v", v[1]))
    ctx.nontrivial = hits >= 1
    return compare(ctx, setup, exprs, want)


def compare(ctx, setup, exprs, want):
    try:
        got, _, src = K.run(ctx, setup, exprs)
    except K.Odd as ex:
        return str(ex)
    for e, w, g in zip(exprs, want, got):
        if g[0] != w[0] or g[0] == "v" and g != w or g[0] == "ex" and w[1] is not None and g != w:
            return "%s gave %r, should be %r\n%s" % (e, g, w, src)


# ------------------------------------------------------------------ objects

MAKE = """define make: method (n) {
 object {
  define hidden $n
  define log: list $n
  define both 1
  export both 2
  define helper: method (k) {
   log append $k
   set hidden: add $hidden $k
  }
  export shown $n
  export peek: method () {
   return (list $hidden $n $log $both)
  }
  export bump: method self (k) {
   helper $k
   set shown: add $shown $k
   return $self
  }
  export twice: method self (k) {
   self bump $k
   self bump $k
   return (self peek)
  }
  export grow: method self (k v) {
   self store $k $v
   return (self holds $k)
  }
  export child: method (k) {
   make (add $hidden $k)
  }
  export fetch $get
  export holds $set?
  export store $export
  export put $set
  export drop $unset
  export def $define
 }
}
"""
NAMES = ["shown", "hidden", "x", "y", "peek", "both", "log", "helper", "m", "make", "zz", "self"]


def obj_step():
    o = st.integers(0, 2)
    n = st.sampled_from(NAMES)
    small = st.integers(-5, 9)
    return st.one_of(
        st.tuples(st.just("bump"), o, small), st.tuples(st.just("bump"), o, small), st.tuples(st.just("twice"), o, small), st.tuples(st.just("peek"), o),
        st.tuples(st.just("fetch"), o, n), st.tuples(st.just("holds"), o, n), st.tuples(st.just("store"), o, n, datum()), st.tuples(st.just("put"), o, n, datum()),
        st.tuples(st.just("drop"), o, n), st.tuples(st.just("def"), o, n), st.tuples(st.just("call"), o, n), st.tuples(st.just("grow"), o, n, datum()),
        st.tuples(st.just("make"), o, small), st.tuples(st.just("child"), o, o, small), st.tuples(st.just("alias"), o, o), st.tuples(st.just("same"), o, o),
        st.tuples(st.just("set-out"), o, n), st.tuples(st.just("method"), o, n),
    ).map(list)


def obj_case(): return st.lists(obj_step(), min_size=3, max_size=18)


class O:
    def __init__(self, n):
        self.n, self.hidden, self.log = n, n, [n]
        self.pub = {"both": ("d", ["y", "2"]), "shown": ("d", n), "peek": ("peek",)}


def num(d): return ["n", d[1]] if d[0] == "y" else d


def plus(d, k):
    """add of a datum and a small number, or None."""
    if d is None or d[0] not in "ynt":
        return None
    try:
        return D.n(Fraction(d[1]) + k)
    except ValueError:
        return None


def objects(ctx, case):
    obs = [O(["y", str(i)]) for i in (1, 2, 3)]
    setup = OWN + MAKE + "".join("define o%d: make %d\n" % (i, i + 1) for i in range(3))
    T = ["y", "true"]
    exprs, want = [], []
    methods = 0

    def call(o, name):
        v = o.pub.get(name)
        if v is None:
            raise KeyError("'%s' not defined" % name)
        if v[0] == "d":
            raise KeyError("%s is not executable" % name)
        return v[0]

    def peek(o):
        if call(o, "peek") == "own":
            raise KeyError("expected 1 argument, passed 0")
        return D.lst([o.hidden, o.n, D.lst(o.log), ["y", "1"]])

    def bump(o, k):
        o.log.append(["y", str(k)])
        o.hidden = plus(o.hidden, k)
        v = o.pub.get("shown")
        r = plus(v[1], k) if v and v[0] == "d" else None
        if r is None:
            raise KeyError(None)
        o.pub["shown"] = ("d", r)
    for s in case:
        op, i = s[0], s[1]
        o = obs[i]
        a = s[2] if len(s) > 2 else None
        try:
            if op == "bump":
                e = "(equal? $o%d (o%d bump %d))" % (i, i, a)
                bump(o, a)
                w = ("v", T)
                methods += 1
            elif op == "twice":
                e = "(o%d twice %d)" % (i, a)
                bump(o, a)
                bump(o, a)
                w = ("v", peek(o))
                methods += 1
            elif op == "peek":
                e = "(o%d peek)" % i
                w = ("v", peek(o))
            elif op == "fetch":
                e = "(o%d fetch %s)" % (i, a)
                v = o.pub.get(a)
                if v is not None and v[0] != "d":
                    e, w = "(bool %s)" % e, ("v", T)
                elif v is None:
                    raise KeyError("'%s' not defined" % a)
                else:
                    w = ("v", v[1])
            elif op == "holds":
                e, w = "(o%d holds %s)" % (i, a), ("v", T if a in o.pub else None)
            elif op == "store":
                e, w = "(o%d store %s %s)" % (i, a, D.source(s[3])), ("v", s[3])
                o.pub[a] = ("d", s[3])
            elif op == "put":
                e, w = "(o%d put %s %s)" % (i, a, D.source(s[3])), ("v", s[3])
                if a not in o.pub:
                    raise KeyError("'%s' not defined" % a)
                o.pub[a] = ("d", s[3])
            elif op == "drop":
                e, w = "(o%d drop %s)" % (i, a), ("v", T if a in o.pub else None)
                o.pub.pop(a, None)
            elif op == "def":
                e = "(o%d def %s 1)" % (i, a)
                raise KeyError("private names cannot be added to object")
            elif op == "call":
                e = "(o%d %s)" % (i, a)
                c = call(o, a)
                if c == "own":
                    raise KeyError("expected 1 argument, passed 0")
                w = ("v", peek(o))
            elif op == "grow":
                e, w = "(o%d grow %s %s)" % (i, a, D.source(s[3])), ("v", T)
                o.pub[a] = ("d", s[3])
                methods += 1
            elif op == "make":
                e, w = "(object? (set o%d (make %d)))" % (i, a), ("v", T)
                obs[i] = O(["y", str(a)])
            elif op == "child":
                # Made by a method of an object, unless it hides the maker.
                e = "(object? (set o%d (o%d child %d)))" % (a, i, s[3])
                if "make" in o.pub:
                    if o.pub["make"][0] == "own":
                        continue
                    raise KeyError(None)
                obs[a] = O(plus(o.hidden, s[3]))
                w = ("v", T)
            elif op == "alias":
                e, w = "(object? (set o%d $o%d))" % (i, a), ("v", T)
                obs[i] = obs[a]
            elif op == "same":
                e, w = "(equal? $o%d $o%d)" % (i, a), ("v", T if o is obs[a] else None)
            elif op == "set-out":
                # There is no such operation on these.
                e = "(o%d %s %s 5)" % (i, "set", a)
                raise KeyError("'set' not defined")
            elif op == "method":
                e, w = "(method? (o%d store %s $own))" % (i, a), ("v", T)
                o.pub[a] = ("own",)
        except KeyError as ex:
            w = ("ex", ex.args[0])
        exprs.append(e)
        want.append(w)
        ctx.label("object " + op, "throws" if w[0] == "ex" else "value")
    for i, o in enumerate(obs):
        for n in NAMES:
            v = o.pub.get(n)
            exprs.append("(o%d holds %s)" % (i, n))
            want.append(("v", T if v else None))
            if v and v[0] == "d":
                exprs.append("(o%d fetch %s)" % (i, n))
                want.append(("v", v[1]))
        try:
            w = ("v", peek(o))
        except KeyError as ex:
            w = ("ex", ex.args[0])
        exprs.append("(o%d peek)" % i)
        want.append(w)
    ctx.nontrivial = methods >= 1 and len(case) >= 4
    return compare(ctx, setup, exprs, want)


PARTS = [
    Part("maps", map_case, maps, 1000, 25000,
         "up to 25 operations (set, get, has, del, copies of the reference, nested maps, methods stored and called, setting through a method) on three maps with keys of "
         "every kind that differ only in their literal form; every result, and at the end all of the keys of each map. Non-trivial: an operation meets a key that is there"),
    Part("objects", obj_case, objects, 1000, 25000,
         "up to 18 operations on three instances of one constructor with private variables, a private method, a name both private and public, methods that "
         "use self, and exported get, set?, export, set, unset and define. Every result and, at the end, every member of each. Non-trivial: a method changed an object"),
]
