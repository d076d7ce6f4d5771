"""C14: list operations agree with a heap of cons cells, including sharing."""
from hypothesis import strategies as st
import ohcalc as K
import ohdata as D
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "stateful property-based testing: random operation histories against a model heap of cons cells"
ASSUMPTIONS = ["lists are finite: operations that would make a list contain itself are left out",
               "what () extend L shares with L is not compared (nothing is in place there)"]

VARS = "abcd"


class Cell:
    __slots__ = ("a", "d")

    def __init__(self, a, d): self.a, self.d = a, d


class Oops(Exception):
    pass


# A value: None (the empty list), a Cell, or a datum (["y", ..]).
def show(v):
    if v is None:
        return None
    if isinstance(v, Cell):
        items = []
        while isinstance(v, Cell):
            items.append(show(v.a))
            v = v.d
        return D.lst(items, show(v))
    return v


def items(v):
    out = []
    while v is not None:
        if not isinstance(v, Cell):
            raise Oops()
        out.append(v)
        v = v.d
    return out


def mk(vals, tail=None):
    for x in reversed(vals):
        tail = Cell(x, tail)
    return tail


def reaches(v, cells):
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if isinstance(x, Cell) and id(x) not in seen:
            seen.add(id(x))
            if any(x is c for c in cells):
                return True
            todo += [x.a, x.d]
    return False


def size(v):
    """How much printing it takes."""
    memo = {}

    def go(x):
        n = 0
        while isinstance(x, Cell):
            if id(x) in memo:
                return n + memo[id(x)]
            a = go(x.a) if isinstance(x.a, Cell) else 1
            n += a
            if n > 3000:
                return n
            x = x.d
        return n + 1
    return go(v)


def atom(): return st.one_of(st.integers(-3, 12).map(lambda n: ["y", str(n)]), st.sampled_from([["s", "t"], ["y", "w"], ["n", "7"], None]))


def arg(): return st.one_of(atom(), atom(), st.sampled_from(VARS).map(lambda v: "$" + v), st.lists(atom(), max_size=3).map(lambda l: ["L"] + l))


@st.composite
def step(draw):
    v = draw(st.sampled_from(VARS))
    w = draw(st.sampled_from(VARS))
    op = draw(st.sampled_from(["list", "cons", "alias", "tail", "tail", "slice", "slice", "reverse", "splice", "append", "append", "append", "extend", "extend",
                               "set-head", "set-head", "set-tail", "set-tail", "get", "get", "head", "length", "pass", "map", "nth-alias", "nth-head"]))
    s = {"op": op, "v": v, "w": w, "to": draw(st.sampled_from(VARS)) if op in ("append", "extend") and draw(st.booleans()) else None}
    idx = st.one_of(st.integers(-7, 7), st.sampled_from([0, 1, -1, 10 ** 6, -10 ** 6, 2 ** 40]))
    if op == "list":
        s["l"] = draw(st.lists(arg(), max_size=6))
    elif op in ("cons", "append", "set-head", "pass", "splice"):
        s["x"] = draw(arg())
    elif op == "set-tail":
        s["x"] = draw(st.one_of(arg(), st.sampled_from(VARS).map(lambda v: "$" + v), st.none()))
    elif op == "extend":
        s["x"] = draw(st.one_of(st.sampled_from(VARS).map(lambda v: "$" + v), st.lists(atom(), max_size=3).map(lambda l: ["L"] + l), atom()))
    elif op == "slice":
        s["i"], s["j"] = draw(idx), draw(st.one_of(st.none(), idx))
    elif op == "get":
        s["i"], s["x"] = draw(st.one_of(st.none(), idx)), draw(st.one_of(st.none(), arg().map(lambda a: ["D", a])))
    elif op in ("nth-alias", "nth-head"):
        s["i"] = draw(st.integers(0, 4))
        s["x"] = draw(atom())
    return s


def case_st():
    init = st.lists(atom(), min_size=1, max_size=5)
    return st.fixed_dictionaries({"init": st.lists(init, min_size=4, max_size=4), "steps": st.lists(step(), min_size=2, max_size=18)})


def srcarg(x):
    if isinstance(x, str):
        return x
    if isinstance(x, list) and x and x[0] == "L":
        return "(list %s)" % " ".join(D.source(i) for i in x[1:]) if len(x) > 1 else "(list)"
    return D.source(x)


def check(ctx, case):
    S = {k: mk([i for i in l]) for k, l in zip(VARS, case["init"])}
    setup = "".join("define %s: list %s\n" % (k, " ".join(D.source(i) for i in l)) for k, l in zip(VARS, case["init"]))
    setup += "define keep: method (l x) {\n l append $x\n return $l\n}\n"
    show_all = "$a $b $c $d"

    def val(x):
        if isinstance(x, str):
            return S[x[1:]]
        if isinstance(x, list) and x and x[0] == "L":
            return mk(x[1:])
        return x

    def grow(v, extra):
        """In place: what append and extend do."""
        if v is not None and not isinstance(v, Cell):
            raise Oops()
        if v is None:
            return mk(extra)
        c = items(v)
        c[-1].d = mk(extra)
        return v

    exprs, want, states = [], [], []
    shared = mutated = False
    for s in case["steps"]:
        op, v, w = s["op"], s["v"], s["w"]
        V, W = S[v], S[w]
        e, to, r = None, None, None
        try:
            if op == "list":
                to, e = v, "(list %s)" % " ".join(map(srcarg, s["l"])) if s["l"] else "(list)"
                r = mk([val(x) for x in s["l"]])
            elif op == "cons":
                to, e = v, "(cons %s $%s)" % (srcarg(s["x"]), w)
                r = Cell(val(s["x"]), W)
            elif op == "alias":
                to, e, r = v, "$" + w, W
            elif op in ("tail", "head"):
                to, e = (v if op == "tail" else None), "($%s %s)" % (w, op)
                if W is not None and not isinstance(W, Cell):
                    raise Oops()
                r = (W.d if op == "tail" else W.a) if W is not None else None
            elif op == "slice":
                to, e = v, "($%s slice %d%s)" % (w, s["i"], "" if s["j"] is None else " %d" % s["j"])
                c = items(W)
                n, i, j = len(c), s["i"], s["j"] or 0
                i = n + i if i < 0 else i
                if i < 0:
                    raise Oops("slice starts before first element")
                i = min(i, n)
                j = n + j if j <= 0 else j
                if j < 0:
                    raise Oops("slice ends before first element")
                j = min(j, n)
                if j < i:
                    raise Oops("end of slice before start")
                r = mk([x.a for x in c[i:j]])
            elif op == "reverse":
                to, e = v, "($%s reverse)" % w
                r = mk([x.a for x in reversed(items(W))])
            elif op == "splice":
                to, e = v, "(list %s (splice $%s) 9)" % (srcarg(s["x"]), w)
                r = mk([val(s["x"])] + [x.a for x in items(W)] + [["y", "9"]])
            elif op == "append":
                x = val(s["x"])
                if reaches(x, items(V) if isinstance(V, Cell) else []):
                    continue
                to, e = s["to"], "($%s append %s)" % (v, srcarg(s["x"]))
                r = grow(V, [x])
                mutated = True
            elif op == "extend":
                X = val(s["x"])
                if V is None or reaches(mk([c.a for c in items(X)]), items(V)):
                    continue
                to, e = s["to"], "($%s extend %s)" % (v, srcarg(s["x"]))
                r = grow(V, [c.a for c in items(X)])
                mutated = True
            elif op == "set-head":
                x = val(s["x"])
                if V is not None and reaches(x, [V]):
                    continue
                e = "($%s set-head %s)" % (v, srcarg(s["x"]))
                if not isinstance(V, Cell):
                    raise Oops()
                V.a = r = x
                mutated = True
            elif op == "set-tail":
                x = val(s["x"])
                if V is not None and reaches(x, [V]):
                    continue
                e = "($%s set-tail %s)" % (v, srcarg(s["x"]))
                if not isinstance(V, Cell):
                    raise Oops()
                V.d = r = x
                mutated = True
            elif op == "get":
                d = s["x"]
                e = "($%s get%s%s)" % (v, "" if s["i"] is None else " %d" % s["i"], "" if d is None or s["i"] is None else " " + srcarg(d[1]))
                if s["i"] is None:
                    d = None
                c = items(V)
                i = s["i"] or 0
                i = len(c) + i if i < 0 else i
                if 0 <= i < len(c):
                    r = c[i].a
                elif d is None:
                    raise Oops("index before first element" if i < 0 else "index after last element")
                else:
                    r = val(d[1])
            elif op == "length":
                e = "($%s length)" % v
                r = ["n", str(len(items(V)))]
            elif op == "pass":
                x = val(s["x"])
                if reaches(x, items(V) if isinstance(V, Cell) else []):
                    continue
                e = "(keep $%s %s)" % (v, srcarg(s["x"]))
                grow(V, [x])
                r = V
                mutated = True
            elif op == "map":
                to, e = v, "(for $%s (method (x) {\n return (cons $x ())\n}))" % w
                r = mk([Cell(x.a, None) for x in items(W)])
            elif op in ("nth-alias", "nth-head"):
                # The rest from the i-th cell on, by way of tail.
                t, T = "$" + w, W
                for _ in range(s["i"]):
                    t = "(%s tail)" % t
                    if T is not None:
                        if not isinstance(T, Cell):
                            raise Oops()
                        T = T.d
                if op == "nth-alias":
                    to, e, r = v, t, T
                else:
                    e = "(%s set-head %s)" % (t, srcarg(s["x"]))
                    if not isinstance(T, Cell):
                        raise Oops()
                    T.a = r = s["x"]
                    mutated = True
        except Oops as ex:
            if e is None:
                continue
            # What is done to something that is no list may fail in many ways.
            w_ = ("ex", str(ex) or None)
            to_ = None
        else:
            w_ = ("v", r)
            if to:
                S[to] = r
        if any(size(x) > 400 for x in S.values()):
            break
        cells = [id(c) for k in VARS if isinstance(S[k], Cell) for c in _cells(S[k])]
        if mutated and len(cells) != len(set(cells)):
            shared = True
        exprs.append(e if not (w_[0] == "v" and to) else (None, "(set %s %s)" % (to, e)))
        want.append((w_[0], show(w_[1]) if w_[0] == "v" else w_[1]))
        states.append([show(S[k]) for k in VARS])
        ctx.label(op, "throws" if w_[0] == "ex" else "value")
    ctx.nontrivial = shared and len(exprs) >= 2
    # After every step all of the variables.
    both = []
    for e in exprs:
        both += [e if isinstance(e, str) else e[1], "(list %s)" % show_all]
    try:
        got, _, src = K.run(ctx, setup, both)
    except K.Odd as ex:
        return str(ex)
    for i, (w_, s_) in enumerate(zip(want, states)):
        g, a = got[2 * i], got[2 * i + 1]
        if w_[0] == "ex":
            ok = g[0] == "ex" and (w_[1] is None or g[1] == w_[1])
        else:
            ok = g == w_
        if not ok:
            return "%s gave %r, should be %r\n%s" % (both[2 * i], g, w_, src)
        if a != ("v", D.lst(s_)):
            return "after %s the variables are %r, should be %r\n%s" % (both[2 * i], a, D.lst(s_), src)


def _cells(v):
    out = []
    while isinstance(v, Cell):
        out.append(v)
        v = v.d
    return out


PARTS = [
    Part("histories", case_st, check, 2200, 60000,
         "up to 18 operations (list, cons, append, extend, set-head, set-tail, head, tail, get, slice, reverse, length, splice, for, passing to a method) on four "
         "variables holding nested and shared lists; every result and, after every step, every variable must be as in the model. Non-trivial: cells "
         "shared by two variables, or twice within one, after a change in place"),
]
