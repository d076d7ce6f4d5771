"""Generator of programs in the form ohmodel runs.

Programs are built statement by statement with an idea of what is in scope,
so that most references mean something; names come from small pools so that
they shadow, capture and collide. Choice 0 is always the simplest, for
shrinking.
"""
from hypothesis import strategies as st

VARS = ["a", "b", "c", "x", "y"]
METHS = ["f", "g", "h"]
SYNS = ["s1", "s2"]
WORDS = ["w", "foo", "no", "else1", "t-1", "Z"]


class G:
    def __init__(self, draw, feats, budget=24):
        self.draw, self.feats, self.budget = draw, set(feats), budget
        self.uid = 0
        self.scopes = [{"a": "num", "b": "num"}]
        self.meth = 0          # depth of methods around here
        self.loops = 0
        self.ret = []          # kinds of enclosing methods

    def i(self, n): return self.draw(st.integers(0, n - 1))
    def chance(self, n): return self.i(n) == n // 2 + 1   # rare when n is large
    def pick(self, xs): return xs[self.i(len(xs))]

    def fresh(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def visible(self, want):
        seen = {}
        for s in self.scopes:
            seen.update(s)
        return [n for n, k in seen.items() if want(k)]

    def bind(self, n, kind): self.scopes[-1][n] = kind

    # ---------------------------------------------------------------- expressions

    def num(self, d):
        vs = self.visible(lambda k: k == "num")
        c = self.i(9)
        if c <= 2 or d <= 0:
            return str(self.i(6)) if not vs or c < 1 else "$" + self.pick(vs)
        if c <= 4:
            return [self.pick(["add", "sub", "mul"]), self.num(d - 1), self.num(d - 1)]
        if c == 5:
            fs = self.visible(lambda k: isinstance(k, tuple) and k[0] == "meth" and k[2])
            if fs:
                return self.call(self.pick(fs), d - 1)
        if c == 6:
            ls = self.visible(lambda k: k == "list")
            if ls:
                return [self.pick(ls), "length"]
        if c == 7:
            return self.traced(self.num(d - 1))
        if c == 8:
            return ["if", self.boolean(d - 1), {"b": [["add", self.num(d - 1)]]}, "else", {"b": [["add", self.num(d - 1)]]}]
        return ["add", "1", self.num(d - 1)]

    def traced(self, e):
        self.uid += 1
        return ["t", str(self.uid), e]

    def boolean(self, d):
        c = self.i(8)
        if d <= 0 or c <= 1:
            return [self.pick(["lt?", "gt?", "equal?", "le?", "ge?"]), self.num(0), self.num(0)]
        if c == 2: return self.pick(["true", []])
        if c == 3: return ["not", self.boolean(d - 1)]
        if c == 4: return ["and"] + [self.boolean(d - 1) for _ in range(1 + self.i(3))]
        if c == 5: return ["or"] + [self.boolean(d - 1) for _ in range(1 + self.i(3))]
        if c == 6: return self.traced(self.boolean(d - 1))
        return self.any(d - 1)

    def any(self, d):
        c = self.i(16)
        if c <= 2 or d <= 0:
            vs = self.visible(lambda k: k in ("num", "any", "list"))
            if vs and c:
                return "$" + self.pick(vs)
            return self.pick(["1", "foo", {"s": "a b"}, [], {"n": "1/2"}])
        if c == 3: return self.num(d)
        if c == 4: return self.boolean(d)
        if c == 5: return ["list"] + [self.any(d - 1) for _ in range(self.i(4))]
        if c == 6:
            fs = self.visible(lambda k: isinstance(k, tuple) and k[0] == "meth")
            if fs: return self.call(self.pick(fs), d - 1)
        if c == 7: return self.traced(self.any(d - 1))
        if c == 8:
            vs = self.visible(lambda k: k == "num")
            if vs: return {"q": self.pick(["v=$%s.", "${%s}", "$$%s $%s", "x${%s}y"]).replace("%s", self.pick(vs))}
        if c == 9: return self.braced(["block"], d - 1)
        if c == 10: return self.ifexpr(d - 1)
        if c == 11: return self.lambda_call(d - 1)
        if c == 12: return self.listop(d - 1)
        if c == 13: return ["list", ["splice", self.listexpr(d - 1)], self.any(d - 1)]
        if c == 14 and "code" in self.feats: return self.codeexpr(d - 1)
        if c == 15 and "obj" in self.feats: return self.objexpr(d - 1)
        return self.num(d)

    def listexpr(self, d):
        ls = self.visible(lambda k: k == "list")
        if ls and self.i(2):
            return "$" + self.pick(ls)
        return ["list"] + [self.any(d - 1) for _ in range(self.i(4))]

    def listop(self, d):
        l = self.listexpr(d)
        h = l[1:] if isinstance(l, str) else l
        if h == []:
            h = ["list"]
        c = self.i(7)
        if c == 0: return [h, "head"]
        if c == 1: return [h, "tail"]
        if c == 2: return [h, "length"]
        if c == 3: return [h, "reverse"]
        if c == 4: return [h, "get", self.pick(["0", "1", "-1"]), "dflt"]
        if c == 5: return ["for", l, self.lam(1, d)]
        return [h, "slice", self.pick(["0", "1"])]

    def args(self, params, d):
        fixed, rest = params
        out = [self.num(d) for _ in range(fixed)]
        if rest:
            out += [self.any(d - 1) for _ in range(self.i(4))]
        if self.chance(40) and "err" in self.feats:
            out = out[:-1] if out and self.i(2) else out + ["9"]
        return out

    def call(self, f, d):
        k = None
        for s in self.scopes:
            k = s.get(f, k)
        return [f] + self.args(k[1], d)

    def lam(self, n, d):
        ps = VARS[:n]
        return ["method", list(ps), self.body(ps, [], d, False)]

    def lambda_call(self, d):
        n = self.i(3)
        return [self.lam(n, d)] + [self.num(d - 1) for _ in range(n)]

    def ifexpr(self, d):
        out = ["if", self.boolean(d), self.blk(d)]
        c = self.i(4)
        if c == 1: out += ["else", self.blk(d)]
        if c >= 2: out += ["else", "if", self.boolean(d), self.blk(d)]
        if c == 3: out += ["else", self.blk(d)]
        return out

    def braced(self, head, d): return head + [self.blk(d)]

    def blk(self, d, names=()):
        self.scopes.append(dict(names))
        b = self.stmts(d, 1 + self.i(3))
        self.scopes.pop()
        return {"b": b}

    def body(self, ps, rest, d, isnum):
        self.scopes.append({p: "num" for p in ps})
        for r in rest:
            self.bind(r, "list")
        self.meth += 1
        b = self.stmts(d, 1 + self.i(3))
        if isnum:
            b.append(["return", self.num(d)] if self.i(2) else ["add", self.num(d)])
        elif self.i(3):
            b.append(["return", self.any(d)])
        self.meth -= 1
        self.scopes.pop()
        return {"b": b}

    # ---------------------------------------------------------------- code as data

    def codeexpr(self, d):
        c = self.i(7)
        if c == 0: return ["quote", self.any(d)]
        if c == 1: return ["eval", ["quote", self.any(d)]]
        if c == 2: return ["eval", ["list", self.pick(["add", "list", "mul"]), self.num(d), self.num(d)]]
        if c == 3: return ["quasiquote", self.template(d)]
        if c == 4: return ["eval", ["quasiquote", ["list", self.template(d), ["unquote", self.num(d)]]]] if self.i(2) else \
            ["eval", ["quasiquote", ["add", ["unquote", self.num(d)], self.num(d)]]]
        if c == 5:
            ss = self.visible(lambda k: isinstance(k, tuple) and k[0] == "syn")
            if ss:
                s = self.pick(ss)
                k = [x[s] for x in self.scopes if s in x][-1]
                return [s] + [self.any(d) for _ in range(k[1])]
        return ["eval", ["cons", "list", ["quote", [self.any(d), self.any(d - 1)]]]]

    def template(self, d):
        c = self.i(4)
        if c == 0 or d <= 0: return self.pick(["p", "7", {"s": "s t"}, []])
        if c == 1: return ["unquote", self.any(d - 1)]
        return [self.template(d - 1) for _ in range(1 + self.i(3))]

    def syntaxdef(self, d):
        """A syntax that evaluates, skips or repeats its arguments."""
        n = self.pick(SYNS)
        c = self.i(7)
        ps = ["p", "q"][:1 + self.i(2)]
        self.scopes.append({})
        b = []
        if self.i(3) == 2:
            b.append(["define", self.pick(VARS), self.num(d - 1)])
        ev = ["e", "eval", "$" + ps[-1]]
        if c == 0: b.append(["return", ev])
        if c == 1: b.append(["return", ["list", ev, ["e", "eval", "$" + ps[0]]]])
        if c == 2: b.append(["return", "$" + ps[-1]])
        if c == 3: b += [["if", ["e", "eval", "$" + ps[0]], {"b": [["return", ev]]}], ["return", "skipped"]]
        if c == 4: b += [["e", "eval", ["list", "define", self.pick(VARS), "$" + ps[-1]]], ["return", ev]]
        # What it exports, and its handler, are found by what it evaluates.
        if c == 5: b += [["export", self.pick(VARS), self.pick(["x1", "x2"])], ["return", ev]]
        if c == 6: b += [["catch", "ex", {"b": [["return", ["list", "guarded", "$ex"]]]}], ev]
        self.scopes.pop()
        out = ["define", n + ":", "syntax", list(ps), "e", {"b": b}]
        self.bind(n, ("syn", len(ps)))
        return out

    # ---------------------------------------------------------------- objects

    def objexpr(self, d):
        os_ = self.visible(lambda k: isinstance(k, tuple) and k[0] == "obj")
        if not os_:
            return self.num(d)
        o = self.pick(os_)
        c = self.i(3)
        if c == 0: return [o, "get-v"]
        if c == 1: return [o, "set-v", self.num(d - 1)]
        return [o, self.pick(["bump", "v", "self", "pub"])] if self.chance(4) else [o, "bump"]

    def objdef(self, d):
        n = self.pick(["o", "p", "o"])
        v = self.pick(VARS)
        body = [["define", v, self.num(d)],
                ["export", "get-v", ["method", [], {"b": [["return", "$" + v]]}]],
                ["export", "set-v", ["method", ["n"], {"b": [["set", v, "$n"]]}]],
                ["export", "bump", ["method", [], {"b": [["set", v + ":", "add", "$" + v, "1"], ["return", "$" + v]]}]]]
        if self.i(2):
            body.append(["export", "me", ["method", "self", [], "=", {"b": [["return", ["self", "get-v"]]]}]])
        self.bind(n, ("obj",))
        return ["define", n + ":", "object", {"b": body}]

    # ---------------------------------------------------------------- statements

    def stmts(self, d, n):
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            out += self.stmt(d)
        if not out:
            out = [["write", "z"]]
        return out

    def stmt(self, d):
        d -= 1
        c = self.i(20)
        F = self.feats
        if d <= 0 or c <= 2:
            return [["write", self.any(d)]]
        if c == 3 or c == 4:
            n = self.pick(VARS)
            if self.i(2):
                e, k = self.num(d), "num"
            elif self.i(2):
                e, k = self.listexpr(d), "list"
            else:
                e, k = self.any(d), "any"
            self.bind(n, k)
            if isinstance(e, list) and e and self.i(2):
                return [["define", n + ":"] + e]
            return [["define", n, e]]
        if c == 5 or c == 6:
            vs = self.visible(lambda k: k == "num")
            if vs and not self.chance(12):
                return [["set", self.pick(vs), self.num(d)]]
            return [["set", self.pick(VARS), self.num(d)]] if "err" in F else [["write", self.num(d)]]
        if c == 7: return [self.ifexpr(d)]
        if c == 8: return [self.loop(d)] if self.loops < 2 else [["write", self.num(d)]]
        if c == 9 or c == 10: return self.methdef(d)
        if c == 11: return [self.braced(["block"], d)]
        if c == 12:
            fs = self.visible(lambda k: isinstance(k, tuple) and k[0] == "meth")
            if fs: return [self.call(self.pick(fs), d)]
        if c == 13:
            if self.meth: return [["return", self.any(d)]] if self.chance(3) else [["if", self.boolean(d), {"b": [["return", self.any(d)]]}]]
        if c == 14: return self.recursion(d)
        if c == 15 and "scope" in F: return self.scoped(d)
        if c == 16 and "exc" in F: return self.exc(d)
        if c == 17 and "code" in F:
            return [self.syntaxdef(d)] if self.i(2) else [["write", self.codeexpr(d)]]
        if c == 18 and "obj" in F:
            return [self.objdef(d)] if self.i(2) else [["write", self.objexpr(d)]]
        if c == 19 and "cont" in F: return self.cont(d)
        fl = [f for f in ("scope", "exc", "code", "obj", "cont") if f in F]
        if fl:
            f = self.pick(fl)
            if f == "scope": return self.scoped(d)
            if f == "exc": return self.exc(d)
            if f == "code": return [self.syntaxdef(d)]
            if f == "obj": return [self.objdef(d)]
            return self.cont(d)
        return [["write", self.any(d)]]

    def loop(self, d):
        i = self.fresh("i")
        n = str(1 + self.i(3))
        # The counter lives in the block around the loop.
        self.scopes.append({i: "num"})
        self.loops += 1
        b = self.stmts(d, 1 + self.i(2))
        self.loops -= 1
        self.scopes.pop()
        return ["block", {"b": [["define", i, "0"], ["while", ["lt?", "$" + i, n], {"b": [["set", i + ":", "add", "$" + i, "1"]] + b}]]}]

    def methdef(self, d):
        n = self.pick(METHS)
        np = self.i(3)
        ps = VARS[:np] if self.i(2) else VARS[2:2 + np]
        rest = ["r"] if self.chance(3) else []
        isnum = self.i(2) == 0
        b = self.body(ps, rest, d, isnum)
        self.bind(n, ("meth", (np, bool(rest)), isnum))
        params = list(ps) + [[r] for r in rest]
        return [["define", n + ":", "method", params, b]]

    def recursion(self, d):
        n = self.fresh("rec")
        k = str(1 + self.i(3))
        self.scopes.append({"n": "num"})
        self.meth += 1
        b1 = self.stmts(d - 1, 1 + self.i(2))
        form = self.i(3)
        self.meth -= 1
        self.scopes.pop()
        rec = [n, ["sub", "$n", "1"]]
        if form == 0: body = [["if", ["gt?", "$n", "0"], {"b": b1 + [rec]}]]
        elif form == 1: body = [["if", ["gt?", "$n", "0"], {"b": [["return", ["add", "$n", rec]]]}], ["return", "0"]]
        else: body = [["if", ["gt?", "$n", "0"], {"b": [rec] + b1}, "else", {"b": [["write", "bottom", "$n"]]}], ["write", "after", "$n"]]
        return [["define", n + ":", "method", ["n"], {"b": body}], ["write", [n, k]]]

    # ---- names
    def scoped(self, d):
        c = self.i(9)
        v = self.pick(VARS)
        if c == 0:
            self.bind(v, "num")
            return [["export", v, self.num(d)]]
        if c == 1: return [["unset", v]]
        if c == 2: return [["write", ["set?", v], ["resolves?", v]]]
        if c == 3: return [["write", self.pick(["reader", "dyn"]), ["reader", v]]]
        if c == 4:
            # A closure over a fresh variable, that outlives its scope.
            n = self.pick(METHS)
            k = self.pick(VARS)
            self.bind(n, ("meth", (0, False), True))
            return [["define", n + ":", "block", {"b": [["define", k, self.num(d)], ["method", [], {"b": [["set", k + ":", "add", "$" + k, "1"], ["return", "$" + k]]}]]}]]
        if c == 5:
            # Exported in a block, read by a method defined outside it.
            return [["block", {"b": [["export", v, self.num(d)], ["write", ["reader", v]], ["set", v, self.num(d)], ["write", ["reader", v]]]}],
                    ["write", ["reader", v]]]
        if c == 6:
            n = self.pick(METHS)
            b = self.body([], [], d, True)
            self.bind(n, ("meth", (0, False), True))
            b["b"].insert(0, ["export", v, self.num(0)])
            return [["define", n + ":", "method", [], b]]
        if c == 7: return [["write", ["coalesce", v, self.pick(VARS), "none"]]]
        return [["write", ["setter", v, self.num(d)]]]

    # ---- exceptions
    def exc(self, d):
        c = self.i(6)
        if c == 0: return [["throw", self.pick(["e1", "e2", {"s": "an error"}])]]
        if c == 1: return [self.pick([["nosuch", "1"], ["set", "undefined-name", "1"], ["add", "1", {"s": "q"}], ["list", "$undefined-name"],
                                      [["list", "1"], "get", "5"], ["cons", "1"], ["o9", "m"] if False else ["div", "1", "0"]])]
        n = self.pick(METHS)
        self.scopes.append({})
        self.meth += 1
        hc = self.i(5)
        h = [["write", "caught", "$ex"]] if self.i(4) else []
        if hc == 0: h.append(["return", self.any(0)])
        if hc == 1: h.append(["return", "$ex"])
        if hc == 2: pass                                   # passes it on
        if hc == 3: h.append(["throw", "again"])
        if hc == 4: h += [["if", ["equal?", "$ex", "e1"], {"b": [["return", "was-e1"]]}]]
        if self.chance(6): h.append(["nosuch"])
        pre = self.stmts(d - 1, self.i(2)) if self.i(2) else []
        body = self.stmts(d, 1 + self.i(3))
        if self.i(2):
            body = [self.pick([["block", {"b": body}], ["if", "true", {"b": body}], ["while", "true", {"b": body + [["return", "loop"]]}],
                               ["define", "z", [["method", [], {"b": body}]]]])]
        if self.i(2): body.append(["throw", self.pick(["e1", "e2"])])
        b = pre + [["catch", "ex"] + ([{"b": h}] if h else [])] + body + [["write", "end", n], ["return", "done"]]
        self.meth -= 1
        self.scopes.pop()
        self.bind(n, ("meth", (0, False), False))
        out = [["define", n + ":", "method", [], {"b": b}]]
        if self.i(3): out.append(["write", "result", [n]])
        return out

    # ---- continuations
    def cont(self, d):
        c = self.i(5)
        k = self.fresh("k")
        cnt = self.fresh("n")
        v = self.pick(VARS)
        if c == 0:
            # Escape from nested calls.
            n = self.fresh("esc")
            inner = self.stmts(d, 1 + self.i(2))
            return [["define", n + ":", "method", ["e1"], {"b": inner + [["e1", self.any(d)], ["write", "not", "reached"]]}],
                    ["write", "escaped", [["method", [], {"b": [["list", "1", [n, "$return"]], ["write", "not", "reached"], ["return", "no"]]}]]]]
        if c == 1:
            # Re-enter a call that has returned, a bounded number of times.
            b = self.stmts(d, self.i(3)) if self.i(2) else []
            self.bind(v, "any")
            return [["define", k, []], ["define", cnt, "0"],
                    ["define", v, [["method", [], {"b": [["set", k, "$return"], ["return", self.num(0)]]}]]],
                    ["write", "at", k, "$" + v, "$" + cnt]] + b + \
                   [["if", ["lt?", "$" + cnt, str(1 + self.i(3))], {"b": [["set", cnt + ":", "add", "$" + cnt, "1"], [k, ["add", "10", "$" + cnt]]]}]]
        if c == 2:
            # Re-entry in the middle of an argument list.
            return [["define", k, []], ["define", cnt, "0"], ["define", v, "0"],
                    ["write", self.traced(self.num(d)), [["method", [], {"b": [["set", k, "$return"], ["return", "first"]]}]], self.traced(self.num(d))],
                    ["set", v + ":", "add", "$" + v, "1"], ["write", "v", "$" + v],
                    ["if", ["lt?", "$" + cnt, str(1 + self.i(2))], {"b": [["set", cnt + ":", "add", "$" + cnt, "1"], [k, {"q": "again $" + cnt}]]}]]
        if c == 3:
            # A generator-like pair of continuations.
            n = self.fresh("gen")
            self.bind(v, "any")
            return [["define", k, []], ["define", cnt, "0"],
                    ["define", n + ":", "method", [], {"b": [["set", k, "$return"]] + self.stmts(d, 1) + [["return", ["add", "$" + cnt, "0"]]]}],
                    ["block", {"b": [["define", v, [n]], ["write", "in", "$" + v],
                                     ["set", cnt + ":", "add", "$" + cnt, "1"],
                                     ["if", ["lt?", "$" + cnt, "3"], {"b": [[k, ["mul", "$" + cnt, "100"]]]}],
                                     ["write", "out", "$" + v]]}]]
        # Leaving a loop from inside.
        i = self.fresh("i")
        return [["write", "left", [["method", [], {"b": [["define", i, "0"], ["while", "true", {"b": [["set", i + ":", "add", "$" + i, "1"]] + self.stmts(d, 1) +
                [["if", ["ge?", "$" + i, str(1 + self.i(3))], {"b": [["return", "$" + i]]}]]}]]}]]]]


def prologue(feats):
    out = [["define", "t:", "method", ["n", "v"], {"b": [["write", "trace", "$n"], ["return", "$v"]]}],
           ["define", "a", "1"], ["define", "b", "2"]]
    if "scope" in feats:
        out += [["define", "reader:", "method", ["n"], {"b": [["if", ["resolves?", "$n"], {"b": [["return", ["list", ["resolve", "$n"]]]]}],
                                                                ["return", "unset"]]}],
                ["define", "setter:", "method", ["n", "v"], "e", {"b": [["if", ["e", "set?", "$n"], {"b": [["e", "eval", ["list", "set", "$n", "$v"]], ["return", "did"]]}],
                                                                          ["return", "did-not"]]}]]
    return out


def program(feats, budget=24, depth=5, top=7):
    @st.composite
    def prog(draw):
        g = G(draw, feats, budget)
        body = g.stmts(depth, draw(st.integers(min(3, top), top)))
        return body
    return prog()
