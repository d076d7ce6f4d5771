"""C07: names resolve lexically; exported names resolve through callers too."""
from hypothesis import strategies as st
import ohdiff
import ohmodel as M, ohprog as P
from vf import Part

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: differential, random programs of scopes, closures and exports against a reference interpreter"
ASSUMPTIONS = ["lib/ohmodel.py is the language definition of scopes and frames"]

NAMES = ["va", "vb", "vc"]


@st.composite
def chain(draw):
    """Methods made in scopes of their own, calling each other from nested
    blocks that define and export the same few names."""
    def i(n): return draw(st.integers(0, n - 1))
    uid = [0]

    def val():
        uid[0] += 1
        return "n%d" % uid[0]

    def acts(n):
        out = []
        for _ in range(i(n + 1)):
            c, v = i(10), NAMES[i(len(NAMES))]
            if c <= 2: out.append(["export", v, val()])
            elif c <= 4: out.append(["define", v, val()])
            elif c <= 6: out.append(["write", v, ["if", ["resolves?", v], {"b": [["list", ["resolve", v]]]}, "else", {"b": [["list"]]}]])
            elif c == 7: out.append(["write", "set", ["set?", v]])
            elif c == 8: out.append(["write", "unset", ["unset", v]])
            else: out.append(["if", ["set?", v], {"b": [["set", v, val()]]}])
        return out

    def nested(b, d):
        while d > 0:
            b = [["block", {"b": acts(1) + b}] if i(2) else ["if", "true", {"b": acts(1) + b}]]
            d -= 1
        return b

    def define(name, what, m):
        c = i(4)
        if c == 0: prog.append(["define", name + ":"] + what)
        elif c == 1: prog.append(["define", name + ":", "block", {"b": acts(2) + [what]}])
        elif c == 2: prog.append(["define", name + ":", "block", {"b": [["export", "marker%d" % m, "1"]] + acts(2) + [what]}])
        else: prog.extend([["define", "mk%d:" % m, "method", [], {"b": [["export", "marker%d" % m, "1"]] + acts(2) + [what]}], ["define", name + ":", "mk%d" % m]])

    n = 2 + i(3)
    prog = acts(3)
    for m in range(n - 1, -1, -1):
        def nest(d):
            b = acts(2)
            if d > 0:
                b.append(["block", {"b": nest(d - 1)}] if i(3) else ["if", "true", {"b": nest(d - 1)}])
            if m + 1 < n and (d == 0 or i(4) == 0):
                # Through a syntax, whose exported names are found too.
                c = i(3)
                if c == 1: b.append(["sx%d" % (m + 1), ["m%d" % (m + 1)]])
                else: b.append(["m%d" % (m + 1)])
            b += acts(2) if i(2) else [["write", v, ["resolves?", v]] for v in NAMES]
            return b or [["write", "nothing"]]
        if m: define("sx%d" % m, ["syntax", ["x"], "e", {"b": acts(2) + nested([["e", "eval", "$x"]], i(3)) + acts(1)}], m)
        define("m%d" % m, ["method", [], {"b": nest(i(3))}], m)
    prog += acts(2)
    prog.append(["m0"])
    prog += [["write", v, ["resolves?", v]] for v in NAMES]
    return prog


PARTS = [
    ohdiff.part("scopes", ["scope", "err"], ["call"], 2400, 70000,
                "random programs with shadowing, closures outliving their scope, export, unset, set?, resolves?, coalesce and lookups made by "
                "methods defined elsewhere (reader, setter); output must be the reference interpreter's. Non-trivial: two lines and a call"),
    ohdiff.part("scopes-objects", ["scope", "obj", "err", "code"], ["call", "eval|member"], 800, 20000,
                "the same with objects, eval in captured environments and syntaxes. Non-trivial: two lines, a call and an eval or member"),
    Part("callers", chain, ohdiff.differential([], ["call"]), 2400, 60000,
         "chains of two to four methods, each made in a scope with or without exports of its own, calling the next, directly or through a syntax that evaluates the call, from nested blocks that define, "
         "export, set and unset three names and look all of them up; output must be the reference interpreter's. Non-trivial: two lines and a call"),
]
