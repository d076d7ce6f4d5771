"""C06: control structures agree with the language definition."""
import ohdiff
from vf import Part
import ohmodel as M
from hypothesis import strategies as st

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: differential, random programs against a reference interpreter"
ASSUMPTIONS = ["lib/ohmodel.py is the language definition: written from the manual and checked against the documented examples",
               "programs are drawn from the constructs the statement lists; those whose meaning leaves the model are not compared"]

RULE = ("random programs of define, set, if/else/else if, while, block, and, or, not, methods (fixed, variadic, nested, recursive, anonymous), "
        "return and list operations with a trace of every evaluation; all lines written and the final error must be those of the reference "
        "interpreter. Non-trivial: at least two lines written, a call, and a branch or loop or block value involved")


# Deep recursion and long loops: sums the model knows in closed form.
def deep_st():
    return st.fixed_dictionaries({"n": st.integers(0, 3000), "kind": st.sampled_from(["tail", "nontail", "while", "mutual", "args", "variadic"])})


def deep(ctx, case):
    n, k = case["n"], case["kind"]
    ctx.nontrivial = n > 20
    ctx.label(k)
    src = {
        "tail": "define f: method (n s) {\n if (gt? $n 0) {\n  f (sub $n 1) (add $s $n)\n } else {\n  return $s\n }\n}\nwrite (f %d 0)\n",
        "nontail": "define f: method (n) {\n if (gt? $n 0) {\n  return (add $n (f (sub $n 1)))\n }\n return 0\n}\nwrite (f %d)\n",
        "while": "define s 0\ndefine n %d\nwhile (gt? $n 0) {\n set s: add $s $n\n set n: sub $n 1\n}\nwrite (number $s)\n",
        "mutual": "define g ()\ndefine f: method (n s) {\n if (gt? $n 0) {\n  return (g (sub $n 1) (add $s $n))\n }\n return $s\n}\n"
                  "set g: method (n s) {\n if (gt? $n 0) {\n  f (sub $n 1) (add $n $s)\n } else {\n  return $s\n }\n}\nwrite (number (f %d 0))\n",
        "args": "define f: method (n) {\n if (le? $n 0) {\n  return ()\n }\n define r (f (sub $n 1))\n return (cons $n $r)\n}\n"
                "define l (f %d)\nwrite (add (splice $l))\n",
        "variadic": "define f: method ((r)) {\n define s 0\n for $r (method (x) {\n  set s: add $s $x\n })\n return (number $s)\n}\nwrite (f (splice (seq %d)) )\n",
    }[k]
    src = src % n
    if k == "variadic":
        want = n * (n - 1) // 2
    else:
        want = n * (n + 1) // 2
    r = ctx.script(src)
    if r.hang or r.err or r.rc:
        return "%s %d: %r" % (k, n, r)
    try:
        import ohdata as D
        got = D.lines(r.out)
    except Exception as ex:
        return "%s %d: output %r" % (k, n, r.out)
    if len(got) != 1 or len(got[0]) != 1 or got[0][0] not in (["n", str(want)], ["y", str(want)]):
        return "%s %d: got %s, should be %d" % (k, n, got, want)


PARTS = [
    ohdiff.part("programs", ["err"], ["call", "then|else|iteration|else if"], 2200, 60000, RULE),
    ohdiff.part("small", ["err"], ["call|then|else|iteration"], 1000, 20000, "the same, many small programs. Non-trivial: two lines and one construct",
                budget=8, depth=4, top=4),
    Part("deep", deep_st, deep, 160, 2000, "recursion (tail, non-tail, mutual, variadic) and loops up to 3000 deep; sums known in closed form. Non-trivial: depth over 20"),
]
