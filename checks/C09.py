"""C09: continuations restore exactly the captured control point."""
import ohdiff
from vf import Part
from hypothesis import strategies as st

NEEDS = ("oh",)
TECHNIQUE = "property-based testing: differential, programs that escape from and re-enter calls against a reference interpreter; memory bound for tail calls"
ASSUMPTIONS = ["lib/ohmodel.py is the language definition of return continuations",
               "bounded memory: peak resident size at 16 times the iterations stays within 1.6 times plus 24 MB"]


# Tail calls run in bounded memory.
def tail_st():
    # Several kinds in every case, so that each kind occurs in every run.
    return st.fixed_dictionaries({"kinds": st.lists(st.sampled_from(sorted(LOOPS)), min_size=6, max_size=6, unique=True),
                                  "n": st.integers(3000, 4000)})


LOOPS = {
    "if": "define f: method (n) {\n if (gt? $n 0) {\n  f (sub $n 1)\n }\n}\nf %d\n",
    "else": "define f: method (n) {\n if (lt? $n 1) {\n  return done\n } else {\n  f (sub $n 1)\n }\n}\nf (number %d)\n",
    "else-if": "define f: method (n) {\n if (lt? $n 1) {\n  return done\n } else if true {\n  f (sub $n 1)\n }\n}\nf (number %d)\n",
    "block": "define f: method (n) {\n block {\n  if (gt? $n 0) {\n   block {\n    f (sub $n 1)\n   }\n  }\n }\n}\nf %d\n",
    "then": "define f: method (n) {\n if (gt? $n 0) {\n  f (sub $n 1)\n } else {\n  vh exit 0\n }\n}\nf %d\n",
    "then-else-if": "define f: method (n) {\n if (gt? $n 0) {\n  f (sub $n 1)\n } else if (gt? $n -1) {\n  return done\n } else {\n  return gone\n }\n}\nf %d\n",
    "then-middle": "define f: method (n) {\n if (lt? $n 1) {\n  return done\n } else if (gt? $n 0) {\n  f (sub $n 1)\n } else {\n  return gone\n }\n}\nf %d\n",
    "nested": "define f: method (n) {\n define g: method (m) {\n  if (gt? $m 0) {\n   f (sub $m 1)\n  }\n }\n g $n\n}\nf %d\n",
    "and": "define i %d\nwhile (and true (gt? $i 0)) {\n set i: sub $i 1\n}\n",
    "mutual": "define g ()\ndefine f: method (n) {\n if (gt? $n 0) {\n  g (sub $n 1)\n }\n}\nset g: method (n) {\n f $n\n}\nf %d\n",
    "while": "define n %d\nwhile (gt? $n 0) {\n define x: list $n $n\n set n: sub $n 1\n}\n",
    "catch": "define f: method (n) {\n catch ex {\n  return $n\n }\n throw $n\n}\ndefine n %d\nwhile (gt? $n 0) {\n f $n\n set n: sub $n 1\n}\n",
    "syntax": "define f: syntax (x) e {\n e eval $x\n}\ndefine n %d\nwhile (gt? $n 0) {\n f (set n: sub $n 1)\n}\n",
    "object": "define n %d\nwhile (gt? $n 0) {\n define o: object {\n  define v $n\n  export get-v: method () {\n   return $v\n  }\n }\n set n: sub (o get-v) 1\n}\n",
    "passing": "define f: method (f n) {\n if (gt? $n 0) {\n  f $f (sub $n 1)\n }\n}\nf $f %d\n",
    "variadic": "define f: method ((args)) {\n if (gt? (args head) 0) {\n  f (sub (args head) 1) (splice (args tail))\n }\n}\nf %d a $f\n",
    "alias": "define f: method (g n) {\n define h $g\n if (gt? $n 0) {\n  h $h (sub $n 1)\n }\n}\nf $f %d\n",
    "listed": "define f: method (l n) {\n define g: l head\n if (gt? $n 0) {\n  g (list $g) (sub $n 1)\n }\n}\nf (list $f) %d\n",
    "rest": "define f: method (n (l)) {\n define g: l head\n if (gt? $n 0) {\n  g (sub $n 1) $g\n }\n}\nf %d $f\n",
    "self": "define o: object {\n export loop: method self (n) {\n  if (gt? $n 0) {\n   self loop (sub $n 1)\n  }\n }\n}\no loop %d\n",
    "member": "define o: object {\n export go: method (o n) {\n  if (gt? $n 0) {\n   o go $o (sub $n 1)\n  }\n }\n}\no go $o %d\n",
    "continuation": "define m: method () {\n define f: method (n k) {\n  if (gt? $n 0) {\n   f (sub $n 1) $k\n  } else {\n   k done\n  }\n }\n f %d $return\n}\nm\n",
    "evaluated": "define s: syntax (x) e {\n e eval $x\n}\ndefine f: method (n) {\n if (gt? $n 0) {\n  s (f (sub $n 1))\n }\n}\nf %d\n",
    "anonymous": "define f: method (n) {\n if (gt? $n 0) {\n  (method (m) {\n   f (sub $m 1)\n  }) $n\n }\n}\nf %d\n",
    "scopes": "define mk: method () {\n define x 1\n method (f n) {\n  if (gt? $n 0) {\n   f $f (sub $n $x)\n  }\n }\n}\ndefine f: mk\nf $f %d\n",
    "rebound": "define f: method () {\n}\ndefine n %d\nwhile (gt? $n 0) {\n define g $f\n set f $g\n set n: sub $n 1\n}\n",
    "spawn": "define n %d\nwhile (gt? $n 0) {\n wait (spawn {\n  add 1 1\n })\n set n: sub $n 1\n}\n",
    "channel": "define c: chan 1\ndefine n %d\nwhile (gt? $n 0) {\n c write $n\n c read\n set n: sub $n 1\n}\n",
    "map": "define m: map\ndefine n %d\nwhile (gt? $n 0) {\n m set 'k' $n\n m del 'k'\n set n: sub $n 1\n}\n",
    "text": "define n %d\nwhile (gt? $n 0) {\n define s \"a${n}b\"\n symbol $s\n set n: sub $n 1\n}\n",
    "eval": "define n %d\ndefine c: quote (set n: sub $n 1)\nwhile (gt? $n 0) {\n eval $c\n}\n",
}

SLOW = {"catch": 8, "object": 4, "and": 4, "while": 2, "spawn": 2, "text": 2, "map": 2}


def tail(ctx, case):
    n = case["n"]
    ctx.nontrivial = True
    for k in case["kinds"]:
        ctx.label(k)
        rss = []
        for m in (n, 16 * n):
            m //= SLOW.get(k, 1)
            r = ctx.script(LOOPS[k] % m + "write end\n", env={"GOGC": "50"})
            if r.hang or r.err or r.out != b"end\n":
                return "%s %d: %r" % (k, m, r)
            rss.append(r.maxrss)
        if rss[1] > 1.6 * rss[0] + 24 * 1024:
            return "%s: peak memory %d kB for %d iterations, %d kB for many times more" % (k, rss[0], n, rss[1])


PARTS = [
    ohdiff.part("programs", ["cont", "err"], ["continuation"], 2400, 60000,
                "random programs that escape from nested calls, leave loops, and re-enter returned calls (also in the middle of an argument list) a bounded "
                "number of times, around random code; output must be the reference interpreter's. Non-trivial: two lines and a continuation invoked"),
    ohdiff.part("programs-mixed", ["cont", "exc", "scope", "err"], ["continuation"], 800, 20000,
                "the same mixed with exceptions and exports. Non-trivial: two lines and a continuation invoked"),
    Part("memory", tail_st, tail, 18, 160, "loops by tail call in every tail position, and other loops, at n and 16n iterations; peak memory must not grow in "
         "proportion. Every case is non-trivial", confirm=2),
]
