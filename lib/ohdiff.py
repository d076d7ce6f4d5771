"""Parts that run generated programs in oh and in the reference interpreter."""
import ohmodel as M, ohprog as P
from vf import Part
from hypothesis import strategies as st


def differential(feats, need, route="script"):
    def check(ctx, case):
        prog = P.prologue(feats) + case
        try:
            res = M.run(prog)
        except M.OutOfModel as ex:
            ctx.label("outside the model: " + str(ex).split()[0])
            return None
        except RecursionError:
            ctx.label("outside the model: recursion")
            return None
        ctx.nontrivial = len(res.lines) >= 2 and all(any(res.stats.get(a) for a in n.split("|")) for n in need)
        ctx.label("ends in error" if res.error is not None else "ends normally")
        for k in res.stats:
            ctx.label("has " + k)
        return M.compare(ctx, prog, res)
    return check


def part(name, feats, need, quick, thorough, rule, budget=24, depth=5, top=8):
    return Part(name, lambda: P.program(feats, budget, depth, top), differential(feats, need), quick, thorough, rule)
