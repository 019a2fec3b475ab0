"""C01: no entry point modifies the arrays (or containers) the caller passed in."""
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.units import all_units, run_unit, unit_stats

RULE = "no-write-to-argument"


def arg_locs(locs):
    return sorted({l[1] for l in locs if l[0] == "arg"})


def unit(prog, un):
    u = run_unit(prog, un)
    obs = []
    hits = {}
    writes = 0
    for e in u.it.events:
        if e.kind != "write" or e.phase == "ctor":
            continue
        writes += 1
        locs, how = e.data
        names = arg_locs(locs)
        if names:
            hits.setdefault((e.func, ",".join(names), how), e)
    for (func, names, how), e in hits.items():
        obs.append(Ob(RULE, f"{func} writes {names}", BAD, e.where(),
                      f"{how}: the written array may be the caller's {names} "
                      f"(reached from {un}); call chain "
                      + " -> ".join(f"{f}:{ln}" for _, f, ln in e.chain)))
    if not hits:
        obs.append(Ob(RULE, str(un), UNK if u.it.budget_hit else OK, "",
                      f"{writes} write effects, none on caller memory"))
    st = unit_stats(u)
    st["write_effects"] = writes
    return obs, st


def main(tier):
    c = Check("C01", tier)
    c.run_units(unit, all_units(c.prog))
    c.explanation = (
        "Whole-program alias + effect analysis: every public data entry point is abstractly "
        "executed on its syntax tree with all callees inlined; every in-place effect "
        "(subscript/attribute store, augmented assignment, out=, in-place method, copy=False "
        "estimators) is logged with the set of memory locations it may touch; a violation is "
        "an effect whose target provably may be memory of the caller's argument.")
    c.assumptions = ["numpy/sklearn/scipy calls not in the in-place list do not modify their "
                     "array arguments"]
    return c.finish({RULE: 90})
