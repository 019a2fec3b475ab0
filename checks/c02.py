"""C02: the returned dataset never shares memory with the caller's arrays."""
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.units import (os_classes, nf_classes, us_classes, Unit, run_unit, unit_stats)

RULE = "result-is-fresh-memory"


def flat(av):
    if av.kind in ("tuple", "union") and av.data:
        for i, x in enumerate(av.data):
            for p, y in flat(x):
                yield (i,) + p, y
    else:
        yield (), av


def unit(prog, un):
    u = run_unit(prog, un)
    obs = []
    n = 0
    for call, alts in u.outs.items():
        for s, v in alts:
            for path, x in flat(v):
                n += 1
                names = sorted({l[1] for l in x.locs if l[0] == "arg"})
                if names:
                    ci = prog.classes[un.name]
                    f = ci.find(call)
                    which = {(0,): "features", (1,): "labels"}.get(path, str(path))
                    src = ci.find("sampling_algorithm") or f
                    w = f"{src[1].module.path}:{src[1].node.lineno} in {src[1].qualname}"
                    pc = "; ".join(f"{'' if p else 'not '}{c!r}"[:100] for c, p in s.pc[-2:])
                    obs.append(Ob(RULE, f"{un.name}.{call} returns caller's {','.join(names)} "
                                        f"as {which}", BAD, w,
                                  f"the returned {which} may be (a view of) the argument "
                                  f"{','.join(names)} when {pc}"))
    if not obs:
        obs.append(Ob(RULE, str(un), UNK if u.it.budget_hit else OK, "",
                      f"{n} returned values, none aliasing an argument"))
    st = unit_stats(u)
    st["returned_values"] = n
    return obs, st


def main(tier):
    c = Check("C02", tier)
    us = [Unit("oversampler", x.name, ("sample",)) for x in os_classes(c.prog)] + \
         [Unit("undersampler", x.name, ("sample",)) for x in us_classes(c.prog)] + \
         [Unit("noise filter", x.name, ("remove_noise",)) for x in nf_classes(c.prog)] + \
         [Unit("class", "MulticlassOversampling", ("sample",))]
    c.run_units(unit, us)
    c.explanation = (
        "May-alias analysis of every return path of every sampler/filter entry point (callees "
        "inlined): the location set of each returned array must not contain the caller's "
        "argument memory; views (basic slices, .T, reshape, ravel, asarray) keep the "
        "location, copies (fancy indexing, stacking, arithmetic, .copy()) do not.")
    c.assumptions = ["numpy view/copy semantics as tabulated in sa/extmodels.py"]
    return c.finish({RULE: 80})
