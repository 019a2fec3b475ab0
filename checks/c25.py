"""C25: the rows an oversampler makes are affine combinations of the data."""
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.units import os_classes, run_unit, unit_stats, Unit
from checks.affine import Weights, Hull, UNKNOWN, ONE, show_poly
from checks.c18 import blocks
from checks.outputs import arms

R_ONE = "weights-add-up-to-one"
R_BETWEEN = "between-the-combined-points"

# move points away from others or beyond them by definition (differential evolution, SMOTE-OUT,
# the offset between two codebook vectors)
BEYOND = {"DE_oversampling", "SMOTE_OUT", "SMOTE_Cosine", "LVQ_SMOTE"}


def unit(prog, name):
    u = run_unit(prog, Unit("oversampler", name, ("sample",)))
    it = u.it
    ci = prog.classes[name]
    f = ci.find("sampling_algorithm") or ci.find("sample")
    where = f"{f[1].module.path}:{f[1].node.lineno} in {f[1].qualname}"
    obs, seen, n = [], set(), 0
    w = Weights(it)
    for st, v in u.outs.get("sample", ()):
        v = it.strip(v)
        if v.kind != "tuple" or len(v.data) != 2:
            continue
        for tx, _ in arms(it.strip(v.data[0]).term):
            for b in blocks(tx):
                if b in seen:
                    continue
                seen.add(b)
                n += 1
                s = w.of(b)
                wrong = [p for p in s if p != UNKNOWN and p != ONE]
                if wrong:
                    obs.append(Ob(R_ONE, name, BAD, where, "rows are returned that the data enter "
                                  f"with a total weight of {show_poly(wrong[0])[:160]}"))
                elif UNKNOWN in s:
                    obs.append(Ob(R_ONE, name, UNK, where, "weight not understood"))
                elif s:
                    obs.append(Ob(R_ONE, name, OK, where))
    h = Hull(it)
    for b in seen:
        h.walk(b)
    out = [text for r, _, text in h.found if r is False]
    if out and name not in BEYOND:
        obs.append(Ob(R_BETWEEN, name, BAD, where, "rows are made outside the points they "
                      f"combine: {out[0]}"))
    elif any(r for r, _, _ in h.found):
        obs.append(Ob(R_BETWEEN, name, OK, where))
    st = unit_stats(u)
    st["combinations"] = len(h.found)
    st["combinations_between"] = sum(1 for r, _, _ in h.found if r)
    st["row_blocks"] = n
    return obs, st


def main(tier):
    c = Check("C25", tier)
    c.run_units(unit, [x.name for x in os_classes(c.prog)])
    c.explanation = (
        "Affine weights over the symbolic value of every returned dataset: a row of the data has "
        "weight one, a difference of two rows zero, sums add and products with numbers multiply "
        "the weights (polynomials over the program's numbers, so equivalent ways to write an "
        "interpolation give the same weight); scalers, means, selections and draws located at a "
        "row keep it. Every block of returned rows must have weight one on all its alternatives.")
    c.assumptions = ["scalers and projections are affine",
                     "weights divided by their sum along an axis add up to one along it"]
    return c.finish({R_ONE: 60, R_BETWEEN: 40})
