"""C08: oversampling only adds: original rows first, new rows minority-labelled."""
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, is_const, const_value, leaves
from sa.units import os_classes, run_unit, unit_stats, Unit
from sa.loader import class_categories
from checks.outputs import (AX, AY, pairs, parts, unscale, label_role, rep_value, row_source,
                            estimator_class, SCALERS)

R_X = "original-rows-first"
R_Y = "original-labels-first"
R_NEW = "new-rows-minority"

# oversamplers that by design drop, move or relabel original samples without
# declaring the "changes majority" category
EXEMPT = {
    "A_SUWO": "removes noisy samples before sampling (declares noise removal)",
    "NRAS": "removes noisy minority samples before sampling (declares noise removal)",
    "MOT2LD": "removes minority outliers before sampling",
    "ADG": "works on the kernel-transformed, class-sorted dataset",
    "DSRBF": "returns the memetically optimised dataset",
    "NoSMOTE": "the identity",
}


def mentions(t, a):
    return a in leaves(t)


def first_block(t, base):
    """verdict for the leading block of the returned array"""
    ps = unscale(t) if base is AX else parts(t)
    p = ps[0]
    if p is base:
        return OK, "", ps
    src = row_source(p, base)
    if src is not None:
        return BAD, f"the result starts with a selection of the original rows: {p!r}", ps
    if any(q is base for q in ps[1:]):
        return BAD, f"the original rows do not come first but after {p!r}", ps
    if p.op == "m" and p.args[0] in ("transform", "fit_transform", "inverse_transform"):
        return BAD, f"the result starts with transformed features {p!r}", ps
    if p.op == "unscaled" and isinstance(p.args[1], Term) and p.args[1] is base:
        return BAD, "the inverse of a transformation is applied to untransformed features", ps
    if p.op == "u" and len(p.args) > 1 and any(a is base for a in p.args[1:]):
        return BAD, f"the original rows are modified: {p!r}", ps
    if p.op in ("setitem", "cols", "upd", "sorted") and p.args and any(a is base for a in p.args):
        return BAD, f"the original rows are modified: {p!r}", ps
    if p.op in ("rows", "flat", "rep") and not mentions(p, base):
        return BAD, f"the original rows are missing: {t!r}", ps
    return UNK, f"leading block {p!r} not understood", ps


def inductive(it, t, base, seen=()):
    """loop-carried array that starts as the base and is only appended to"""
    if t is base:
        return True
    if t in seen:
        return True
    if t.op == "lphi" and t in it.phi_def:
        ini, nxt = it.phi_def[t]
        return inductive(it, ini.term, base, seen + (t,)) and \
            inductive(it, nxt.term, base, seen + (t,))
    if t.op == "cat":
        return inductive(it, t.args[0], base, seen)
    if t.op == "phi":
        return all(inductive(it, a, base, seen) for a in t.args[1:])
    return False


def loop_labels(it, t, seen=()):
    """label blocks appended to a loop-carried label array"""
    if t is AY or t in seen:
        return []
    if t.op == "lphi" and t in it.phi_def:
        ini, nxt = it.phi_def[t]
        return loop_labels(it, ini.term, seen + (t,)) + loop_labels(it, nxt.term, seen + (t,))
    if t.op == "cat":
        return loop_labels(it, t.args[0], seen) + list(t.args[1:])
    if t.op == "phi" and label_role(t) is None:
        return [x for a in t.args[1:] for x in loop_labels(it, a, seen)]
    return [t]


def new_labels(p):
    v = rep_value(p)
    if v is not None:
        r = label_role(v)
        if r == "min":
            return OK, ""
        if r == "maj":
            return BAD, "the added rows carry the majority label"
        if isinstance(r, tuple):
            return BAD, f"the added rows carry the literal label {r[1]!r}"
    if p.op == "idx" and p.args[0] is AY:
        from checks.outputs import label_mask
        r = label_mask(p.args[1])
        if r == "min":
            return OK, ""
        if r == "maj":
            return BAD, "the added rows carry the majority label"
    return UNK, f"label block {p!r} not understood"


def unit(prog, name):
    u = run_unit(prog, Unit("oversampler", name, ("sample",)))
    it = u.it
    obs = []
    where = f"{prog.classes[name].module.path}:{name}.sampling_algorithm"
    n = 0
    for st, v in u.outs["sample"]:
        v = it.strip(v)
        if v.kind != "tuple" or len(v.data) != 2:
            obs.append(Ob(R_X, name, UNK, where, f"result {v!r}"))
            continue
        x, y = (it.strip(a) for a in v.data)
        for tx, ty, _ in pairs(x.term, y.term):
            n += 1
            if tx.op == "lphi" and inductive(it, tx, AX):
                obs.append(Ob(R_X, name, OK, where))
            else:
                r, m, _ = first_block(tx, AX)
                obs.append(Ob(R_X, name, r, where, m))
            if ty.op == "lphi" and inductive(it, ty, AY):
                obs.append(Ob(R_Y, name, OK, where))
                ys = [None] + loop_labels(it, ty)
            else:
                r, m, ys = first_block(ty, AY)
                obs.append(Ob(R_Y, name, r, where, m))
            for p in ys[1:]:
                r, m = new_labels(p)
                obs.append(Ob(R_NEW, name, r, where, m))
    s = unit_stats(u)
    s["return_alternatives"] = n
    return obs, s


def main(tier):
    c = Check("C08", tier)
    names = []
    for k in os_classes(c.prog):
        cats = class_categories(c.prog, k)
        if k.name in EXEMPT or "CM" in cats:
            continue
        names.append(k.name)
    c.run_units(unit, names)
    c.explanation = (
        "Symbolic value of every returned dataset (all return paths, callees inlined): the feature "
        "block list must start with the caller's feature matrix itself (a scaler round trip "
        "counts), the label list with the caller's labels, and every further label block must be "
        "the label whose count is the smaller one. Loop-carried arrays are handled by induction. "
        f"Out of scope: methods declaring the changes-majority category, and {sorted(EXEMPT)}.")
    return c.finish({R_X: 50, R_Y: 50, R_NEW: 45})
