"""C09: the returned features and labels have the same number of rows, and rows
taken over from the input keep their own label."""
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, leaves
from sa.lengths import compare
from sa.units import (os_classes, nf_classes, us_classes, run_unit, unit_stats, Unit)
from checks.outputs import (AX, AY, pairs, parts, unscale, label_role, rep_value, row_source,
                            walk, label_mask)

R_LEN = "row-counts-agree"
R_ALIGN = "rows-keep-their-label"


def strip_del(t):
    sels = []
    while t.op in ("del", "idx", "slc") and isinstance(t.args[0], Term) and \
            t.args[0] not in (AX, AY):
        sels.append((t.op,) + t.args[1:])
        t = t.args[0]
    return t, sels


def canon_sel(sel):
    """row selections over the input that pick the same rows compare equal"""
    kind = sel[0]
    t = sel[1]
    if kind in ("sel", "idx") and isinstance(t, Term):
        r = label_mask(t)
        if r is not None:
            return ("class", r)
    return sel


def aligned(x, y):
    """verdict for one aligned pair of feature block and label block"""
    sx = row_source(x, AX)
    sy = row_source(y, AY)
    if sx is not None and sy is not None:
        a, b = ("all",) if sx == "all" else canon_sel(sx), ("all",) if sy == "all" else canon_sel(sy)
        if a == b:
            return OK, ""
        for p, q, which in ((a, b, "features"), (b, a, "labels")):
            if p == ("all",):
                if q[0] in ("sel", "idx", "class", "del"):
                    return BAD, f"all rows of one of features and labels, but a selection of the " \
                                f"other: {x!r} / {y!r}"
        if a[0] == b[0] == "class" and a[1] != b[1]:
            return BAD, f"features of the {a[1]} class with labels of the {b[1]} class"
        if isinstance(a[1], Term) and isinstance(b[1], Term) and a[0] == b[0] and \
                (a[1] is T("not", b[1]) or b[1] is T("not", a[1])):
            return BAD, f"features and labels are selected by complementary masks: {x!r} / {y!r}"
        if a[0] != b[0] and a[1] is b[1] and {a[0], b[0]} == {"sel", "del"}:
            return BAD, f"rows are kept in one and deleted in the other: {x!r} / {y!r}"
        return UNK, f"selections {x!r} and {y!r} not compared"
    v = rep_value(y)
    if v is not None:
        role = label_role(v)
        if sx == "all":
            return BAD, f"all the original rows are labelled {role}"
        if sx is not None:
            a = canon_sel(sx)
            if a[0] == "class":
                if role == a[1]:
                    return OK, ""
                if role in ("min", "maj"):
                    return BAD, f"original rows of the {a[1]} class are labelled as {role}"
            base, _ = sub_class(x)
            return UNK, f"{x!r} labelled {role}"
        c = sub_class(x)
        if c[0] is not None and role in ("min", "maj"):
            if c[0] == role:
                return OK, ""
            return BAD, f"original rows of the {c[0]} class are labelled as {role}"
        if AX in shallow(x) and False:
            return UNK, ""
        return OK, ""          # generated rows
    if sx == "all" and sy is None:
        return UNK, f"labels {y!r} of the original rows"
    if sx is None and sy is not None:
        if sy == "all":
            return UNK, f"features {x!r} for the original labels"
        return UNK, f"features {x!r}, labels {y!r}"
    bx, dx = strip_del(x)
    by, dy = strip_del(y)
    if dx or dy:
        if dx != dy:
            if len(dx) != len(dy):
                return (BAD if aligned(bx, by)[0] == OK and by is not AY else UNK), \
                    f"rows are selected from one of features and labels only: {x!r} / {y!r}"
            return UNK, f"selections {x!r} and {y!r} not compared"
        return UNK, f"{x!r} / {y!r}"
    return UNK, f"{x!r} / {y!r}"


def class_mask_in(t):
    """the mask restricts the selection to one class"""
    if label_mask(t) is not None:
        return True
    return t.op == "band" and any(class_mask_in(a) for a in t.args if isinstance(a, Term))


def regrouped(xs, ys):
    """one order-preserving selection of rows against labels regrouped by class (or the reverse)"""
    for a, b, sa, sb in ((xs, ys, AX, AY), (ys, xs, AY, AX)):
        if len(a) == 1 and len(b) >= 2:
            s = row_source(a[0], sa)
            if s == "all" or (s is not None and s[0] in ("sel", "del") and
                              isinstance(s[1], Term) and s[1].op != "draw"):
                bs = [row_source(p, sb) for p in b]
                if all(q not in (None, "all") and q[0] == "sel" and isinstance(q[1], Term) and
                       class_mask_in(q[1]) for q in bs):
                    return True
    return False


def shallow(t):
    return {a for a in t.args if isinstance(a, Term)}


def sub_class(x):
    """class of a nested selection idx(idx(X, y == c), ...)"""
    t = x
    n = 0
    while t.op in ("idx", "del", "slc") and isinstance(t.args[0], Term):
        if t.args[0] is AX and t.op == "idx":
            r = label_mask(t.args[1])
            return r, n
        t = t.args[0]
        n += 1
    return None, n


def unit(prog, un):
    u = run_unit(prog, un)
    it = u.it
    obs = []
    ci = prog.classes[un.name]
    call = un.calls[0]
    where = f"{ci.module.path}:{un.name}.{call}"
    n = cases = 0
    for st, v in u.outs.get(call, ()):
        v = it.strip(v)
        if v.kind == "none":
            continue
        if v.kind != "tuple" or len(v.data) != 2:
            obs.append(Ob(R_LEN, un.name, UNK, where, f"result {v!r}"[:200]))
            continue
        x, y = (it.strip(a) for a in v.data)
        n += 1
        r, m, k = compare(it, x.ln, y.ln)
        cases += k
        obs.append(Ob(R_LEN, un.name, {"eq": OK, "ne": BAD, "unk": UNK}[r], where, m))
        for tx, ty, _ in pairs(x.term, y.term):
            # a common deletion applied to both
            bx, dx = strip_del(tx)
            by, dy = strip_del(ty)
            if dx and dx == dy:
                tx, ty = bx, by
            elif (dx or dy) and dx != dy:
                r, m = aligned(tx, ty)
                obs.append(Ob(R_ALIGN, un.name, r, where, m))
                continue
            for tx2, ty2, _ in pairs(tx, ty):
                ps, full = walk(unscale(tx2), parts(ty2))
                for px, py in ps:
                    r, m = aligned(px, py)
                    obs.append(Ob(R_ALIGN, un.name, r, where, m))
                if not full and regrouped(unscale(tx2), parts(ty2)):
                    obs.append(Ob(R_ALIGN, un.name, BAD, where,
                                  f"the labels are regrouped by class but the rows are not: "
                                  f"{tx2!r} / {ty2!r}"))
                elif not full:
                    obs.append(Ob(R_ALIGN, un.name, UNK, where,
                                  f"blocks of {tx2!r} and {ty2!r} not matched"))
    s = unit_stats(u)
    s["return_paths"] = n
    s["length_cases"] = cases
    return obs, s


def main(tier):
    c = Check("C09", tier)
    us = [Unit("oversampler", k.name, ("sample",)) for k in os_classes(c.prog)]
    us += [Unit("undersampler", k.name, ("sample",)) for k in us_classes(c.prog)]
    us += [Unit("noise filter", k.name, ("remove_noise",)) for k in nf_classes(c.prog)]
    if "MulticlassOversampling" in c.prog.classes:
        us.append(Unit("class", "MulticlassOversampling", ("sample",)))
    c.run_units(unit, us)
    c.explanation = (
        "Symbolic row counts of the returned features and labels on every return path, normalised to "
        "linear forms over list lengths, mask counts and generated counts, compared by case "
        "splitting over joins and induction over loops; and block-wise pairing of the returned "
        "features and labels: rows taken from the input must be taken by the same selection, or "
        "carry the label of the class they were selected by.")
    return c.finish({R_LEN: 75, R_ALIGN: 60})
