"""C10: the numeric value of a label means nothing; which class is the minority is decided by
counting."""
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, is_const, const_value
from sa.units import all_units, run_unit, unit_stats, os_classes, nf_classes, us_classes, Unit
from sa.interp import Interp
from checks.outputs import AX, AY, label_role, pairs, parts, rep_value

R_CMP = "labels-not-compared-with-literals"
R_ARI = "no-arithmetic-on-labels"
R_IDX = "labels-not-used-as-positions"
R_MIN = "minority-is-the-smaller-class"
R_COL = "probability-column-by-class"
R_OUT = "no-literal-label-returned"

R_REG = "no-regression-on-label-values"

REGRESSORS = ("Regression", "Ridge", "RidgeCV", "Lasso", "LassoCV", "ElasticNet", "SVR", "Regressor",
              "Lars")
LABELS = {T("arg", n) for n in ("y", "y_train", "y_test", "y_samp")}
THROUGH = {"idx", "slc", "del", "gidx", "cols", "row", "ravel", "flatten", "astype", "unique",
           "arrof", "T", "rep", "setitem", "flat", "rows", "row1", "part", "picks", "take",
           "el", "it", "lelem", "elem", "elem2", "mode", "lphi", "list"}
MUL = {"sum", "mean", "std", "var", "prod", "cumsum", "cumprod", "average", "median", "nansum",
       "nanmean", "product"}
ARITH = {"+", "-", "*", "/", "//", "%", "**", "add", "subtract", "multiply", "divide", "abs",
         "exp", "log", "sqrt", "power", "negative", "square", "absolute"}


def is_label(t, depth=0, memo=None):
    """the term holds class labels of the caller's dataset"""
    if memo is None:
        memo = {}
    if t in LABELS:
        return True
    if depth > 25:
        return False
    if t in memo:
        return memo[t]
    memo[t] = False
    r = False
    o = t.op
    if o in ("eq", "lt", "le", "not", "cnt", "ucounts", "len", "band", "bor", "isin", "where"):
        r = False
    elif o in ("idx", "slc", "del", "gidx", "cols", "row", "ravel", "flatten", "astype", "unique",
               "arrof", "T", "setitem", "flat", "part", "picks", "take", "rep", "row1", "anyof",
               "elem2"):
        r = isinstance(t.args[0], Term) and is_label(t.args[0], depth + 1, memo)
    elif o == "phi":
        r = any(isinstance(a, Term) and is_label(a, depth + 1, memo) for a in t.args[1:])
    elif o == "cat":
        r = bool(t.args) and all(isinstance(a, Term) for a in t.args) and \
            any(is_label(a, depth + 1, memo) for a in t.args)
    elif o == "lphi":
        a = t.args[-1]
        r = isinstance(a, Term) and is_label(a, depth + 1, memo)
    elif o == "call" and t.args and t.args[0] in ("mode", "sort", "asarray", "array", "copy"):
        r = any(isinstance(a, Term) and is_label(a, depth + 1, memo) for a in t.args[1:2])
    elif o == "m" and t.args and t.args[0] in ("predict", "fit_predict"):
        f = t.args[1]
        r = isinstance(f, Term) and fitted_on_labels(f, depth + 1, memo)
    elif o == "am" and len(t.args) >= 2 and t.args[0] in ("predict", "fit_predict"):
        # an object the user chooses, fitted on the labels
        f = t.args[1]
        r = isinstance(f, Term) and f.op == "am" and f.args[0] == "fit" and len(f.args) > 4 and \
            isinstance(f.args[4], Term) and is_label(f.args[4], depth + 1, memo)
    memo[t] = r
    return r


CLASSIFIERS = ("Classifier", "SVC", "LogisticRegression", "NB", "MLP")


def fitted_on_labels(f, depth, memo):
    if f.op == "fit" and len(f.args) >= 4:
        nw = f.args[0]
        names = repr(nw)
        if not any(c in names for c in CLASSIFIERS) and "param" not in names:
            return False
        return isinstance(f.args[3], Term) and is_label(f.args[3], depth + 1, memo)
    if f.op == "phi":
        return any(isinstance(a, Term) and fitted_on_labels(a, depth + 1, memo)
                   for a in f.args[1:])
    return False


def literal(t):
    return is_const(t) and isinstance(const_value(t), (int, float)) and \
        not isinstance(const_value(t), bool)


def encoded(t):
    """an array of zeros and ones made from a condition"""
    if t.op == "astype" and t.args[1] in ("int", "float", "numpy.int64"):
        return t.args[0].op in ("lt", "le", "eq", "not", "band", "bor")
    if t.op == "u" and t.args[0] == "where3" and len(t.args) == 4:
        return all(isinstance(a, Term) and literal(a) for a in t.args[2:])
    if t.op == "u" and t.args[0] == "*" and len(t.args) == 3:
        return any(is_const(b) and isinstance(a, Term) and
                   a.op in ("lt", "le", "eq", "not", "band", "bor")
                   for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1]))
                   if isinstance(b, Term))
    return False


def where_of(e):
    return f"{e.file}:{e.line} in {e.func}"


def unit(prog, un):
    Interp.trace_ops = True
    u = run_unit(prog, un)
    it = u.it
    obs = []
    n = {"cmp": 0, "arith": 0, "reduce": 0, "asindex": 0, "extfit": 0}
    bad = {}
    for e in it.events:
        if e.kind not in n:
            continue
        n[e.kind] += 1
        if e.kind == "cmp":
            op, a, b = e.data
            for p, q in ((a, b), (b, a)):
                if p.kind in ("arr", "num", "any") and is_label(p.term) and literal(q.term):
                    bad[(R_CMP, f"{e.func} {op} {const_value(q.term)}")] = (
                        e, f"class labels {p.term!r} are compared with the literal "
                           f"{const_value(q.term)!r}")
                if p.kind in ("arr", "num", "any") and is_label(p.term) and encoded(q.term):
                    bad[(R_CMP, f"{e.func} {op} 0/1")] = (
                        e, f"class labels {p.term!r} are compared with the zeros and ones of "
                           f"{q.term!r}")
        elif e.kind == "arith":
            op = e.data[0]
            if op in ARITH:
                for a in e.data[1:]:
                    if a.kind in ("arr", "num") and is_label(a.term):
                        bad[(R_ARI, f"{e.func} {op}")] = (
                            e, f"class labels {a.term!r} are an operand of {op}")
        elif e.kind == "reduce":
            op, a = e.data
            if op in MUL and a.kind == "arr" and (is_label(a.term) or a.term.op == "rows" and any(
                    is_label(x) for x in it.elem_of.get(a.term, ()))):
                bad[(R_ARI, f"{e.func} {op}")] = (e, f"{op} of the class labels {a.term!r}")
        elif e.kind == "extfit":
            cls, attr, args, kwargs = e.data
            if str(cls).endswith(REGRESSORS) and "LogisticRegression" not in str(cls):
                ys = list(args[1:2]) + [v for k, v in kwargs.items() if k == "y"]
                for a in ys:
                    a = it.strip(a)
                    if is_label(a.term):
                        bad[(R_REG, f"{e.func} {cls}")] = (
                            e, f"{cls} is fitted to the values of the class labels {a.term!r}")
        elif e.kind == "asindex":
            b, i = e.data
            if b == "bincount":
                if is_label(i.term):
                    bad[(R_IDX, f"{e.func} bincount")] = (e, f"class labels {i.term!r} are "
                                                             "counted by position")
                continue
            if i.kind in ("arr", "num") and b.kind in ("arr", "list", "tuple") and \
                    is_label(i.term):
                bad[(R_IDX, f"{e.func}")] = (e, f"class labels {i.term!r} are used as positions")
            if i.kind == "tuple" and len(i.data) == 2 and i.data[1].is_const and \
                    b.kind == "arr" and b.term.op == "m" and b.term.args[0] == "predict_proba":
                f = b.term.args[1]
                if isinstance(f, Term) and fitted_on_labels(f, 0, {}):
                    bad[(R_COL, f"{e.func}")] = (
                        e, f"column {i.data[1].value} of the class probabilities is taken "
                           "whatever the class is")
    for r in (R_CMP, R_ARI, R_IDX):
        obs.append(Ob(r, str(un), OK, un.name))
    for (r, k), (e, m) in bad.items():
        obs.append(Ob(r, k, BAD, where_of(e), m + f" (reached from {un})"))
    # literal labels in the returned label vector
    if un.kind in ("oversampler", "undersampler", "noise filter", "class"):
        ci = prog.classes[un.name]
        for call in un.calls:
            if call not in ("sample", "remove_noise"):
                continue
            for st, v in u.outs.get(call, ()):
                v = it.strip(v)
                if v.kind != "tuple" or len(v.data) != 2:
                    continue
                y = it.strip(v.data[1])
                for v in stored(y.term):
                    obs.append(Ob(R_OUT, un.name, BAD, ci.module.path,
                                  f"{v!r} is stored among the returned labels, which are values "
                                  "of the caller"))
                for _, ty, _ in pairs(AX, y.term):
                    for p in parts(ty):
                        rv = rep_value(p)
                        if rv is not None and literal(rv):
                            obs.append(Ob(R_OUT, un.name, BAD, ci.module.path,
                                          f"a returned block of labels is the literal {rv!r}"))
                obs.append(Ob(R_OUT, un.name, OK, ci.module.path))
                # the roles assigned by counting
                for l in [("self", un.name)]:
                    h = st.heap.get(l)
                    if h is None or "min_label" not in getattr(h, "attrs", {}):
                        continue
                    for attr, want in (("min_label", "min"), ("maj_label", "maj")):
                        a = h.attrs.get(attr)
                        if a is None:
                            continue
                        rs = roles(a.term)
                        k = f"{un.name}.{attr}"
                        if rs == {want}:
                            obs.append(Ob(R_MIN, k, OK, ci.module.path))
                        elif rs <= {"min", "maj"} and rs != {want}:
                            obs.append(Ob(R_MIN, k, BAD, ci.module.path,
                                          f"{attr} is the {sorted(rs)} class"))
                        elif any(isinstance(r, tuple) for r in rs) or a.kind == "none":
                            obs.append(Ob(R_MIN, k, BAD, ci.module.path,
                                          f"{attr} may be the literal {a.term!r}"))
                        else:
                            obs.append(Ob(R_MIN, k, UNK, ci.module.path, f"{attr}: {a.term!r}"))
    s = unit_stats(u)
    s.update({"events_" + k: v for k, v in n.items()})
    return obs, s


def stored(t, d=12):
    """what is put into the entries of a label vector that is no label"""
    if not d or not isinstance(t, Term):
        return []
    if t.op == "red" and t.args[0] in ("argmax", "argmin") or encoded(t):
        return [t]
    if t.op == "setitem" and len(t.args) > 2 and is_label(t.args[0]):
        v = t.args[2]
        bad = isinstance(v, Term) and (
            literal(v) or encoded(v) or v.op == "red" and v.args[0] in ("argmax", "argmin") or
            v.op in ("argsort", "arange", "where", "lt", "le", "eq", "not", "band", "bor"))
        return ([v] if bad else []) + stored(t.args[0], d - 1)
    if t.op == "phi":
        return [x for a in t.args[1:] for x in stored(a, d - 1)]
    if t.op in ("cat", "lphi"):
        return [x for a in t.args for x in stored(a, d - 1)]
    if t.op in ("idx", "slc", "del", "astype", "copy"):
        return stored(t.args[0], d - 1)
    return []


def roles(t):
    r = label_role(t)
    if r is not None:
        return {r}
    if t.op == "phi":
        out = set()
        for a in t.args[1:]:
            out |= roles(a) if isinstance(a, Term) else {None}
        return out
    return {None}


def main(tier):
    c = Check("C10", tier)
    c.run_units(unit, all_units(c.prog))
    c.explanation = (
        "Taint analysis of class labels: terms derived from the caller's label vector by selection, "
        "concatenation, counting of distinct values or by the predictions of a classifier fitted on "
        "them must not be compared with numeric literals, enter arithmetic or numeric reductions, "
        "or be used as positions; probability columns must be located through the classes of the "
        "classifier; min_label / maj_label must be the labels whose counts are compared as such.")
    return c.finish({R_CMP: 80, R_MIN: 100})
