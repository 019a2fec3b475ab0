"""Public entry points of the library, analysed the way a user calls them."""
from .terms import T, const
from .values import AV, HObj, HDict, State, NONE, EMPTY, vconst, vnum, vany, vtuple
from .interp import Interp
from .drive import ClassRun, DUMMY, data_args, reachable, sym_param, ctor_params


def arr_arg(name, nd, ln=None):
    return AV("arr", T("arg", name), frozenset([("arg", name)]), nd=nd,
              ln=ln if ln is not None else T("len", T("arg", name)))


def any_arg(name):
    return vany(T("arg", name), frozenset([("arg", name)]))


ABSTRACT = {"OverSamplingBase", "OverSampling", "OverSamplingSimplex", "UnderSampling",
            "NoiseFilter"}


def os_classes(prog):
    base = prog.classes["OverSamplingBase"]
    return [c for c in prog.subclasses(base) if c.name not in ABSTRACT]


def nf_classes(prog):
    return [c for c in prog.subclasses(prog.classes["NoiseFilter"]) if c.name not in ABSTRACT]


def us_classes(prog):
    return [c for c in prog.subclasses(prog.classes["UnderSampling"]) if c.name not in ABSTRACT]


class Unit:
    """kind, name, and the list of (method, args) calls made after construction"""

    def __init__(self, kind, name, calls=()):
        self.kind = kind
        self.name = name
        self.calls = calls

    def __str__(self):
        return f"{self.kind}:{self.name}"


def all_units(prog):
    us = []
    for c in os_classes(prog):
        us.append(Unit("oversampler", c.name, ("sample",)))
    for c in us_classes(prog):
        us.append(Unit("undersampler", c.name, ("sample",)))
    for c in nf_classes(prog):
        us.append(Unit("noise filter", c.name, ("remove_noise",)))
    extra = [("MulticlassOversampling", ("sample",)),
             ("OversamplingClassifier", ("fit", "predict", "predict_proba")),
             ("MLPClassifierWrapper", ("fit", "predict", "predict_proba")),
             ("NearestNeighborsWithMetricTensor", ("fit", "kneighbors")),
             ("MetricTensor", ("tensor",)),
             ("ClosestNeighborsInClasses", ("fit_transform",)),
             ("RemoveCorrelatedColumns", ("fit", "transform"))]
    for n, calls in extra:
        if n in prog.classes:
            us.append(Unit("class", n, calls))
    for f in ("calculate_label_scores", "calculate_all_scores", "calculate_prob_scores", "calculate_atoms",
              "prediction_labels", "pairwise_distances_mahalanobis", "construct_tensor",
              "estimate_mutual_information", "n_neighbors_func", "fix_density", "cov",
              "mode", "distances_mahalanobis"):
        if find_function(prog, f):
            us.append(Unit("function", f))
    return us


def find_function(prog, name):
    for m in prog.modules.values():
        r = m.bindings.get(name)
        if r is not None and r[0] == "func":
            return r[1]
    return None


class UnitRun:
    def __init__(self):
        self.it = None
        self.st = None
        self.outs = {}          # call name -> list of (state, AV)
        self.run = None


def method_args(prog, ci, name):
    """symbolic arguments for a public data method, by parameter name"""
    f = ci.find(name)
    if f is None or f[0] != "method":
        return None
    a = f[1].node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if f[1].kind == "method" and names:
        names = names[1:]
    nd = len(a.defaults)
    req = names
    out = []
    for n in req:
        if n in ("X", "X_train", "X_test", "Y"):
            out.append((n, arr_arg(n, 2)))
        elif n in ("y", "y_train", "y_test"):
            out.append((n, arr_arg(n, 1, T("len", T("arg", "X")) if n == "y" else None)))
    return out


def run_unit(prog, unit, budget=240.0, preset=None):
    u = UnitRun()
    if unit.kind == "function":
        fi = find_function(prog, unit.name)
        it = Interp(prog, budget_s=budget)
        st = State()
        it.phase = "call"
        kwargs = {}
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        dfl = dict(zip([x.arg for x in a.posonlyargs + a.args][-len(a.defaults):]
                       if a.defaults else [], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dfl[x.arg] = d
        for n in names:
            if n == "atoms":
                loc = ("arg", n)
                st.heap[loc] = HDict({k: vnum(T("arg", k)) for k in ("tp", "tn", "fp", "fn")})
                kwargs[n] = AV("dict", T("arg", n), frozenset([loc]), loc)
            elif n in dfl:
                kwargs[n] = sym_param(n, dfl[n], "arg")
            else:
                kwargs[n] = arr_arg(n, 2 if n[:1].isupper() or "matrix" in n else 1)
        u.it, u.st = it, st
        u.outs["call"] = it.call_func(fi, [], kwargs, [], st, DUMMY)
        return u
    ci = prog.classes[unit.name]
    r = ClassRun(prog, ci, budget=budget, preset=preset)
    u.run = r
    u.it, u.st = r.it, r.st
    r.it.pre_locs = frozenset(reachable([r.loc], r.st))
    for c in unit.calls:
        args = method_args(prog, ci, c)
        if args is None:
            continue
        alts = r.call(c, [], dict(args), phase=c)
        u.outs[c] = alts
        if c != unit.calls[-1]:
            r.it.merge_alts([(s.copy(), v) for s, v in alts], r.st)
    return u


def unit_stats(u):
    it = u.it
    return {"functions": set(f"{p}:{q}" for p, q in it.funcs),
            "calls_inlined": it.n_calls,
            "effects_logged": len(it.events),
            "recursion_cuts": it.depth_cut,
            "unmodelled_constructs": set(it.gaps),
            "budget_hits": 1 if it.budget_hit else 0}
