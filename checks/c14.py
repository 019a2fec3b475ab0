"""C14: distances are measured with the metric the user asked for (nn_params), and the
parameters of neighbour searches and of the simplex sampling reach nested samplers."""
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, leaves, is_const, const_value
from sa import terms
from sa.values import AV, HDict, HList, HObj
from sa.units import all_units, unit_stats, run_unit, method_args, UnitRun
from sa.drive import ClassRun, ctor_params

R_NN = "neighbour-search-uses-nn-params"
R_DIST = "distance-matrix-uses-nn-params"
R_RAW = "no-unparametrised-search"
R_NEST = "nested-sampler-receives-nn-params"
R_SS = "nested-sampler-receives-ss-params"
R_WRAP = "wrapper-forwards-parameters"

WRAP = "NearestNeighborsWithMetricTensor"
DISTF = {"pairwise_distances_mahalanobis": "tensor", "distances_mahalanobis": "tensor",
         "n_neighbors_func": "metric_tensor"}
RAW = {"sklearn.neighbors.NearestNeighbors", "sklearn.metrics.pairwise_distances",
       "sklearn.metrics.pairwise.pairwise_distances", "sklearn.metrics.pairwise.euclidean_distances",
       "sklearn.neighbors.KNeighborsClassifier", "sklearn.neighbors.KDTree",
       "sklearn.neighbors.BallTree", "scipy.spatial.distance.cdist", "scipy.spatial.cKDTree",
       "scipy.spatial.KDTree", "sklearn.metrics.pairwise_distances_argmin"}
# distances that are part of the published algorithm, not neighbour searches
RAW_BY_DESIGN = {"SMOTE_FRST_2T": "rough-set dissimilarity (L1)",
                 "SMOTE_RSB": "rough-set similarity (max-normalised)",
                 "G_SMOTE": "Gaussian kernel matrix",
                 "LLE_SMOTE": "locally linear embedding", "ISOMAP_Hybrid": "isomap embedding"}


def names(t, acc):
    for x in leaves(t):
        if x.op in ("param", "arg"):
            acc.add((x.op, x.args[0]))


def deps(v, st):
    """parameters and arguments the value (and what it contains) depends on"""
    acc = set()
    seen = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x.term, Term):
            names(x.term, acc)
        if x.kind in ("tuple", "union"):
            todo.extend(y for y in x.data if isinstance(y, AV))
        ls = set(x.locs)
        if x.kind in ("obj", "list", "dict", "set", "ext") and isinstance(x.data, tuple):
            ls.add(x.data)
        for l in ls:
            if l in seen:
                continue
            seen.add(l)
            if l[0] in ("param", "arg"):
                acc.add((l[0], l[1]))
            h = st.heap.get(l)
            if isinstance(h, HDict):
                todo.extend(h.keys.values())
                todo.extend(r for r in h.rest if isinstance(r, AV))
            elif isinstance(h, HList):
                todo.extend(h.items or ())
                if h.elem is not None:
                    todo.append(h.elem)
    return acc


def stray(t, name, limit=400):
    """an alternative of t, chosen without regard to the parameter, that ignores it"""
    uid = {x.uid: x for x in terms._table.values()}
    n = [0]

    def mentions(x):
        acc = set()
        names(x, acc)
        return ("param", name) in acc

    def go(x):
        n[0] += 1
        if n[0] > limit:
            return None
        if isinstance(x, Term) and x.op == "phi":
            g = x.args[0]
            if isinstance(g, Term) and g.op == "if":
                if mentions(g):
                    return None
            elif isinstance(g, Term) and g.op == "sel":
                us = set()
                for path in g.args[0]:
                    for c in path:
                        us.add(c[0])
                if any(u in uid and mentions(uid[u]) for u in us):
                    return None
            else:
                return None
            for a in x.args[1:]:
                r = go(a)
                if r is not None:
                    return r
            return None
        if isinstance(x, Term) and not mentions(x):
            return x
        return None
    return go(t)


def judge(v, st, name, need_data):
    """None when the value honours the parameter, else what is wrong"""
    d = deps(v, st)
    if ("param", name) not in d:
        return f"does not depend on {name}"
    if need_data and not any(k == "arg" for k, _ in d):
        return "is not derived from the data of the call"
    if v.kind == "dict":
        h = st.heap.get(v.data)
        vals = list(h.keys.items()) if isinstance(h, HDict) else []
        for k, x in vals:
            if k in ("metric_tensor", "metric"):
                r = judge(x, st, name, False)
                if r:
                    return f"[{k!r}] {r}"
        return None
    s = stray(v.term, name) if isinstance(v.term, Term) else None
    if s is not None:
        return f"may be {s!r}"[:120] + f" regardless of {name}"
    return None


def unit(prog, un):
    ci = prog.classes[un.name]
    obs = {}
    order = {OK: 0, UNK: 1, BAD: 2}
    fi, ps, _ = ctor_params(ci)
    own = {n for n, _ in ps}
    call = un.calls[0]
    args = method_args(prog, ci, call)
    r = ClassRun(prog, ci)
    it = r.it
    u = UnitRun()
    u.it = it
    if args is None:
        return [], unit_stats(u)

    def put(rule, key, verdict, where, msg=""):
        k = (rule, key)
        if k not in obs or order[verdict] > order[obs[k].verdict]:
            obs[k] = Ob(rule, key, verdict, where, msg)

    def where(it, node):
        fr = it.stack[-2][0] if len(it.stack) > 1 else it.stack[-1][0]
        return (f"{fr.module.path}:{getattr(node, 'lineno', 0)} in {fr.fi.qualname}",
                fr.fi.qualname)

    def bound(it, fi, env, st, node):
        q = fi.qualname
        if q in DISTF or q == WRAP + ".__init__":
            w, f = where(it, node)
            if q in DISTF:
                v = env.get(DISTF[q])
                bad = judge(v, st, "nn_params", True) if v is not None else "is missing"
                put(R_DIST, f"{un.name}: {q} in {f}", BAD if bad else OK, w,
                    f"the {DISTF[q]} of {q} {bad}" if bad else "")
            else:
                for p in ("metric", "metric_tensor"):
                    bad = judge(env[p], st, "nn_params", p == "metric_tensor")
                    put(R_NN, f"{un.name}: {p} in {f}", BAD if bad else OK, w,
                        f"the {p} of the neighbour search {bad}" if bad else "")
            return
        if fi.name != "__init__" or fi.cls is None or len(it.stack) < 2:
            return
        # a nested sampler or filter (not a base-class constructor of the object itself)
        caller = it.stack[-2][0].fi
        if caller is not None and caller.name == "__init__":
            return
        for p, rule in (("nn_params", R_NN), ("ss_params", R_SS)):
            if p in own and p in env:
                w, f = where(it, node)
                bad = judge(env[p], st, p, False)
                rule = R_NEST if p == "nn_params" else R_SS
                put(rule, f"{un.name}: {fi.cls.name} in {f}", BAD if bad else OK, w,
                    f"the {p} given to {fi.cls.name} {bad}" if bad else "")

    if "nn_params" in own:
        it.on_bound = bound
    ev0 = len(it.events)
    r.call(call, [], dict(args), phase=call)
    if "nn_params" in own:
        for e in it.events[ev0:]:
            if e.kind != "extcall" or e.data[0] not in RAW:
                continue
            nm = e.data[0]
            if un.name in RAW_BY_DESIGN:
                continue
            if e.func.startswith(("ClosestNeighborsInClasses", "MetricTensor")):
                continue    # part of the metric learning itself
            m = e.data[3].get("metric")
            ok = False
            if m is not None and isinstance(m.term, Term):
                acc = set()
                names(m.term, acc)
                ok = ("param", "nn_params") in acc
            put(R_RAW, f"{un.name}: {nm} in {e.func}", OK if ok else BAD, e.where(),
                "" if ok else f"{nm} is used without the metric of nn_params")
    return list(obs.values()), unit_stats(u)


def wrapper(prog, _):
    """the metric-tensor aware neighbour search forwards every parameter to sklearn's and uses
    the tensor for both kinds of query"""
    ci = prog.classes[WRAP]
    obs = []
    r = ClassRun(prog, ci)
    u = UnitRun()
    u.it = r.it
    n = 0
    for e in r.it.events:
        if e.kind == "extcall" and e.data[0] == "sklearn.neighbors.NearestNeighbors":
            kw = e.data[3]
            for p, _ in r.params:
                if p == "metric_tensor":
                    continue
                n += 1
                v = kw.get(p)
                good = v is not None and isinstance(v.term, Term) and v.term.op == "param" \
                    and v.term.args[0] == p
                opaque = bool(e.data[4])
                obs.append(Ob(R_WRAP, f"{WRAP} {p}", OK if good else (UNK if opaque else BAD),
                              e.where(), "" if good else f"{p} is not passed on unchanged"))
    for p in ("metric_tensor",):
        for call in ("kneighbors", "radius_neighbors"):
            f = ci.find(call)
            if f is None:
                continue
            run = ClassRun(prog, ci)
            a = run.call("fit", [], dict(method_args(prog, ci, "fit")), phase="fit")
            run.it.merge_alts([(s.copy(), v) for s, v in a], run.st)
            used = [0]

            def bound(it, fi, env, st, node):
                if fi.qualname in DISTF and DISTF[fi.qualname] in env:
                    v = env[DISTF[fi.qualname]]
                    acc = set()
                    names(v.term, acc)
                    if ("param", p) in acc:
                        used[0] += 1
            run.it.on_bound = bound
            run.call(call, [], dict(method_args(prog, ci, call)), phase=call)
            obs.append(Ob(R_WRAP, f"{WRAP}.{call} {p}", OK if used[0] else BAD,
                          f"{f[1].module.path}:{f[1].node.lineno} in {f[1].qualname}",
                          "" if used[0] else f"{call} never measures with the {p}"))
    for call, p in (("kneighbors", "n_neighbors"), ("radius_neighbors", "radius")):
        f = ci.find(call)
        if f is None:
            continue
        where = f"{f[1].module.path}:{f[1].node.lineno} in {f[1].qualname}"
        for given in (False, True):
            run = ClassRun(prog, ci)
            it = run.it
            a = run.call("fit", [], dict(method_args(prog, ci, "fit")), phase="fit")
            it.merge_alts([(s.copy(), v) for s, v in a], run.st)
            kw = dict(method_args(prog, ci, call))
            if given:
                kw[p] = AV("num", T("arg", p))
            want = ("arg", p) if given else ("param", p)
            miss = []
            n = 0
            for st, v in run.call(call, [], kw, phase=call):
                acc = closure(it, it.strip(v))
                n += 1
                if want not in acc:
                    miss.append(v)
            obs.append(Ob(R_WRAP, f"{WRAP}.{call} {p} {'given' if given else 'default'}",
                          UNK if not n else BAD if miss else OK, where, "" if not miss else
                          f"a {call} query does not depend on " +
                          (f"the {p} it is given" if given else f"the {p} of the object")))
    return obs, unit_stats(u)


def closure(it, v):
    """parameters and arguments a value depends on, through loops and collected elements"""
    acc, seen = set(), set()
    todo = [v.term]
    if v.kind == "tuple":
        todo += [it.strip(x).term for x in v.data]
    while todo:
        t = todo.pop()
        if not isinstance(t, Term) or t in seen:
            continue
        seen.add(t)
        if t.op in ("param", "arg"):
            acc.add((t.op, t.args[0]))
        if t in it.phi_def:
            todo += [x.term for x in it.phi_def[t]]
        if t in it.elem_of:
            todo += list(it.elem_of[t])
        todo += [a for a in t.args if isinstance(a, Term)]
    return acc


def main(tier):
    c = Check("C14", tier)
    us = [x for x in all_units(c.prog) if x.kind in ("oversampler", "noise filter",
                                                     "undersampler")]
    c.run_units(unit, us)
    c.run_units(wrapper, [None])
    c.explanation = (
        "Dependence analysis of every metric, metric tensor and nn_params/ss_params value that "
        "reaches a neighbour search, a distance matrix or a nested sampler on any path of any "
        "sampler with these parameters (callees inlined): each alternative of the value must be "
        "derived from, or selected by, the constructor parameter; the tensor also from the data "
        "of the call; and no neighbour search may be built outside the parametrised one.")
    c.assumptions = ["distances that define the published algorithm rather than a neighbour "
                     "search are exempt: " + "; ".join(f"{k}: {v}" for k, v in
                                                       sorted(RAW_BY_DESIGN.items()))]
    return c.finish({R_NN: 120, R_DIST: 50, R_NEST: 12, R_WRAP: 8})
