"""C18: samples are returned in the caller's feature space (or in the one new data are mapped to)."""
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, show
from sa.units import os_classes, nf_classes, us_classes, run_unit, unit_stats, Unit, \
    method_args
from sa.values import AV, HDict
from sa.drive import ClassRun
from sa.terms import leaves
from sa.lengths import conds_of, norm_cond, contradictory
from checks.outputs import AX, AY, arms, parts, label_role
from checks.spaces import Space, CALLER, UNKNOWN, describe, same_space

R_SPACE = "rows-in-one-space"
R_PRE = "new-data-mapped-like-the-samples"
R_COORD = "rows-have-coordinates"
R_QUERY = "models-are-queried-in-their-space"
R_TENSOR = "metric-of-the-compared-data"

AQ = T("arg", "Q")


def prune(t, cs, memo=None):
    """the term with the joins the conditions decide replaced by their arm"""
    memo = {} if memo is None else memo
    if not isinstance(t, Term):
        return t
    if t in memo:
        return memo[t]
    memo[t] = t
    if t.op == "phi" and isinstance(t.args[0], Term) and label_role(t) is None:
        live = []
        for i, a in enumerate(t.args[1:]):
            nc = dict(cs)
            ok = True
            for c, p in conds_of(t.args[0], i, len(t.args) - 1):
                c, p = norm_cond(c, p)
                if nc.get(c, p) != p:
                    ok = False
                    break
                nc[c] = p
            if ok and not contradictory(nc):
                live.append(a)
        r = prune(live[0], cs, memo) if len(live) == 1 else t
        memo[t] = r
        return r
    if t.op in ("arg", "const", "param", "lphi", "draw"):
        return t
    na = tuple(prune(a, cs, memo) for a in t.args)
    r = t if all(a is b for a, b in zip(na, t.args)) else T(t.op, *na)
    memo[t] = r
    return r


def blocks(t):
    """row blocks of a returned array"""
    if t.op == "cat":
        return [b for p in t.args for b in blocks(p)]
    if t.op == "phi" and label_role(t) is None:
        return [b for a in t.args[1:] if isinstance(a, Term) for b in blocks(a)]
    return [t]


def judge_space(obs, key, where, sp, t, mapped):
    s = sp.of(t)
    known = s - {UNKNOWN}
    inv = [x for x in known if broken(x)]
    if inv:
        obs.append(Ob(R_SPACE, key, BAD, where, describe(inv[0])))
        return None
    bs = [(b, sp.of(b)) for b in blocks(t)]
    exact = [x for b, x in bs if len(x) == 1 and UNKNOWN not in x]
    kinds = []
    for x in exact:
        y = next(iter(x))
        if not any(same_space(y, k) for k in kinds):
            kinds.append(y)
    if CALLER in kinds:
        for b, x in bs:
            if x and UNKNOWN not in x and CALLER not in x and len(x) > 1:
                kinds += list(x)
                break
    if len(kinds) > 1:
        obs.append(Ob(R_SPACE, key, BAD, where, "the returned rows are in different spaces: " +
                      " and ".join(describe(k) for k in kinds)))
        return None
    groups = []
    for y in known:
        if not any(same_space(y, k) for k in groups):
            groups.append(y)
    if len(groups) == 1 and groups[0] == CALLER:
        obs.append(Ob(R_SPACE, key, OK, where, ""))
        return CALLER
    if len(groups) == 1 and UNKNOWN not in s:
        if mapped:
            obs.append(Ob(R_SPACE, key, OK, where, ""))
        else:
            obs.append(Ob(R_SPACE, key, BAD, where, "the returned rows are " +
                          describe(groups[0]) + ", while new data are not transformed"))
        return groups[0]
    obs.append(Ob(R_SPACE, key, UNK, where, f"{[describe(k) for k in groups]} " +
                  " ".join(show(k, 3)[:80] for k in list(sp.unk)[:2])))
    return None


def broken(x):
    while isinstance(x, tuple):
        if x[0] == "inv":
            return True
        x = x[-1]
    return False


def unit(prog, job):
    kind, name, call = job
    if kind == "metric":
        obs, n = tensors(prog, name)
        return obs, {"distance_uses": n}
    u = run_unit(prog, Unit(kind, name, (call,)))
    it = u.it
    ci = prog.classes[name]
    f = ci.find("sampling_algorithm") or ci.find(call)
    where = f"{f[1].module.path}:{f[1].node.lineno} in {f[1].qualname}"
    pf = ci.find("preprocessing_transform")
    identity = pf is None or is_identity(pf[1].node)
    pwhere = f"{pf[1].module.path}:{pf[1].node.lineno} in {pf[1].qualname}" if pf else where
    obs = []
    n = 0
    seen = set()
    for st, v in u.outs.get(call, ()):
        v = it.strip(v)
        if v.kind != "tuple" or len(v.data) != 2:
            obs.append(Ob(R_SPACE, name, UNK, where, f"result {v!r}"))
            continue
        x = it.strip(v.data[0])
        pre = None
        if not identity:
            q = AV("arr", AQ, frozenset([("arg", "Q")]), nd=2, ln=T("len", AQ))
            it.phase = "preprocessing_transform"
            from sa.drive import DUMMY
            pre = [(s, it.strip(w)) for s, w in it.call_func(
                pf[1], [u.run.obj, q], {}, [], st.copy(), DUMMY, cls=pf[2])]
        for tx, cs in arms(x.term):
            if identity and tx in seen:
                continue
            seen.add(tx)
            n += 1
            sp = Space(it)
            got = judge_space(obs, name, where, sp, prune(tx, cs) if not identity else tx,
                              not identity)
            for b in blocks(tx):
                if b.op not in ("emptylist", "rep", "const2") and not sp.of(b) and coordless(it, b):
                    obs.append(Ob(R_COORD, name, BAD, where, "rows without coordinates of the "
                                  f"data are returned: {show(b, 3)[:120]}"))
            if identity or got is None:
                continue
            for s, w in pre:
                for tp, cp in arms(w.term, cs):
                    sq = Space(it)
                    sq.base = AQ
                    g = sq.of(prune(tp, cp))
                    ok = len(g) == 1 and same_space(next(iter(g)), got)
                    if prune(tp, cp).op in ("nax", "nax0"):
                        obs.append(Ob(R_PRE, name, BAD, pwhere, "new data are given another "
                                      "number of dimensions instead of being mapped to the space "
                                      f"of the sampled data ({describe(got)})"))
                        continue
                    unk = UNKNOWN in g or not g
                    obs.append(Ob(R_PRE, name, OK if ok else UNK if unk else BAD, pwhere,
                                  "" if ok else f"the sampled data are {describe(got)}, new data "
                                  f"{' or '.join(describe(y) for y in g) or 'not resolved'}"))
    obs += queries(it, Space(it), name)
    st = unit_stats(u)
    st["return_alternatives"] = n
    return obs, st


def meet(a, b):
    """False when both sides are known and certainly in different spaces, None when not known"""
    if not a or not b or UNKNOWN in a or UNKNOWN in b:
        return None
    return any(same_space(x, y) for x in a for y in b)


def names(s):
    return " or ".join(sorted(describe(x) for x in s))


def site(e, it):
    return f"{e.file}:{e.line} in {e.func}"


def queries(it, sp, key):
    """every query of a fitted model, against the space the model was fitted in"""
    out = {}
    for e in it.events:
        if e.kind != "query":
            continue
        cls, attr, state, a0 = e.data
        f, q = sp.fitted(state), sp.of(it.strip(a0).term)
        k = f"{key}:{e.file}:{e.func}:{e.line}:{attr}"
        m = meet(f, q)
        if m is None:
            # the class of the space is not known: nothing is claimed about the site
            continue
        if out.get(k, (None, True))[1] is not False:
            out[k] = (e, m, f, q, cls, attr)
    return [Ob(R_QUERY, k, OK if m else BAD, site(e, it), "" if m else
               f"{cls}.{attr} is given rows {names(q)}, but was fitted to rows {names(f)}")
            for k, (e, m, f, q, cls, attr) in out.items()]


TENSOR_USERS = ("n_neighbors_func", "pairwise_distances_mahalanobis", "distances_mahalanobis")


def record_tensors(it):
    """learned metric tensors become terms of the data they are learned from; their uses are kept"""
    uses = []

    def arg(args, kwargs, i, name):
        if len(args) > i:
            return it.strip(args[i])
        return it.strip(kwargs[name]) if name in kwargs else None

    def learn(it_, fi, args, kwargs, rest, st, node):
        nn, X = arg(args, kwargs, 1, "nn_params"), arg(args, kwargs, 2, "X")
        if X is None:
            return None
        h = st.heap.get(nn.data) if nn is not None and nn.kind == "dict" else None
        if isinstance(h, HDict) and "metric_tensor" in h.keys:
            return h.keys["metric_tensor"]
        return AV("arr", T("tensor", X.term), frozenset([it.newloc(node, "tensor")]), None, 2,
                  T("ncols", X.term))

    def use(it_, fi, args, kwargs, rest, st, node):
        X = arg(args, kwargs, 0, "X")
        Y = arg(args, kwargs, 1, "Y") or (it.strip(kwargs["X_fitted"]) if "X_fitted" in kwargs
                                          else None)
        t = None
        for nm in ("metric_tensor", "tensor"):
            if nm in kwargs:
                t = it.strip(kwargs[nm])
        caller = it.stack[-1][0] if it.stack else None
        own = [f for f, _ in it.stack if "_metrictensor" not in f.fi.module.path]
        fr = own[-1] if own else caller
        if X is not None and fr is not None:
            uses.append((fi.name, X, Y, t, fr.fi.module.path, fr.fi.qualname))
        return None

    it.func_override["MetricLearningMixin.metric_tensor_from_nn_params"] = learn
    for q in TENSOR_USERS:
        it.func_override[q] = use
    return uses


def tensors(prog, name):
    """uses of learned metric tensors in the sampling of one class"""
    r = ClassRun(prog, prog.classes[name])
    it = r.it
    uses = record_tensors(it)
    it.phase = "sample"
    r.call("sample", [], dict(method_args(prog, r.ci, "sample")), phase="sample")
    sp = Space(it)
    out = {}
    for fn, X, Y, t, path, func in uses:
        ts = set()
        for x in leaves(t.term) if t is not None else ():
            if x.op == "tensor":
                ts |= sp.of(x.args[0])
        xs = set(sp.of(X.term))
        ys = set(sp.of(Y.term)) if Y is not None and Y.kind != "none" else set()
        k = f"{name}:{func}:{fn}"
        for a, b, what in ((xs, ts, "by a metric learned from rows"), (ys, ts,
                           "by a metric learned from rows"), (xs, ys, "to rows")):
            m = meet(a, b)
            if m is None:
                continue
            if out.get(k, (True,))[0]:
                out[k] = (m, f"{path} in {func}", f"rows {names(a)} are compared {what} {names(b)}")
    return [Ob(R_TENSOR, k, OK if m else BAD, w, "" if m else d)
            for k, (m, w, d) in out.items()], len(uses)


def coordless(it, b):
    """a block that is certainly no function of coordinates: dimensionless or mere numbers"""
    return b.op == "u" or b.op == "draw"


def is_identity(fn):
    import ast
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    args = [a.arg for a in fn.args.args]
    return len(body) == 1 and isinstance(body[0], ast.Return) and \
        isinstance(body[0].value, ast.Name) and len(args) > 1 and body[0].value.id == args[1]


def main(tier):
    c = Check("C18", tier)
    jobs = [("oversampler", x.name, "sample") for x in os_classes(c.prog)] + \
        [("undersampler", x.name, "sample") for x in us_classes(c.prog)] + \
        [("noise filter", x.name, "remove_noise") for x in nf_classes(c.prog)]
    jobs += [("metric", x.name, "sample") for x in os_classes(c.prog)]
    c.run_units(unit, jobs)
    c.explanation = (
        "Feature-space (unit) inference over the symbolic value of every returned dataset: the "
        "caller's matrix is in the caller's space; transform/fit_transform of a fitted estimator "
        "move rows to the estimator's space, inverse_transform of the same fitted estimator back; "
        "selection, stacking, interpolation, means and noise keep the space; distances, weights, "
        "indices and draws have none. All rows of a result must be in one space: the caller's, or "
        "the one preprocessing_transform, analysed in the state left by the same path, maps new "
        "data to.")
    c.assumptions = ["estimators' inverse_transform inverts their transform",
                     "an operation of unknown effect on coordinates leaves the path undecided"]
    return c.finish({R_SPACE: 60})
