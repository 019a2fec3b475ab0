"""C23: the classifier wrappers learn from and predict with what they were given."""
import numpy as np
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, const, is_const, const_value, leaves, show
from sa.values import AV, NONE, vany, vconst, vnum, vstr, vtuple
from sa.drive import DUMMY
from checks.evalmodel import (spec, start, construct, invoke, install, newobj, getarg, cases,
                              free_run, made_state, dict_arg)
from checks.c19 import where_of, entries
from checks.domains import Unknown
from checks.numeval import NumEval, Undefined

R_FIT = "trained-on-the-sampled-data"
R_SPACE = "predicts-in-the-sampled-space"
R_SELF = "fit-returns-the-fitted-object"
R_CLASSES = "classes-of-the-fitted-classifier"
R_GET = "parameters-reported-as-given"
R_SET = "set-parameters-take-effect"
R_INST = "object-built-from-its-description"
R_MLP = "mlp-parameters-passed-on"
R_HID = "hidden-layer-size"
R_COPY = "copy-has-the-same-parameters"
OPS = {"arg", "new", "tr", "pp", "sx", "sy", "fitted", "sampled", "tuple", "const", "pred",
       "proba", "k", "made", "mlp", "cat", "slc", "len"}


def clear(t):
    return isinstance(t, Term) and all(x.op in OPS for x in leaves(t) if isinstance(x, Term))


def stats(it):
    return {"functions": set(f"{p}:{q}" for p, q in it.funcs), "calls_inlined": it.n_calls,
            "unmodelled_constructs": set(it.gaps)}


def data(k):
    n = T("len", T("arg", "X" + k))
    return (AV("arr", T("arg", "X" + k), frozenset([("arg", "X" + k)]), nd=2, ln=n),
            AV("arr", T("arg", "y" + k), frozenset([("arg", "y" + k)]), nd=1, ln=n))


def one(it, alts):
    """the values of all returning paths"""
    out = []
    for s, v in alts:
        out += [(s, it.strip(x)) for x in (v.data if v.kind == "union" else [v])]
    return out


def spec_is(got, want):
    """object of the description: same module, class and parameters"""
    return isinstance(got, Term) and got.op == "new" and got.args[0] is want.term


def judge(obs, rule, key, where, got, want, eq=None):
    """got, want: terms after resolution of the cases"""
    cs = cases([got])
    if cs is None:
        obs.append(Ob(rule, key, UNK, where, "too many cases"))
        return
    verdict, msg = OK, ""
    for ch, (g,) in cs:
        if g is want or eq is not None and eq(g):
            continue
        if any(isinstance(k, Term) and k.op in ("exc", "try") for k in ch):
            continue
        if clear(g):
            verdict, msg = BAD, f"{show(g, 6)} instead of {show(want, 6)}"
            break
        verdict, msg = UNK, f"{show(g, 5)}"
    obs.append(Ob(rule, key, verdict, where, msg))


def norm(t):
    """object descriptions without the place of their construction"""
    if not isinstance(t, Term):
        return t
    if t.op == "new":
        return T("new", norm(t.args[0]))
    return T(t.op, *[norm(a) for a in t.args])


def expected(osp, csp, k, q, meth):
    s = T("sampled", T("new", osp.term), T("arg", "X" + k), T("arg", "y" + k))
    c = T("fitted", T("new", csp.term), T("sx", s), T("sy", s))
    return T({"predict": "pred", "predict_proba": "proba"}[meth], c, T("pp", s, T("arg", "X" + q)))


def unit_wrap(prog, job):
    """job: (prediction method, sequence of steps before it)"""
    meth, steps = job
    obs = []
    it, st, ci, obj = start(prog, "OversamplingClassifier")
    install(it)
    cur = {"oversampler": spec("o1"), "classifier": spec("c1")}
    construct(it, st, ci, obj, dict(cur))
    tag = meth + " after " + ", ".join("set_params(" + ", ".join(x[1:]) + ")" if x[0] == "set"
                                       else f"fit {x[1]}" for x in steps)
    last = None
    for step in steps:
        if step[0] == "fit":
            X, y = data(step[1])
            alts = invoke(it, st, ci, obj, "fit", [X, y])
            where = where_of(ci, "fit")
            vs = one(it, alts)
            if not vs:
                obs.append(Ob(R_SELF, tag, UNK, where, "fit returns nowhere"))
                return obs, stats(it)
            okv = all(v.kind == "obj" and v.data == obj.data for s, v in vs)
            none = any(v.kind == "none" or v.is_const and v.value is None for s, v in vs)
            obs.append(Ob(R_SELF, tag, OK if okv else BAD if none else UNK, where,
                          "" if okv else f"returns {show(vs[0][1].term)}"))
            it.merge_alts(alts, st)
            last = step[1]
        else:
            kw = {k: spec(k[0] + "2") for k in step[1:]}
            cur.update(kw)
            if ci.find("set_params") is None:
                obs.append(Ob(R_SET, tag, UNK, "", "no set_params"))
                return obs, stats(it)
            alts = invoke(it, st, ci, obj, "set_params", [], kw)
            it.merge_alts(alts, st)
    where = where_of(ci, meth)
    X, _ = data("q")
    alts = invoke(it, st, ci, obj, meth, [X])
    vs = one(it, alts)
    if not vs:
        obs.append(Ob(R_SPACE, tag, UNK, where, "returns nowhere"))
        return obs, stats(it)
    want = expected(cur["oversampler"], cur["classifier"], last, "q", meth)
    for s, v in vs:
        got = norm(v.term)
        rule = R_SET if any(x[0] == "set" for x in steps) else R_FIT
        # model and query separately
        cs = cases([got])
        if cs and all(g[0].op == want.op and len(g[0].args) == 2 for _, g in cs):
            for i, r in ((0, rule), (1, R_SPACE)):
                for _, (g,) in cs:
                    judge(obs, r, tag, where, g.args[i], want.args[i])
        else:
            judge(obs, rule, tag, where, got, want)
    # get_params
    where = where_of(ci, "get_params")
    for s, v in one(it, invoke(it, st, ci, obj, "get_params")):
        ks = entries(v, s)
        for k, w in cur.items():
            g = it.strip(ks[k]).term if ks and k in ks else None
            if ks is not None and not s.heap[v.data].rest and g is None:
                obs.append(Ob(R_GET, f"{tag}: {k}", BAD, where, "not reported"))
            elif g is None:
                obs.append(Ob(R_GET, f"{tag}: {k}", UNK, where, "not found"))
            else:
                judge(obs, R_GET, f"{tag}: {k}", where, g, w.term)
    return obs, stats(it)


def unit_classes(prog, job):
    obs = []
    it, st, ci, obj = start(prog, "OversamplingClassifier")
    install(it)
    seen = []

    def attr(it, o, name, st, writing, node):
        return None
    construct(it, st, ci, obj, {"oversampler": spec("o1"), "classifier": spec("c1")})
    X, y = data("1")
    alts = invoke(it, st, ci, obj, "fit", [X, y])
    where = where_of(ci, "fit")
    it.merge_alts(alts, st)
    h = st.heap[obj.data]
    v = h.attrs.get("classes_")
    if v is None:
        obs.append(Ob(R_CLASSES, "classes_", UNK, where, "attribute not found"))
    else:
        v = it.strip(v)
        lv = leaves(v.term) | {v.term}
        none = v.kind == "none" or is_const(v.term)
        raw = {x for x in lv if isinstance(x, Term) and x.op == "arg"}
        ok = any(isinstance(x, Term) and x.op in ("made", "new") and
                 spec("c1").term in leaves(x) for x in lv)
        obs.append(Ob(R_CLASSES, "classes_", BAD if none else OK if ok else UNK, where,
                      show(v.term, 5)))
    return obs, stats(it)


def unit_inst(prog, job):
    """instantiate_obj: the class of that name in that module, called with exactly the
    parameters of the description"""
    obs = []
    it, st, fi, where = free_run(prog, "instantiate_obj")
    made = []

    def imp(it, name, args, kwargs, rest, st, node):
        return vany(T("module", it.strip(getarg(args, kwargs, 0, "name")).term))
    it.ext_override["importlib.import_module"] = imp
    it.ext_override["builtins.__import__"] = imp

    def ucall(it, f, args, kwargs, rest, st, node):
        made.append((it.strip(f).term, [it.strip(a).term for a in args],
                     {k: it.strip(v).term for k, v in kwargs.items()}, list(rest)))
        return [(st, vany(T("made", len(made))))]
    it.ucall_hook = ucall
    par = dict_arg(st, {"p": vany(T("arg", "p")), "q": vany(T("arg", "q"))}, (),
                   ("new", "params"))
    parts = [vstr(T("arg", "module")), vstr(T("arg", "class")), par]
    d = vtuple(parts) if job == "tuple" else it.mk_list(parts, st, DUMMY)
    vs = one(it, it.call_func(fi, [d], {}, [], st, DUMMY))
    key = f"description as a {job}"
    if len(made) != 1 or len(vs) != 1 or vs[0][1].term is not T("made", 1):
        return [Ob(R_INST, key, UNK, where, f"{len(made)} constructor calls, {len(vs)} "
                   "results")], stats(it)
    cls, args, kw, rest = made[0]
    w = T("getattr", T("module", T("arg", "module")), T("arg", "class"))
    if cls is not w:
        known = all(x.op in ("getattr", "module", "arg", "const") for x in leaves(cls))
        obs.append(Ob(R_INST, key + ": class", BAD if known else UNK, where, show(cls, 5)))
    else:
        obs.append(Ob(R_INST, key + ": class", OK, where))
    if args or rest:
        obs.append(Ob(R_INST, key + ": parameters", UNK, where, "positional arguments"))
    else:
        w = {"p": T("arg", "p"), "q": T("arg", "q")}
        simple = all(x.op in ("arg", "const") for x in kw.values())
        obs.append(Ob(R_INST, key + ": parameters", OK if kw == w else BAD if simple else UNK,
                      where, ", ".join(f"{k}={show(v)}" for k, v in kw.items())))
    return obs, stats(it)


MLP = {"max_iter": "max_iter", "activation": "activation", "alpha": "alpha",
       "learning_rate": "learning_rate", "random_state": "random_state"}


def mlp_obj(prog, frac):
    it, st, ci, obj = start(prog, "MLPClassifierWrapper")
    install(it)

    def mk(it, name, args, kwargs, rest, st, node):
        if args or rest:
            return None
        return newobj(it, T("mlp", *[T("k", k, it.strip(v).term)
                                     for k, v in sorted(kwargs.items())]), st, node)
    it.ext_override["sklearn.neural_network.MLPClassifier"] = mk
    given = {k: vany(T("arg", "given " + k)) for k in MLP}
    given["hidden_layer_fraction"] = frac
    construct(it, st, ci, obj, given)
    return it, st, ci, obj, given


def unit_mlp(prog, job):
    frac, meth = job
    fv = vstr(const("sqrt")) if frac == "sqrt" else vnum(T("arg", "fraction"))
    if frac == "sqrt":
        fv = vconst("sqrt")
    obs = []
    it, st, ci, obj, given = mlp_obj(prog, fv)
    X, y = data("1")
    alts = invoke(it, st, ci, obj, "fit", [X, y])
    vs = one(it, alts)
    where = where_of(ci, "fit")
    tag = f"hidden_layer_fraction={frac}, {meth}"
    okv = vs and all(v.kind == "obj" and v.data == obj.data for s, v in vs)
    none = any(v.kind == "none" or v.is_const and v.value is None for s, v in vs)
    obs.append(Ob(R_SELF, tag, OK if okv else BAD if none else UNK, where))
    it.merge_alts(alts, st)
    Q, _ = data("q")
    vs = one(it, invoke(it, st, ci, obj, meth, [Q]))
    if len(vs) != 1:
        return obs + [Ob(R_MLP, tag, UNK, where, "prediction not resolved")], stats(it)
    g = norm(vs[0][1].term)
    op = {"predict": "pred", "predict_proba": "proba"}[meth]
    model = g.args[0] if g.op == op else None
    if model is None or model.op != "fitted" or model.args[0].op != "new" or \
            model.args[0].args[0].op != "mlp":
        bad = g.op in ("pred", "proba") and clear(g)
        return obs + [Ob(R_MLP, tag, BAD if bad else UNK, where, show(g, 5))], stats(it)
    if model.args[1:] != (T("arg", "X1"), T("arg", "y1")) or g.args[1] is not T("arg", "Xq"):
        obs.append(Ob(R_FIT, tag, BAD if clear(g.args[1]) and clear(model.args[1]) else UNK,
                      where, show(g, 6)))
    else:
        obs.append(Ob(R_FIT, tag, OK, where))
    kw = {x.args[0]: x.args[1] for x in model.args[0].args[0].args}
    for mine, theirs in MLP.items():
        v = kw.get(theirs)
        if v is T("arg", "given " + mine):
            obs.append(Ob(R_MLP, f"{tag}: {mine}", OK, where))
        else:
            simple = v is None or v.op in ("arg", "const")
            obs.append(Ob(R_MLP, f"{tag}: {mine}", BAD if simple else UNK, where,
                          f"{theirs}={'(default)' if v is None else show(v, 4)}"))
    extra = set(kw) - set(MLP.values()) - {"hidden_layer_sizes"}
    if extra:
        obs.append(Ob(R_MLP, tag, UNK, where, f"additional arguments {sorted(extra)}"))
    h = kw.get("hidden_layer_sizes")
    if h is None:
        obs.append(Ob(R_HID, tag, BAD, where, "the hidden layer size is not passed"))
        return obs, stats(it)
    n, bad, unk = 0, None, None
    for d in (1, 2, 3, 4, 8, 9, 15, 16, 17, 99, 100, 1000):
        for f in (0.01, 0.1, 0.5, 1.0, 2.0) if frac != "sqrt" else (None,):
            want = max(1, int(np.sqrt(d)) if f is None else int(d * f))
            env = {"X1": np.zeros((2, d)), "fraction": f}
            try:
                got = NumEval(env).ev(h)
            except (Unknown, Undefined, KeyError, TypeError) as e:
                unk = f"{show(h, 5)}: {e!r}"
                continue
            got = tuple(np.ravel(np.asarray(got)).tolist()) if not isinstance(got, (int, float)) \
                else (got,)
            n += 1
            if got != (want,) and bad is None:
                bad = f"{got} instead of ({want},) for {d} features and fraction {f}"
    obs.append(Ob(R_HID, tag, BAD if bad else UNK if unk else OK, where,
                  bad or unk or f"{n} witnesses"))
    return obs, stats(it)


def unit_copy(prog, job):
    obs = []
    it, st, ci, obj, given = mlp_obj(prog, vany(T("arg", "fraction")))
    for meth in ("get_params", "copy"):
        where = where_of(ci, meth)
        for s, v in one(it, invoke(it, st, ci, obj, meth)):
            if meth == "get_params":
                ks = entries(v, s)
                full = ks is not None and not s.heap[v.data].rest
                rule = R_GET
            else:
                h = s.heap.get(v.data) if v.kind == "obj" else None
                ks = h.attrs if h is not None else None
                full = ks is not None
                rule = R_COPY
                if v.kind == "obj":
                    obs.append(Ob(R_COPY, "another object", OK if v.data != obj.data else BAD,
                                  where))
            for k, w in given.items():
                g = ks.get(k) if ks is not None else None
                if g is None:
                    obs.append(Ob(rule, f"MLPClassifierWrapper {k}", BAD if full else UNK,
                                  where, "not found"))
                else:
                    g = it.strip(g).term
                    obs.append(Ob(rule, f"MLPClassifierWrapper {k}", OK if g is w.term else
                                  BAD if g.op in ("arg", "const") else UNK, where,
                                  f"{show(g)} instead of {show(w.term)}"))
    return obs, stats(it)


def unit_usable(prog, job):
    """what the wrapper calls on its oversampler exists"""
    obs = []
    from sa.units import os_classes
    for ci in list(os_classes(prog)) + [prog.classes["MulticlassOversampling"]]:
        n = ci.name
        for m in ("sample", "preprocessing_transform"):
            f = ci.find(m)
            obs.append(Ob(R_SPACE, f"{n}.{m}", OK if f is not None else BAD,
                          f"{ci.module.path}:{ci.node.lineno} in {n}",
                          "" if f is not None else f"{n} has no {m}"))
    return obs, {}


def unit(prog, job):
    kind, arg = job
    return {"wrap": unit_wrap, "classes": unit_classes, "inst": unit_inst, "mlp": unit_mlp,
            "copy": unit_copy, "usable": unit_usable}[kind](prog, arg)


def main(tier):
    c = Check("C23", tier)
    F1, F2 = ("fit", "1"), ("fit", "2")
    S = [("set", "oversampler"), ("set", "classifier"), ("set", "oversampler", "classifier")]
    seqs = [[F1], [F1, F2]] + [[s, F1] for s in S] + [[F1, s, F2] for s in S]
    if tier != "quick":
        seqs += [[s, t, F1] for s in S for t in S] + [[F1, F2, s, t, F1] for s in S for t in S]
    jobs = [("wrap", (m, s)) for m in ("predict", "predict_proba") for s in seqs]
    jobs += [("classes", None), ("inst", "tuple"), ("inst", "list"), ("copy", None)]
    jobs += [("mlp", (f, m)) for f in ("sqrt", "number") for m in ("predict", "predict_proba")]
    jobs.append(("usable", None))
    c.run_units(unit, jobs)
    c.explanation = (
        "The wrappers are abstractly executed on symbolic data with the wrapped estimators "
        "replaced by a typestate contract recording what each was built from and fitted on, "
        "over sequences of fit and set_params calls; the symbolic prediction has to be the one "
        "of the classifier of the current description, fitted on the result of sampling the "
        "last training data, for the query mapped into the space of that sampling. The MLP "
        "wrapper's arguments are compared one by one with those of the model it builds, the "
        "hidden layer size term with its documented formula on witness sizes.")
    c.assumptions = ["estimators depend only on what they were fitted with"]
    return c.finish({R_FIT: 4, R_SPACE: 60, R_SET: 6, R_GET: 20, R_INST: 3, R_MLP: 10})
