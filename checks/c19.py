"""C19: evaluation keeps training and test data apart and evaluates every combination once."""
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, const, is_const, const_value, leaves, show
from sa.values import AV, HDict, HList, NONE, EMPTY, vany, vconst, vnum, vstr, vtuple
from sa.drive import DUMMY
from checks.evalmodel import (fold_arrays, descriptor, spec, dict_arg, start, construct, invoke,
                              install, cases, newobj, getarg, made_state, root)

R_SPLIT = "fold-rows-of-one-split"
R_DESC = "fold-descriptor"
R_SAMP = "sampling-uses-training-part-only"
R_TEST = "test-part-follows-the-training-part"
R_YT = "test-labels-untouched"
R_FAIL = "failed-sampling-recorded"
R_TIME = "timed-out-sampling"
R_CLF = "classifier-trained-on-sampled-training-part"
R_SCORE = "scores-of-the-test-part"
R_ONCE = "every-combination-once"
R_SPEC = "parameters-recorded-alike"
R_GROUP = "averages-over-folds-only"

SPLITTERS = ("RepeatedStratifiedKFold", "StratifiedKFold", "RepeatedKFold", "KFold",
             "StratifiedShuffleSplit", "ShuffleSplit", "StratifiedGroupKFold")
KNOWN_OPS = {"arg", "new", "tr", "pp", "sx", "sy", "fitted", "sampled", "tuple", "const",
             "pred", "proba", "cat"}


def where_of(ci, name):
    f = ci.find(name)
    return f"{f[1].module.path}:{f[1].node.lineno} in {ci.name}.{name}"


def understood(t):
    """only contract operations on the fold's own arrays"""
    return all(x.op in KNOWN_OPS for x in leaves(t) if isinstance(x, Term))


def entries(v, st):
    h = st.heap.get(v.data) if v.kind == "dict" else None
    return h.keys if h is not None else None


# ------------------------------------------------------------------------- folds
def unit_fold(prog, job):
    obs = []
    it, st, ci, obj = start(prog, "Folding")
    n = T("len", T("arg", "data"))
    data = AV("arr", T("arg", "data"), frozenset([("arg", "data")]), nd=2, ln=n)
    tgt = AV("arr", T("arg", "target"), frozenset([("arg", "target")]), nd=1, ln=n)
    ds = dict_arg(st, {"data": data, "target": tgt, "name": vstr(T("arg", "name"))}, (),
                  ("new", "ds"))
    nr, ns = job
    vp = dict_arg(st, {"n_repeats": vconst(nr), "n_splits": vconst(ns),
                       "random_state": vconst(5)}, (), ("new", "vp"))
    where = where_of(ci, "fold")
    splits = []

    def mk(it, name, args, kwargs, rest, st, node):
        return newobj(it, T("splitter", name.split(".")[-1],
                            *[T("k", k, v.term) for k, v in sorted(kwargs.items())]), st, node)

    def split(it, b, args, kwargs, rest, st, node):
        s = made_state(st, b)
        if s is None:
            return None
        a = [it.strip(x) for x in args]
        x, y = getarg(a, kwargs, 0, "X"), getarg(a, kwargs, 1, "y")
        splits.append((s.args[0], None if x is None else it.strip(x).term,
                       None if y is None else it.strip(y).term))
        items = []
        for i in range(nr * ns):
            pair = []
            for k in ("cvtrain", "cvtest"):
                t = T(k, i)
                pair.append(AV("arr", t, frozenset([it.newloc(node, f"{k}{i}")]), "i", 1,
                               T("len", t)))
            items.append(vtuple(pair))
        return it.mk_list(items, st, node, "splits")
    for s in SPLITTERS:
        it.ext_override["sklearn.model_selection." + s] = mk
    it.func_override["any.split"] = split
    ys = []

    def on_yield(it, v, st, node):
        k = entries(v, st)
        row = {}
        for name, x in (k or {}).items():
            x = it.strip(x)
            if x.kind == "dict":
                row[name] = (x.data, entries(x, st))
            else:
                row[name] = x
        ys.append((v, row))
    it.on_yield = on_yield
    construct(it, st, ci, obj, {"dataset": ds, "validator_params": vp})
    alts = invoke(it, st, ci, obj, "fold")
    tag = f"{nr}x{ns}"
    if not ys and alts:
        # a list of folds instead of a generator
        s, v = alts[0]
        v = it.strip(v)
        h = it.list_h(v, s) if v.kind == "list" else None
        for x in (h.items if h is not None and h.items is not None else ()):
            on_yield(it, it.strip(x), s, None)
    if len(splits) != 1 or len(ys) != nr * ns:
        obs.append(Ob(R_SPLIT, f"number of folds {tag}", UNK, where,
                      f"{len(splits)} splits, {len(ys)} folds found"))
        return obs, stats(it)
    sp, sx, sy = splits[0]
    strat = "Stratified" in sp.args[0]
    ok = strat and sy is tgt.term and (sx is data.term or sx is tgt.term or sx is not None)
    obs.append(Ob(R_SPLIT, "folds stratified by the target", OK if ok else
                  BAD if not strat or sy is None or sy.op == "arg" else UNK, where,
                  f"{sp.args[0]}.split(X, {show(sy) if sy is not None else None})"))
    locs = []
    for i, (v, row) in enumerate(ys):
        key = f"fold {i} of {tag}"
        want = {"X_train": T("idx", data.term, T("cvtrain", i)),
                "y_train": T("idx", tgt.term, T("cvtrain", i)),
                "X_test": T("idx", data.term, T("cvtest", i)),
                "y_test": T("idx", tgt.term, T("cvtest", i))}
        for k, t in want.items():
            x = row.get(k)
            if not isinstance(x, AV):
                obs.append(Ob(R_SPLIT, f"{key} {k}", UNK, where, "not found"))
                continue
            if x.term is t:
                obs.append(Ob(R_SPLIT, f"{key} {k}", OK, where, ""))
            else:
                simple = all(y.op in ("idx", "arg", "cvtrain", "cvtest", "slc", "const", "cat")
                             for y in leaves(x.term))
                obs.append(Ob(R_SPLIT, f"{key} {k}", BAD if simple else UNK, where,
                              f"{show(x.term)} instead of {show(t)}"))
        d = row.get("fold_descriptor")
        if not isinstance(d, tuple) or d[1] is None:
            obs.append(Ob(R_DESC, key, UNK, where, "not found"))
            continue
        locs.append(d[0])
        want = {"repeat_idx": i // ns, "fold_idx": i % ns, "split_idx": i, "n_splits": ns,
                "n_repeats": nr}
        bad = unk = None
        for k, w in want.items():
            x = d[1].get(k)
            if x is None or not x.is_const:
                if k in ("repeat_idx", "fold_idx"):
                    unk = f"{k} not found"
            elif x.value != w:
                bad = f"{k} is {x.value} instead of {w}"
        if "name" not in d[1] or d[1]["name"].term is not T("arg", "name"):
            unk = unk or "dataset name not found"
        obs.append(Ob(R_DESC, key, BAD if bad else UNK if unk else OK, where, bad or unk or ""))
    if len(locs) == len(ys):
        dup = len(set(locs)) < len(locs)
        obs.append(Ob(R_DESC, f"own descriptor per fold {tag}", BAD if dup else OK, where,
                      "two folds share one mutable descriptor" if dup else ""))
    return obs, stats(it)


# ---------------------------------------------------------------------- sampling
def unit_sampling(prog, job):
    method, scaler_kind, as_file, cached = job
    obs = []
    it, st, ci, obj = start(prog, "SamplingJob")
    install(it)
    F = fold_arrays()
    fd = dict_arg(st, {**F, "fold_descriptor": descriptor()}, (), ("new", "fold"))
    dumps = []
    osp, ssp = spec("os"), spec("scaler")
    scaler = {"none": NONE, "spec": ssp, "any": vany(T("arg", "anyscaler"))}[scaler_kind]

    def load(it, fi, args, kwargs, rest, st, node):
        return fd

    def dump(it, fi, args, kwargs, rest, st, node):
        v = it.strip(getarg(args, kwargs, 0, "obj"))
        dumps.append((st.copy(), v, it.strip(getarg(args, kwargs, 1, "filename"))))
        return NONE
    it.func_override["load_dict"] = load
    it.func_override["dump_dict"] = dump
    it.func_override["check_if_damaged"] = \
        lambda it, fi, args, kwargs, rest, st, node: AV("bool", T("arg", "damaged"))
    construct(it, st, ci, obj, {
        "folding": vstr(T("arg", "foldfile")) if as_file else fd,
        "oversampler": osp.data[1], "oversampler_params": osp.data[2], "scaler": scaler,
        "cache_path": vstr(T("arg", "cache_path")) if cached else NONE,
        "reset": AV("bool", T("arg", "reset"))})
    alts = invoke(it, st, ci, obj, method)
    where = where_of(ci, method)
    tag = f"{method}, scaler {scaler_kind}, " + ("fold file" if as_file else "fold in memory") + \
        (", cached" if cached else "")
    outs = []
    for s, v in alts:
        parts = v.data if v.kind == "union" else [v]
        for x in parts:
            if x.kind == "dict":
                outs.append((s, x))
    if cached:
        outs = [(s, v) for s, v, _ in dumps if v.kind == "dict"]
    if not outs:
        obs.append(Ob(R_SAMP, tag, UNK, where, "no result dictionary found"))
        return obs, stats(it)
    for s, v in outs:
        judge_sampling(obs, it, s, v, F, osp, ssp if scaler_kind == "spec" else
                       None if scaler_kind == "none" else "any", method, tag, where)
    return obs, stats(it)


def judge_sampling(obs, it, s, v, F, osp, ssp, method, tag, where):
    ks = entries(v, s)
    names = ["X_train", "y_train", "X_test", "y_test", "error"]
    if ks is None or any(k not in ks for k in names):
        miss = [k for k in names if ks is None or k not in ks]
        obs.append(Ob(R_SAMP, tag, UNK, where, f"entries {miss} not found"))
        return
    cs = cases([ks[k].term for k in names])
    if cs is None:
        obs.append(Ob(R_SAMP, tag, UNK, where, "too many cases"))
        return
    f = {k: F[k].term for k in F}
    ftest = {f["X_test"], f["y_test"]}
    res = {}

    def put(rule, verdict, msg=""):
        o = {OK: 0, UNK: 1, BAD: 2}
        if rule not in res or o[verdict] > o[res[rule][0]]:
            res[rule] = (verdict, msg)
    n_ok = 0
    for ch, (xt, yt, xe, ye, err) in cs:
        exc = any(isinstance(k, Term) and k.op in ("exc", "try") for k in ch)
        put(R_YT, OK if ye is f["y_test"] else BAD if understood(ye) else UNK,
            f"y_test is {show(ye)}")
        lv = leaves(xt) | leaves(yt)
        if lv & ftest:
            put(R_SAMP, BAD, f"the training part depends on the test part: {show(xt, 5)}")
            continue
        # the fitted state behind X_test must not have seen it
        for x in leaves(xe):
            if isinstance(x, Term) and x.op in ("fitted", "sampled") and \
                    any(leaves(y) & ftest for y in x.args[1:] if isinstance(y, Term)):
                put(R_TEST, BAD, f"fitted on the test part: {show(x, 4)}")
        if f["X_test"] not in leaves(xe) and understood(xe):
            put(R_TEST, BAD, f"X_test is {show(xe, 4)}")
            continue
        # scaled training part
        xs = xt
        sampled = None
        if xt.op == "sx":
            sampled = xt.args[0]
            xs = sampled.args[1]
        chain = scaling(xs, f["X_train"])
        if ssp is None and chain == []:
            pass
        elif ssp == "any" and (chain == [] or chain is not None and len(chain) == 1):
            pass
        elif isinstance(ssp, AV) and chain is not None and len(chain) == 1 and \
                base(chain[0]).args[0] is ssp.term:
            pass
        elif chain is not None and understood(xs):
            put(R_SAMP, BAD, f"training part {show(xs, 4)}: the scaler is applied "
                f"{len(chain)} times")
            continue
        else:
            put(R_SAMP, UNK, f"training part {show(xs, 5)}")
            continue
        for c in chain:
            if c.op != "fitted" or c.args[1] is not f["X_train"]:
                put(R_SAMP, BAD if understood(c) else UNK, f"scaler fitted on {show(c, 4)}")
        want = f["X_test"]
        for c in chain:
            want = T("tr", c, want)
        if sampled is not None:
            okspec = base(sampled).args[0].op == "tuple" and \
                base(sampled).args[0].args[1:] == (osp.data[1].term, osp.data[2].term)
            if sampled.args[2] is not f["y_train"] or yt is not T("sy", sampled) or not okspec:
                put(R_SAMP, BAD if understood(yt) and understood(sampled) and okspec else UNK,
                    f"sampled {show(sampled, 4)} with labels {show(yt, 4)}")
                continue
            if err is not const(None):
                put(R_FAIL, BAD, f"a successful sampling is recorded with the error {show(err)}")
            put(R_SAMP, OK)
            w = T("pp", sampled, want)
            put(R_TEST, OK if xe is w else BAD if understood(xe) else UNK,
                f"X_test is {show(xe, 5)} for the training part {show(xt, 3)}")
            if method == "timeout":
                put(R_TIME, UNK, "a timed out job samples")
            n_ok += 1
        else:
            rule = R_TIME if method == "timeout" else R_FAIL
            if yt is not f["y_train"]:
                put(R_SAMP, BAD if understood(yt) else UNK, f"labels {show(yt, 4)} for the "
                    "unsampled training part")
                continue
            if err is const(None):
                put(rule, BAD, "an unsampled training part is returned without an error")
            else:
                put(rule, OK)
            if xe is want or exc and xe.op == "pp" and xe.args[1] is want:
                put(R_TEST, OK)
            else:
                put(R_TEST, BAD if understood(xe) else UNK,
                    f"X_test is {show(xe, 5)} for the training part {show(xt, 3)}")
            if rule == R_TIME:
                put(R_SAMP, OK)
            n_ok += 1
    if method != "timeout" and not any(x[1][0].op == "sx" for x in cs):
        put(R_SAMP, UNK, "no sampled result found")
    for rule, (vd, msg) in res.items():
        obs.append(Ob(rule, tag, vd, where, msg if vd != OK else f"{len(cs)} cases"))


def base(s):
    return root(s) or s


def scaling(t, x):
    """fitted states applied to x, innermost first; None when t is something else"""
    out = []
    while t is not x:
        if not (isinstance(t, Term) and t.op == "tr"):
            return None
        out.append(t.args[0])
        t = t.args[1]
    return out[::-1]


def unit_params(prog, as_file):
    """the parameters recorded for an oversampling are those of the oversampler and do not
    depend on whether the sampling succeeded, failed or timed out"""
    obs = []
    got = {}
    for method in ("do_oversampling", "timeout"):
        it, st, ci, obj = start(prog, "SamplingJob")
        install(it)
        F = fold_arrays()
        fd = dict_arg(st, {**F, "fold_descriptor": descriptor()}, (), ("new", "fold"))
        it.func_override["load_dict"] = lambda it, fi, args, kwargs, rest, st, node: fd
        params = dict_arg(st, {"p": vany(T("arg", "given p")), "q": vany(T("arg", "given q"))},
                          (), ("new", "given"))

        def own(it, b, args, kwargs, rest, st, node):
            if made_state(st, b) is None:
                return None
            return it.mk_dict({k: vany(T("arg", "own " + k)) for k in
                               ("p", "r", "class_name")}, st, node)
        it.func_override["any.get_params"] = own
        construct(it, st, ci, obj, {
            "folding": vstr(T("arg", "foldfile")) if as_file else fd,
            "oversampler": vstr(T("arg", "os", "class")), "oversampler_params": params,
            "scaler": NONE, "cache_path": NONE, "reset": vconst(False)})
        for s, v in invoke(it, st, ci, obj, method):
            for x in (v.data if v.kind == "union" else [v]):
                ks = entries(x, s) if x.kind == "dict" else None
                o = it.strip(ks["oversampler"]) if ks and "oversampler" in ks else None
                e = entries(o, s) if o is not None and o.kind == "dict" else None
                got.setdefault(method, []).append(
                    None if e is None or s.heap[o.data].rest else
                    {k: it.strip(y).term for k, y in e.items()})
    where = where_of(ci, "timeout")
    tag = "fold file" if as_file else "fold in memory"
    alls = got.get("do_oversampling", []) + got.get("timeout", [])
    if len(got) < 2 or any(x is None for x in alls):
        return [Ob(R_SPEC, tag, UNK, where, "parameters not resolved")], stats(it)
    names = {k: {x.get(k) for x in alls} for x in alls for k in x}
    bad = ""
    for k, ts in sorted(names.items()):
        if len(ts) > 1:
            bad = f"parameter {k} recorded as " + " or ".join(
                sorted("nothing" if t is None else show(t) for t in ts))
    for k in ("p", "q", "r", "class_name"):
        if k not in names and not bad:
            bad = f"parameter {k} is not recorded"
    obs.append(Ob(R_SPEC, tag, BAD if bad else OK, where, bad))
    return obs, stats(it)


# -------------------------------------------------------------------- evaluation
def unit_eval(prog, job):
    as_file, cached = job
    obs = []
    it, st, ci, obj = start(prog, "EvaluationJob")
    install(it)
    F = fold_arrays()
    osd = dict_arg(st, {"class_name": vstr(T("arg", "os", "class"))},
                   (vany(T("arg", "osparams")),), ("new", "osd"))
    fd = dict_arg(st, {**F, "fold_descriptor": descriptor(), "oversampler": osd,
                       "scaler": vstr(T("arg", "sc")), "error": vany(T("arg", "err")),
                       "warning": vany(T("arg", "warn")), "runtime": vnum(T("arg", "rt"))},
                  (), ("new", "fold"))
    dumps = []
    it.func_override["load_dict"] = lambda it, fi, args, kwargs, rest, st, node: fd

    def dump(it, fi, args, kwargs, rest, st, node):
        dumps.append((st.copy(), it.strip(getarg(args, kwargs, 0, "obj"))))
        return NONE
    it.func_override["dump_dict"] = dump
    it.func_override["check_if_damaged"] = \
        lambda it, fi, args, kwargs, rest, st, node: AV("bool", T("arg", "damaged"))
    it.func_override["calculate_all_scores"] = \
        lambda it, fi, args, kwargs, rest, st, node: vany(
            T("scores", *[it.strip(a).term for a in args],
              *[T("k", k, v.term) for k, v in sorted(kwargs.items())]))
    specs = [spec("c1"), spec("c2"), spec("c3")]
    construct(it, st, ci, obj, {
        "oversampling": vstr(T("arg", "osfile")) if as_file else fd,
        "classifiers": it.mk_list(specs, st, DUMMY),
        "cache_path": vstr(T("arg", "cache_path")) if cached else NONE,
        "reset": AV("bool", T("arg", "reset"))})
    alts = invoke(it, st, ci, obj, "do_evaluation")
    where = where_of(ci, "do_evaluation")
    tag = ("oversampling file" if as_file else "in memory") + (", cached" if cached else "")
    outs = []
    if cached:
        outs = [(s, v) for s, v in dumps]
    else:
        for s, v in alts:
            v = it.strip(v)
            h = it.list_h(v, s) if v.kind == "list" else None
            if h is not None and h.items is not None:
                outs += [(s, it.strip(x)) for x in h.items]
    if len(outs) != len(specs):
        obs.append(Ob(R_CLF, tag, UNK, where, f"{len(outs)} evaluations of {len(specs)} "
                      "classifiers found"))
        return obs, stats(it)
    f = {k: F[k].term for k in F}
    for sp, (s, v) in zip(specs, outs):
        key = f"{tag}, {sp.data[0].term.args[0]}"
        ks = entries(v, s)
        names = ["y_pred", "y_test", "scores", "classifier", "classifier_params",
                 "classifier_module", "fold_descriptor", "oversampler", "oversampler_params",
                 "error"]
        if ks is None or any(k not in ks for k in names):
            obs.append(Ob(R_CLF, key, UNK, where, "entries not found"))
            continue
        yp, ye, sc = (ks[k].term for k in names[:3])
        cs = cases([yp, sc, ks["error"].term])
        want = T("cols", T("proba", T("fitted", T("new", sp.term, 0), f["X_train"],
                                      f["y_train"]), f["X_test"]), 1)
        verdict, msg = OK, ""
        good = False
        for ch, (p, q, er) in cs or []:
            if p.op in ("cols", "getcol", "idx") and p.args[0].op == "proba":
                fit = p.args[0].args[0]
                col = p.args[-1]
                col = const_value(col) if isinstance(col, Term) and is_const(col) else col
                sh = show(p, 5)
                if fit.op != "fitted":
                    verdict, msg = BAD, f"predicted by an untrained classifier: {sh}"
                elif fit.args[0].op != "new" or fit.args[0].args[0] is not sp.term:
                    verdict, msg = (BAD if understood(fit) else UNK), f"predicted by {show(fit)}"
                elif fit.args[1] is not f["X_train"] or fit.args[2] is not f["y_train"]:
                    verdict, msg = (BAD if understood(fit) else UNK), \
                        f"trained on {show(fit.args[1])}, {show(fit.args[2])}"
                elif p.args[0].args[1] is not f["X_test"]:
                    verdict, msg = (BAD if understood(p.args[0]) else UNK), f"{sh}"
                elif col not in (1, -1):
                    verdict, msg = (BAD if isinstance(col, int) else UNK), \
                        f"column {col} of the class probabilities is scored"
                elif er is not const(None):
                    verdict, msg = BAD, f"the evaluation of {sh} is recorded with the error " \
                        f"{show(er, 3)}"
                else:
                    good = True
            elif any(isinstance(x, Term) and x.op == "arg" and x.args[1] in
                     ("y_test", "y_train", "X_train") for x in leaves(p)):
                verdict, msg = BAD if verdict != UNK else UNK, \
                    f"y_pred is {show(p, 4)}"
            elif er is const(None):
                verdict, msg = BAD, f"y_pred is {show(p, 4)} without an error"
        if cs is None or not good and verdict == OK:
            verdict, msg = UNK, f"no prediction found: {show(yp, 4)}"
        obs.append(Ob(R_CLF, key, verdict, where, msg))
        verdict, msg = OK, ""
        for ch, (p, q, er) in cs or []:
            if q.op != "scores":
                verdict, msg = UNK, f"scores: {show(q, 4)}"
                break
            b = bind_scores(q)
            if b is None or b[0] is not f["y_test"] or b[1] is not p or b[2] not in (None, 1):
                full = b is not None and all(x.op in KNOWN_OPS | {"cols"} for y in b[:2]
                                             for x in leaves(y))
                verdict, msg = (BAD if full else UNK), f"{show(q, 5)}"
        if ye is not f["y_test"]:
            verdict, msg = (BAD if understood(ye) else UNK), f"y_test is {show(ye)}"
        meta = [("classifier", sp.data[1]), ("classifier_params", sp.data[2]),
                ("classifier_module", sp.data[0]), ("fold_descriptor", descriptor()),
                ("oversampler", vstr(T("arg", "os", "class"))), ("oversampler_params", osd)]
        for k, w in meta:
            if ks[k].term is not w.term:
                simple = ks[k].term.op in ("arg", "const", "dictref")
                if verdict != BAD:
                    verdict, msg = (BAD if simple else UNK), \
                        f"{k} recorded as {show(ks[k].term, 3)}"
        obs.append(Ob(R_SCORE, key, verdict, where, msg))
    return obs, stats(it)


def bind_scores(q):
    pos = [x for x in q.args if x.op != "k"]
    kw = {x.args[0]: x.args[1] for x in q.args if x.op == "k"}
    names = ["test_labels", "probabilities", "min_label"]
    d = dict(zip(names, pos))
    d.update(kw)
    if set(d) - set(names) or not {"test_labels", "probabilities"} <= set(d):
        return None
    m = d.get("min_label")
    return d["test_labels"], d["probabilities"], \
        None if m is None else const_value(m) if is_const(m) else "?"


# ---------------------------------------------------------------- the whole study
def unit_study(prog, job):
    cached, n_jobs = job
    obs = []
    from sa.interp import Interp
    from sa.values import State
    from sa.units import find_function
    it = Interp(prog, budget_s=120)
    it.unroll_limit = 60
    st = State()
    dss = []
    for d in (1, 2):
        n = T("len", T("arg", "data", d))
        data = AV("arr", T("arg", "data", d), frozenset([("arg", f"data{d}")]), nd=2, ln=n)
        tg = AV("arr", T("arg", "target", d), frozenset([("arg", f"target{d}")]), nd=1, ln=n)
        dss.append(dict_arg(st, {"data": data, "target": tg,
                                 "name": vstr(T("arg", "name", d))}, (), ("new", f"ds{d}")))
    oss = [spec("o1"), spec("o2"), spec("o3")]
    cls = [spec("c1"), spec("c2")]
    scaler = spec("scaler")
    nr, ns = 1, 2
    vp = dict_arg(st, {"n_repeats": vconst(nr), "n_splits": vconst(ns),
                       "random_state": vconst(5)}, (), ("new", "vp"))

    def name_of(it, o, st):
        h = st.heap.get(o.data)
        ds = it.strip(h.attrs["dataset"])
        return entries(ds, st)["name"].term

    def folds(it, fi, args, kwargs, rest, st, node):
        nm = name_of(it, args[0], st)
        return it.mk_list([vany(T("fold", nm, i)) for i in range(nr * ns)], st, node, "folds")

    def files(it, fi, args, kwargs, rest, st, node):
        nm = name_of(it, args[0], st)
        return it.mk_list([vstr(T("fold", nm, i)) for i in range(nr * ns)], st, node, "files")

    log = []

    def sampling(it, fi, args, kwargs, rest, st, node):
        a = st.heap[args[0].data].attrs
        t = T("ovs", *[it.strip(a[k]).term for k in ("folding", "oversampler",
                                                     "oversampler_params")])
        log.append((t, it.strip(a["scaler"]).term, it.strip(a["cache_path"]).term))
        return vany(t) if not cached else vstr(t)

    def evaluation(it, fi, args, kwargs, rest, st, node):
        a = st.heap[args[0].data].attrs
        cl = it.strip(a["classifiers"])
        items, _, _ = it.iter_info(cl, st, node)
        if items is None:
            return vany(T("evals?", it.strip(a["oversampling"]).term))
        return it.mk_list([vany(T("eval", it.strip(a["oversampling"]).term, spec_term(it, x, st)))
                           for x in items], st, node, "evals")

    def spec_term(it, x, st):
        return it.strip(x).term

    def pool_exec(it, fi, args, kwargs, rest, st, node):
        jobs = getarg(args[1:], kwargs, 0, "jobs")
        items, _, _ = it.iter_info(it.strip(jobs), st, node)
        if items is None:
            return vany(T("poolresult?"))
        out = []
        for x in items:
            x = it.strip(x)
            h = st.heap.get(x.data)
            f = h.cls.find("execute")
            alts = it.call_func(f[1], [x], {}, [], st, node, cls=f[2])
            out.append(it.merge_alts(alts, st))
        return it.mk_list(out, st, node, "pool")

    def parallel(it, name, args, kwargs, rest, st, node):
        return AV("any", T("parallel", it.site(node)), EMPTY, ("parallel",))

    def delayed(it, name, args, kwargs, rest, st, node):
        return AV("any", T("delayed", it.site(node)), EMPTY, ("delayed", args[0]))

    def ucall(it, fn, args, kwargs, rest, st, node):
        if isinstance(fn.data, tuple) and fn.data[:1] == ("delayed",):
            # executed by the pool: same call, once
            return it.call(fn.data[1], args, kwargs, rest, st, node)
        if isinstance(fn.data, tuple) and fn.data[:1] == ("parallel",) and len(args) == 1:
            items, _, _ = it.iter_info(it.strip(args[0]), st, node)
            if items is None:
                return None
            return [(st, it.mk_list(items, st, node, "par"))]
        return None
    it.ucall_hook = ucall
    it.ext_override["joblib.Parallel"] = parallel
    it.ext_override["joblib.delayed"] = delayed
    # a permutation of the jobs is immaterial
    it.ext_override["numpy.random.shuffle"] = lambda *a: NONE
    it.ext_override["random.shuffle"] = lambda *a: NONE
    it.func_override["Folding.fold"] = folds
    it.func_override["Folding.folding_files"] = files
    it.func_override["Folding.cache_foldings"] = lambda *a: NONE
    it.func_override["SamplingJob.do_oversampling"] = sampling
    it.func_override["EvaluationJob.do_evaluation"] = evaluation
    it.func_override["ThreadTimeoutProcessPool.execute"] = pool_exec
    it.func_override["do_clean_up"] = lambda *a: NONE
    fi = find_function(prog, "evaluate_oversamplers")
    where = f"{fi.module.path}:{fi.node.lineno} in {fi.name}"
    it.phase = "call"
    alts = it.call_func(fi, [], {
        "datasets": it.mk_list(dss, st, DUMMY, "datasets"), "oversamplers": it.mk_list(oss, st, DUMMY, "oss"),
        "classifiers": it.mk_list(cls, st, DUMMY, "cls"),
        "cache_path": vstr(T("arg", "cache_path")) if cached else NONE,
        "validator_params": vp, "scaler": scaler, "n_jobs": vconst(n_jobs),
        "parse_results": vconst(False)}, [], st, DUMMY)
    tag = f"{'cached' if cached else 'in memory'}, n_jobs={n_jobs}"
    v = it.strip(it.merge_alts(alts, st))
    h = it.list_h(v, st) if v.kind == "list" else None
    if h is None or h.items is None:
        obs.append(Ob(R_ONCE, tag, UNK, where, f"result list not resolved: {show(v.term, 3)}"))
        return obs, stats(it)
    want = {}
    for d in (1, 2):
        for i in range(nr * ns):
            for o in oss:
                t = T("ovs", T("fold", T("arg", "name", d), i), o.data[1].term, o.data[2].term)
                for c in cls:
                    want[T("eval", t, c.term)] = f"dataset {d}, fold {i}, " \
                        f"{o.data[0].term.args[0]}, {c.data[0].term.args[0]}"
    got = [it.strip(x).term for x in h.items]
    unknown = [g for g in got if g not in want]
    if any(g.op != "eval" or find_bad(g) for g in unknown):
        obs.append(Ob(R_ONCE, tag, UNK, where, f"unresolved results: {show(unknown[0], 4)}"))
        return obs, stats(it)
    for t, key in want.items():
        c = got.count(t)
        obs.append(Ob(R_ONCE, f"{tag}: {key}", OK if c == 1 else BAD, where,
                      f"evaluated {c} times"))
    for g in unknown[:4]:
        obs.append(Ob(R_ONCE, f"{tag}: other", BAD, where, f"unexpected evaluation {show(g, 5)}"))
    bad = [x for x in log if x[1] is not scaler.term]
    obs.append(Ob(R_ONCE, f"{tag}: scaler of the study", OK if not bad else
                  BAD if bad[0][1].op in ("tuple", "const") else UNK, where,
                  "" if not bad else f"a sampling uses the scaler {show(bad[0][1])}"))
    return obs, stats(it)


def find_bad(g):
    return any(isinstance(x, Term) and x.op not in ("eval", "ovs", "fold", "arg", "tuple",
                                                    "const") for x in leaves(g))


# ------------------------------------------------------------------- aggregation
KEYS = {"oversampler", "oversampler_params", "oversampler_module", "classifier",
        "classifier_params", "classifier_module"}
DBNAME = {"dataset", "db_name"}


def unit_group(prog, job):
    from sa.interp import Interp
    from sa.values import State
    from sa.units import find_function
    fname = job
    obs = []
    fi = find_function(prog, fname)
    where = f"{fi.module.path}:{fi.node.lineno} in {fi.name}"
    it = Interp(prog, budget_s=120)
    it.unroll_limit = 60
    st = State()
    it.phase = "call"
    groups = []

    def groupby(it, b, args, kwargs, rest, st, node):
        a = getarg(args, kwargs, 0, "by")
        items = None
        if a is not None:
            items, _, _ = it.iter_info(it.strip(a), st, node)
        groups.append((node.lineno, None if items is None else
                       [x.value if x.is_const else None for x in items]))
        return None
    it.func_override["any.groupby"] = groupby
    kw = {"results": vany(T("arg", "results")), "parse_results": vconst(True),
          "serialization": vstr(T("arg", "ser"))} if fname == "do_parse_results" else \
        {"data": vany(T("arg", "data"))}
    it.call_func(fi, [], kw, [], st, DUMMY)
    if not groups:
        obs.append(Ob(R_GROUP, fname, UNK, where, "no grouping found"))
    for ln, g in groups:
        w = f"{fi.module.path}:{ln} in {fi.name}"
        if g is None or None in g:
            obs.append(Ob(R_GROUP, fname, UNK, w, "grouping columns not constant"))
            continue
        c = {norm(x) for x in g}
        miss = sorted(KEYS - c) + ([] if c & DBNAME else ["dataset"])
        extra = sorted(c & {"fold_idx", "repeat_idx", "split_idx", "fold_descriptor"})
        msg = f"results are averaged over different values of {miss}" if miss else \
            f"results are not averaged over {extra}" if extra else ""
        obs.append(Ob(R_GROUP, fname, BAD if msg else OK, w, msg))
    return obs, stats(it)


def norm(c):
    for s in ("_key", "_str"):
        if c.endswith(s):
            c = c[:-len(s)]
    return c


def stats(it):
    return {"functions": set(f"{p}:{q}" for p, q in it.funcs), "calls_inlined": it.n_calls,
            "unmodelled_constructs": set(it.gaps)}


def unit(prog, job):
    kind, arg = job
    return {"fold": unit_fold, "sampling": unit_sampling, "eval": unit_eval,
            "params": unit_params, "study": unit_study, "group": unit_group}[kind](prog, arg)


def main(tier):
    c = Check("C19", tier)
    jobs = [("fold", x) for x in ((2, 3), (1, 2), (3, 2))]
    if tier != "quick":
        jobs += [("fold", x) for x in ((1, 5), (4, 3), (2, 10), (3, 7), (10, 2))]
    for m in ("do_oversampling", "execute", "timeout"):
        for sc in ("spec", "none", "any"):
            for f in (False, True):
                for ca in (False, True):
                    jobs.append(("sampling", (m, sc, f, ca)))
    jobs += [("eval", (f, ca)) for f in (False, True) for ca in (False, True)]
    jobs += [("params", False), ("params", True)]
    jobs += [("study", (ca, n)) for ca in (False, True) for n in (1, 2)]
    jobs += [("group", f) for f in ("do_parse_results", "create_summary")]
    c.run_units(unit, jobs)
    c.explanation = (
        "The evaluation pipeline is abstractly executed on a symbolic dataset with scalers, "
        "oversamplers and classifiers replaced by a typestate contract recording what each was "
        "fitted on; on every path (including the exception handlers and the timeout) the "
        "resulting training part must not depend on the test part, the test part must have "
        "passed through exactly the transformations fitted on the training part, the classifier "
        "scored must be a fresh one trained on the sampled training part, and the symbolic "
        "result list of a whole study must contain every combination exactly once.")
    c.assumptions = ["estimators depend only on what they were fitted with",
                     "joblib.Parallel returns the results of all the delayed calls"]
    return c.finish({R_SPLIT: 20, R_DESC: 10, R_SAMP: 20, R_TEST: 20, R_YT: 20, R_FAIL: 8,
                     R_TIME: 8, R_CLF: 8, R_SCORE: 8, R_ONCE: 60})
