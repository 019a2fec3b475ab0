"""C13: the registry queries return exactly the classes their documentation describes."""
import ast
from sa.framework import Check, Ob, OK, BAD, UNK, pmap
from sa.loader import class_categories
from sa.terms import T, const
from sa.values import AV, HDict, HList, State, vconst
from sa.units import os_classes, nf_classes, find_function, unit_stats, UnitRun
from sa.drive import ClassRun, ctor_params, DUMMY
from sa.interp import Interp
from checks import c08
from checks.c12 import concrete

R_ALL = "registry-complete"
R_ONCE = "registry-no-duplicates"
R_EXP = "registered-class-exported"
R_ML = "metric-learning-query"
R_PROP = "proportion-query"
R_MULTI = "multiclass-query"
R_SS = "simplex-query"
R_SSF = "simplex-query-filter"
R_NQ = "n-quickest"
R_RT = "runtime-known"
R_NF = "noise-filter-registry"
R_CM = "changes-majority-category"

# documented as helpers, not techniques of their own
NOT_LISTED = {"NoSMOTE", "polynom_fit_SMOTE"}
CM, DR, ML = "CM", "DR", "CD"


def ask(prog, fname, kw):
    """the list a query returns: (names in order or None, where)"""
    fi = find_function(prog, fname)
    if fi is None:
        return None, "", None
    it = Interp(prog, budget_s=200)
    it.unroll_limit = 400
    st = State()
    args = {}
    for k, v in kw.items():
        if isinstance(v, list):
            args[k] = it.mk_list([vconst(x) for x in v], st, DUMMY, "q" + k)
        else:
            args[k] = vconst(v)
    where = f"{fi.module.path}:{fi.node.lineno} in {fname}"
    alts = it.call_func(fi, [], args, [], st, DUMMY)
    if len(alts) != 1:
        return None, where, it
    s, v = alts[0]
    items = it.iter_info(v, s, DUMMY)[0] if v.kind in ("list", "tuple", "any") else None
    if items is None or not all(x.kind == "cls" for x in items):
        return None, where, it
    return [x.data for x in items], where, it


def runtimes(prog):
    for m in prog.modules.values():
        r = m.bindings.get("runtimes")
        d = [x for x in (r or ()) if isinstance(x, ast.Dict)]
        if r is not None and r[0] == "assign" and d:
            try:
                return ast.literal_eval(d[0])
            except ValueError:
                return None
    return None


def exported(prog, name):
    r = prog.lookup("smote_variants", name)
    return r is not None and r[0] == "class"


def same(obs, rule, got, want, where, what):
    """one obligation per class of the universe got | want"""
    if got is None:
        obs.append(Ob(rule, "result", UNK, where, "the returned list is not resolved"))
        return
    g, w = {c.name for c in got}, {c.name for c in want}
    for n in sorted(g | w):
        ok = n in g and n in w
        obs.append(Ob(rule, n, OK if ok else BAD, where, "" if ok else
                      (f"{n} is returned although it is not {what}" if n in g else
                       f"{n} is {what} but is not returned")))


def params(ci):
    return {n for n, _ in ctor_params(ci)[1]}


def ss_defaults(prog, ci):
    """the simplex sampling parameters of an object constructed with defaults"""
    it = Interp(prog, budget_s=60)
    st = State()
    cls = AV("cls", T("cls", ci.name), data=ci)
    alts = it.call(cls, [], {}, [], st, DUMMY)
    if len(alts) != 1:
        return Ellipsis
    s, o = alts[0]
    h = s.heap.get(o.data)
    if h is None or "ss_params" not in h.attrs:
        f = ci.find("get_params")
        if f is None:
            return Ellipsis
        b = it.get_attr(o, "get_params", s, DUMMY)
        alts = it.call(b, [], {}, [], s, DUMMY)
        if len(alts) != 1:
            return Ellipsis
        s, d = alts[0]
        r = concrete(d, s)
        if isinstance(r, dict):
            return r.get("ss_params", Ellipsis)
        hd = s.heap.get(d.data) if d.kind == "dict" else None
        return concrete(hd.keys["ss_params"], s) if isinstance(hd, HDict) and \
            "ss_params" in hd.keys else Ellipsis
    return concrete(h.attrs["ss_params"], s)


def meets(d, k, v):
    if k == "within_simplex_sampling":
        return d[k] == v if isinstance(v, str) else d[k] in v
    if k == "exclude_within_simplex_sampling":
        return not meets(d, "within_simplex_sampling", v)
    if k == "with_gaussian_component":
        has = d["gaussian_component"] is not None and len(d["gaussian_component"]) > 0
        return has == v
    if k == "n_dim_range":
        return d["n_dim"] == v if isinstance(v, int) else d["n_dim"] in v
    return True


FILTERS = [{"within_simplex_sampling": "random"},
           {"within_simplex_sampling": ["deterministic"]},
           {"within_simplex_sampling": ["random", "deterministic"]},
           {"exclude_within_simplex_sampling": "random"},
           {"exclude_within_simplex_sampling": ["deterministic"]},
           {"with_gaussian_component": True}, {"with_gaussian_component": False},
           {"n_dim_range": 2}, {"n_dim_range": 3}, {"n_dim_range": [1, 3]},
           {"within_simplex_sampling": "random", "n_dim_range": 2},
           {"with_gaussian_component": True, "n_dim_range": [2, 3]},
           {"with_gaussian_component": False, "exclude_within_simplex_sampling": ["random"]}]
QUERIES = ("get_all_oversamplers", "get_proportion_oversamplers",
           "get_metric_learning_oversamplers", "get_multiclass_oversamplers",
           "get_simplex_sampling_oversamplers")


def unit(prog, job):
    obs = []
    u = UnitRun()
    stats = {}

    def q(f, **kw):
        r, w, it = ask(prog, f, kw)
        if it is not None:
            u.it = it
            for k, v in unit_stats(u).items():
                if isinstance(v, (int, float)):
                    stats[k] = stats.get(k, 0) + v
                elif isinstance(v, (set, list)):
                    stats.setdefault(k, set()).update(v)
        return r, w
    conc = [c for c in os_classes(prog)]
    reg, w0 = q("get_all_oversamplers")
    if job == "registry":
        want = [c for c in conc if c.name not in NOT_LISTED]
        same(obs, R_ALL, reg, want, w0, "a concrete oversampler")
        if reg is not None:
            ns = [c.name for c in reg]
            dup = sorted({n for n in ns if ns.count(n) > 1})
            obs.append(Ob(R_ONCE, "get_all_oversamplers", BAD if dup else OK, w0,
                          f"{dup} listed more than once" if dup else ""))
        for c in (reg or conc):
            ok = exported(prog, c.name)
            obs.append(Ob(R_EXP, c.name, OK if ok else BAD, c.module.path, "" if ok else
                          f"smote_variants.{c.name} does not exist: the class is not exported"))
        got, w = q("get_all_noisefilters")
        same(obs, R_NF, got, nf_classes(prog), w, "a noise filter")
    elif reg is None:
        pass
    elif job == "parameters":
        got, w = q("get_proportion_oversamplers")
        same(obs, R_PROP, got, [c for c in reg if "proportion" in params(c)], w,
             "an oversampler with a proportion parameter")
        got, w = q("get_metric_learning_oversamplers")
        same(obs, R_ML, got, [c for c in reg if "nn_params" in params(c)], w,
             "an oversampler that takes nn_params (the metric of its neighbourhoods)")
        for s in ("eq_1_vs_many_successive", "equalize_1_vs_many"):
            got, w = q("get_multiclass_oversamplers", strategy=s)
            want = [c for c in reg if "proportion" in params(c)
                    and not {CM, DR} & set(class_categories(prog, c))]
            same(obs, R_MULTI, got, want, w,
                 "an oversampler with a proportion that only adds samples in the original space")
    elif job == "simplex":
        base = [c for c in reg if "ss_params" in params(c)]
        got, w = q("get_simplex_sampling_oversamplers")
        same(obs, R_SS, got, base, w, "an oversampler with simplex sampling parameters")
        dfl = {c.name: ss_defaults(prog, c) for c in base}
        for flt in FILTERS:
            got, w = q("get_simplex_sampling_oversamplers", **flt)
            if got is None or any(d is Ellipsis or d is None for d in dfl.values()):
                obs.append(Ob(R_SSF, repr(flt), UNK, w, "not resolved"))
                continue
            want = {c.name for c in base if all(meets(dfl[c.name], k, v)
                                                for k, v in flt.items())}
            g = {c.name for c in got}
            obs.append(Ob(R_SSF, repr(flt), OK if g == want else BAD, w, "" if g == want else
                          f"wrongly returned: {sorted(g - want)}, missing: {sorted(want - g)}"))
    elif job == "quickest":
        rt = runtimes(prog)
        if rt is None:
            return obs, stats
        resolved = False
        for f in QUERIES:
            base, w = q(f)
            for n in (0, 1, 7, 1000):
                got, w = q(f, n_quickest=n)
                key = f"{f}(n_quickest={n})"
                if got is None or base is None or any(c.name not in rt for c in base):
                    obs.append(Ob(R_NQ, key, UNK, w, "not resolved"))
                    continue
                resolved = True
                rs = sorted(rt[c.name] for c in base)[:n]
                ok = sorted(rt[c.name] for c in got) == rs and \
                    {c.name for c in got} <= {c.name for c in base}
                obs.append(Ob(R_NQ, key, OK if ok else BAD, w, "" if ok else
                              f"{[c.name for c in got][:8]} are not the {n} quickest"))
        for c in reg:
            ok = isinstance(rt.get(c.name), (int, float)) and rt[c.name] > 0
            obs.append(Ob(R_RT, c.name, OK if ok or resolved and c.name not in rt else BAD,
                          w, "" if ok else f"no runtime is recorded for {c.name}: asking for the "
                          "quickest oversamplers fails"))
    return obs, stats


def category(prog, name):
    """a class declaring that it changes the majority (or the originals) must have a path that is
    not of the form originals + minority samples"""
    obs, st = c08.unit(prog, name)
    allok = bool(obs) and all(o.verdict == OK for o in obs) and \
        any(o.rule == c08.R_NEW for o in obs)
    ci = prog.classes[name]
    return [Ob(R_CM, name, BAD if allok else OK, f"{ci.module.path}:{ci.node.lineno} in {name}",
               f"{name} declares the changes-majority category although every result is the "
               "original data followed by minority samples: the multiclass query wrongly omits it"
               if allok else "")], st


def main(tier):
    c = Check("C13", tier)
    c.run_units(unit, ["registry", "parameters", "simplex", "quickest"])
    c.run_units(category, [k.name for k in os_classes(c.prog)
                           if CM in class_categories(c.prog, k)])
    c.explanation = (
        "The lists returned by the registry queries are evaluated by constant propagation (class "
        "lists, categories, constructor signatures, default parameters, recorded runtimes) and "
        "compared with the class table of the program: each query must return exactly the classes "
        "with the documented feature, and n_quickest the ones with the smallest recorded runtimes. "
        "The changes-majority category is compared with the symbolic results of the class.")
    c.assumptions = [f"{sorted(NOT_LISTED)} are helpers and deliberately not listed"]
    return c.finish({R_EXP: 60})
