"""C03: with an integer random_state every result is a function of the seed,
the parameters and the data only."""
import ast
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, leaves, is_const, const_value
from sa.values import NONE
from sa.units import (all_units, run_unit, unit_stats)
from sa.drive import ctor_params

R_GLOBAL = "no-global-rng"
R_UNSEEDED = "rng-is-seeded"
R_EST = "stochastic-estimator-is-seeded"
R_CLOCK = "no-clock-or-entropy"
R_DFLT = "default-specification-is-seeded"
R_HASH = "no-hash-order"

# constructors/functions whose output depends on an RNG unless random_state is
# given; value: predicate on kwargs saying whether the configuration is random
def always(kw):
    return True


def kwconst(kw, name, default):
    v = kw.get(name)
    if v is None:
        return default
    if v.kind == "none":
        return None
    if v.is_const:
        return v.value
    return Ellipsis


def shuffled(kw):
    return kwconst(kw, "shuffle", False) is True


def pca(kw):
    s = kwconst(kw, "svd_solver", "auto")
    if s in ("randomized", "arpack"):
        return True
    if s != "auto":
        return False
    # auto: the randomized solver is only selected for 1 <= n_components < 0.8*min(shape)
    n = kw.get("n_components")
    if n is None or n.kind in ("none", "str"):
        return False
    if n.is_const and isinstance(n.value, float) and n.value < 1:
        return False
    if n.term.op == "min":
        ops = {a.op for a in n.term.args if hasattr(a, "op")}
        if {"ncols"} <= ops and len(ops & {"len", "cnt"}) and len(n.term.args) == 2:
            return False          # min(n_samples, n_features): full solver
    return True


def lle(kw):
    return kwconst(kw, "eigen_solver", "auto") in ("auto", "arpack")


def svc(kw):
    return kwconst(kw, "probability", False) is True


def linsvc(kw):
    return kwconst(kw, "dual", True) in (True, "auto")


def logreg(kw):
    return kwconst(kw, "solver", "lbfgs") in ("sag", "saga", "liblinear")


STOCHASTIC = {
    "KMeans": always, "MiniBatchKMeans": always, "BisectingKMeans": always,
    "RandomForestClassifier": always, "RandomForestRegressor": always,
    "ExtraTreesClassifier": always, "ExtraTreesRegressor": always,
    "MLPClassifier": always, "MLPRegressor": always, "GaussianMixture": always,
    "BayesianGaussianMixture": always, "DecisionTreeClassifier": always,
    "DecisionTreeRegressor": always, "ExtraTreeClassifier": always,
    "IsolationForest": always, "TSNE": always, "PCA": pca, "TruncatedSVD": always,
    "SparsePCA": always, "KernelPCA": lambda kw: False, "FastICA": always, "NMF": always,
    "SVC": svc, "LinearSVC": linsvc, "LogisticRegression": logreg,
    "SpectralClustering": always, "SpectralEmbedding": always,
    "KFold": shuffled, "StratifiedKFold": shuffled, "RepeatedKFold": always,
    "RepeatedStratifiedKFold": always, "ShuffleSplit": always,
    "StratifiedShuffleSplit": always, "train_test_split": always, "shuffle": always,
    "resample": always, "AdaBoostClassifier": always, "GradientBoostingClassifier": always,
    "BaggingClassifier": always, "SGDClassifier": always, "Perceptron": always,
    "LocallyLinearEmbedding": lle, "mutual_info_classif": always,
    "mutual_info_regression": always, "RandomizedSearchCV": always,
    "ITML_Supervised": always, "LSML_Supervised": always, "SDML_Supervised": always,
    "MMC_Supervised": always, "RCA_Supervised": always, "MLPClassifierWrapper": always,
    "MiniSom": always, "make_classification": always, "make_blobs": always,
}
SEED_KW = {"MiniSom": "random_seed"}
STOCH_ROOTS = ("sklearn", "metric_learn", "minisom", "imblearn", "xgboost", "lightgbm",
               "smote_variants")
NP_DET = {"RandomState", "default_rng", "Generator", "SeedSequence", "PCG64", "MT19937",
          "get_state"}
CLOCK = {"time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "time.process_time",
         "time.perf_counter_ns", "time.monotonic_ns", "datetime.datetime.now",
         "datetime.datetime.utcnow", "datetime.datetime.today"}
ENTROPY = {"os.urandom", "uuid.uuid4", "uuid.uuid1", "os.getpid", "threading.get_ident"}


def seed_known(av):
    """True if the value is certainly a seed (int / RandomState / derived from the
    random_state parameter); False if certainly missing; None unknown"""
    if av is None or av.kind == "none":
        return False
    if av.kind == "num":
        return True
    if av.kind == "ext":
        return True
    if av.kind == "mod":
        return not av.data.startswith("numpy.random") or None
    if av.kind == "union":
        vs = [seed_known(x) for x in av.data]
        if any(v is False for v in vs):
            return False
        return True if all(vs) else None
    for t in leaves(av.term):
        if t.op == "param" and "random" in str(t.args[0]):
            return True
    return None


def entropy_terms(t):
    return [x for x in leaves(t) if x.op == "call" and x.args and
            isinstance(x.args[0], str) and (x.args[0] in CLOCK or x.args[0] in ENTROPY)]


def unit(prog, un):
    u = run_unit(prog, un)
    obs = []
    bad = []
    ndraw = nest = 0
    for e in u.it.events:
        if e.kind == "extcall":
            name, obj, args, kwargs, rest = e.data
            last = name.rsplit(".", 1)[-1]
            root = name.split(".")[0]
            if name.startswith("numpy.random."):
                fn = name[len("numpy.random."):]
                if "." not in fn and fn not in NP_DET:
                    if fn == "seed":
                        continue          # property C04
                    bad.append((R_GLOBAL, e, f"np.random.{fn}",
                                f"draws from the process-wide generator (numpy.random.{fn}) "
                                "although a seed was given"))
                elif fn in ("RandomState", "default_rng", "SeedSequence", "PCG64", "MT19937"):
                    s = args[0] if args else kwargs.get("seed")
                    if seed_known(s) is False:
                        bad.append((R_UNSEEDED, e, fn, f"{fn} created without a seed"))
                else:
                    ndraw += 1
                continue
            if root == "random" and "." in name:
                if last != "Random" and last not in ("seed",):
                    bad.append((R_GLOBAL, e, name, f"uses the process-wide generator {name}"))
                continue
            if root in ("secrets",) or name in ENTROPY:
                bad.append((R_CLOCK, e, name, f"uses entropy source {name}"))
                continue
            if last in STOCHASTIC and root in STOCH_ROOTS:
                nest += 1
                kw = SEED_KW.get(last, "random_state")
                if not STOCHASTIC[last](kwargs):
                    continue
                s = kwargs.get(kw)
                if s is None and rest:
                    continue
                if s is None and last in ("mutual_info_regression",) and rest:
                    continue
                k = seed_known(s)
                if k is False:
                    bad.append((R_EST, e, last,
                                f"{name} is stochastic and is built without {kw}"))
        elif e.kind == "anydraw":
            obj, attr = e.data
        elif e.kind == "hashorder":
            bad.append((R_HASH, e, str(e.data), "iteration order of a set of strings/objects"))
    for call, alts in u.outs.items():
        for s, v in alts:
            ts = entropy_terms(v.term)
            for t in ts:
                obs.append(Ob(R_CLOCK, f"{un.name}.{call} result depends on {t.args[0]}", BAD,
                              "", f"the value returned by {un.name}.{call} depends on "
                                  f"{t.args[0]}"))
    for rule, e, what, msg in bad:
        obs.append(Ob(rule, f"{e.func} {what}", BAD, e.where(),
                      msg + f" (reached from {un}): " +
                      " -> ".join(f"{f}:{ln}" for _, f, ln in e.chain)))
    if not bad:
        obs.append(Ob(R_GLOBAL, str(un), UNK if u.it.budget_hit else OK, "",
                      f"{ndraw} draws on seeded generators, {nest} stochastic estimators seeded"))
    # default specifications (module, class, params)
    if u.run is not None:
        for n, d in u.run.params:
            if d is None:
                continue
            o = spec_seeded(prog, un, n, d)
            if o is not None:
                obs.append(o)
    st = unit_stats(u)
    st["draw_sites"] = ndraw
    st["stochastic_estimators"] = nest
    return obs, st


def spec_seeded(prog, un, n, d):
    try:
        v = ast.literal_eval(d)
    except (ValueError, TypeError, SyntaxError):
        return None
    if not (isinstance(v, tuple) and len(v) == 3 and isinstance(v[1], str)
            and isinstance(v[2], dict)):
        return None
    if v[1] in STOCHASTIC:
        class K:
            def __init__(self, x):
                self.kind = "none" if x is None else "c"
                self.is_const = True
                self.value = x
        if STOCHASTIC[v[1]]({k: K(x) for k, x in v[2].items()}) and \
                v[2].get("random_state") is None:
            return Ob(R_DFLT, f"{un.name} default {n}", BAD, un.name,
                      f"default {n}={v!r} is stochastic and has no random_state")
    elif v[0].startswith("smote_variants") and v[1] in prog.classes:
        _, ps, _ = ctor_params(prog.classes[v[1]])
        if any(p == "random_state" for p, _ in ps) and v[2].get("random_state") is None:
            return Ob(R_DFLT, f"{un.name} default {n}", BAD, un.name,
                      f"default {n}={v!r} has no random_state")
    return Ob(R_DFLT, f"{un.name} default {n}", OK, un.name, str(v))


def main(tier):
    c = Check("C03", tier)
    c.run_units(unit, [x for x in all_units(c.prog) if x.kind != "function"])
    c.explanation = (
        "Effect analysis of every sampler/filter/classifier entry point with an integer "
        "random_state and all other parameters symbolic: every RNG draw must be on a generator "
        "built from the seed, every stochastic estimator (table of constructors and the "
        "configurations in which they are random) must receive a random_state, no clock or "
        "entropy value reaches a result, and default (module, class, params) specifications of "
        "stochastic components are seeded.")
    c.assumptions = ["library estimators are deterministic once random_state is fixed",
                     "estimator specifications passed by the user are the user's responsibility"]
    return c.finish({R_GLOBAL: 80, R_DFLT: 3})
