"""C22: every reported score equals its definition on every confusion matrix and every vector of
probabilities."""
import ast
import math
import random
import numpy as np
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, show
from sa.values import AV, State, vconst, vnum
from sa.units import find_function, arr_arg
from sa.interp import Interp
from sa.drive import DUMMY
from checks.domains import Unknown
from checks.numeval import NumEval, Undefined, close, log_loss, auc

R_ATOM = "confusion-matrix-cells"
R_LAB = "score-of-the-confusion-matrix"
R_PRED = "predicted-label"
R_PROB = "score-of-the-probabilities"
R_ALL = "reported-score"
R_LIST = "every-listed-score-reported"


def xlogx(m, v):
    return m * math.log(v) if v > 0 else None


def ref_atoms(t, pred, m):
    t, pred = np.asarray(t), np.asarray(pred)
    pos = t == m
    ok = t == pred
    return {"tp": int((ok & pos).sum()), "tn": int((ok & ~pos).sum()),
            "fp": int((~ok & ~pos).sum()), "fn": int((~ok & pos).sum())}


def ref_labels(a):
    tp, tn, fp, fn = a["tp"], a["tn"], a["fp"], a["fn"]
    p, n = tp + fn, tn + fp
    r = {"p": p, "n": n, "tp": tp, "tn": tn, "fp": fp, "fn": fn}
    r["acc"] = (tp + tn) / (p + n)
    r["sens"] = tp / p
    r["spec"] = tn / n
    r["ppv"] = tp / (tp + fp) if tp + fp else 0.0
    r["npv"] = tn / (tn + fn) if tn + fn else 0.0
    r["fpr"] = fp / n
    r["fdr"] = 1 - r["ppv"]
    r["fnr"] = fn / p
    r["bacc"] = (r["sens"] + r["spec"]) / 2
    r["gacc"] = math.sqrt(r["sens"] * r["spec"])
    r["f1"] = 2 * tp / (2 * tp + fp + fn)
    d = (tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)
    r["mcc"] = (tp * tn - fp * fn) / math.sqrt(d) if d else None
    r["l"] = (p + n) * math.log(p + n)
    for k, v, q in (("ltp", tp, (tp + fp) * (tp + fn)), ("lfp", fp, (tp + fp) * (tn + fp)),
                    ("lfn", fn, (tp + fn) * (tn + fn)), ("ltn", tn, (tn + fp) * (tn + fn))):
        r[k] = xlogx(v, v / q) if q > 0 else None
    r["lp"] = p * math.log(p / (p + n))
    r["ln"] = n * math.log(n / (p + n))
    xs = [r[k] for k in ("ltp", "lfp", "lfn", "ltn")]
    r["uc"] = None if any(x is None for x in xs) else \
        (r["l"] + sum(xs)) / (r["l"] + r["lp"] + r["ln"])
    r["informedness"] = r["sens"] + r["spec"] - 1
    r["markedness"] = r["ppv"] + r["npv"] - 1
    return r


LABEL = ["p", "n", "acc", "sens", "spec", "ppv", "npv", "fpr", "fdr", "fnr", "bacc", "gacc",
         "f1", "mcc", "l", "ltp", "lfp", "lfn", "ltn", "lp", "ln", "uc", "informedness",
         "markedness"]
PROB = ["p_top20", "brier", "log_loss", "auc"]
ATOMS = ["tp", "tn", "fp", "fn"]


def ref_prob(t, p):
    t, p = np.asarray(t), np.asarray(p)
    k = max(int(0.2 * len(t)), 1)
    top = t[np.argsort(-p, kind="stable")[:k]]
    return {"p_top20": float((top == 1).sum() / k), "brier": float(np.mean((p - t) ** 2)),
            "log_loss": log_loss(t, p), "auc": auc(t, p)}


def matrices(rnd, n):
    """confusion matrices with both classes present"""
    out = [(3, 5, 2, 1), (1, 1, 0, 0), (0, 7, 0, 3), (4, 0, 6, 0), (0, 5, 2, 4), (5, 0, 3, 2),
           (2, 3, 0, 4), (2, 3, 4, 0), (1, 0, 1, 0), (0, 1, 0, 1), (0, 0, 2, 3),
           (100000, 100000, 50000, 50000), (7, 1000000, 3, 90000), (12, 480, 31, 7),
           (2000000, 3000000, 1000000, 400000), (1, 9, 1, 1), (10, 10, 10, 10)]
    out = [dict(zip(("tp", "tn", "fp", "fn"), x)) for x in out]
    while len(out) < n:
        hi = rnd.choice([3, 10, 200, 100000])
        a = {k: rnd.randint(0, hi) for k in ATOMS}
        if a["tp"] + a["fn"] and a["tn"] + a["fp"]:
            out.append(a)
    return out


def vectors(rnd, n):
    """test labels and minority probabilities: ties, one half, extremes, sorted and unsorted"""
    out = []
    for i in range(n):
        k = rnd.choice([2, 3, 5, 9, 10, 11, 15, 20, 34])
        t = [rnd.randint(0, 1) for _ in range(k)]
        t[0], t[1] = (1, 0) if rnd.random() < 0.5 else (0, 1)
        rnd.shuffle(t)
        style = i % 4
        if style == 0:
            p = [rnd.random() for _ in range(k)]
        elif style == 1:
            p = [rnd.choice([0.0, 0.2, 0.4, 0.7, 1.0]) for _ in range(k)]
        elif style == 2:
            p = [rnd.choice([0.5, 0.5, 0.25, 0.75, 0.5000001, 0.4999999]) for _ in range(k)]
        else:
            p = sorted(rnd.random() for _ in range(k))
        out.append((np.array(t), np.array(p)))
    return out


def run(prog, name, args, kwargs=None):
    fi = find_function(prog, name)
    it = Interp(prog, budget_s=120)
    it.int_prod = True
    it.phase = "call"
    st = State()
    a = args(it, st)
    alts = it.call_func(fi, a, kwargs or {}, [], st, DUMMY)
    v = it.merge_alts(alts, st)
    return fi, it, st, it.strip(v)


def entries(v, st):
    h = st.heap.get(v.data) if v.kind == "dict" else None
    if h is None or not h.exact():
        return None
    return h.keys


def compare(obs, rule, key, t, cases, ref, where, skip=lambda env, r: False):
    """the term against the reference on every witness"""
    n = 0
    for env in cases:
        want = ref(env)
        if skip(env, want):
            continue
        try:
            got = NumEval(env).ev(t)
        except Undefined:
            obs.append(Ob(rule, key, BAD, where, f"not defined for {brief(env)}, where it is "
                          f"{want}"))
            return 0
        except (Unknown, TypeError, IndexError, ValueError, KeyError, OverflowError) as e:
            obs.append(Ob(rule, key, UNK, where, f"not evaluable: {type(e).__name__} {e} "
                          f"{show(t, 3)}"[:300]))
            return 0
        if isinstance(got, np.ndarray) and got.size != 1:
            obs.append(Ob(rule, key, UNK, where, "not a number"))
            return 0
        if not close(got, want):
            obs.append(Ob(rule, key, BAD, where,
                          f"{key} is {got} instead of {want} for {brief(env)}"))
            return 0
        n += 1
    obs.append(Ob(rule, key, OK if n else UNK, where, f"{n} witnesses"))
    return n


def brief(env):
    return ", ".join(f"{k}={v.tolist() if isinstance(v, np.ndarray) else v}"
                     for k, v in env.items())[:240]


def two(it, st):
    n = T("len", T("arg", "t"))
    return [AV("arr", T("arg", "t"), frozenset([("arg", "t")]), nd=1, ln=n),
            AV("arr", T("arg", "p"), frozenset([("arg", "p")]), nd=1, ln=n)]


def unit(prog, job):
    what, seed, size = job
    rnd = random.Random(seed)
    obs = []
    it = None
    n = 0
    if what == "atoms":
        for m in (0, 1):
            fi, it, st, v = run(prog, "calculate_atoms", two, {"min_label": vconst(m)})
            where = f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}"
            ks = entries(v, st)
            cases = [{"t": t, "p": (p > rnd.random()) * 1} for t, p in vectors(rnd, size)]
            for k in ATOMS:
                key = f"{k} with minority label {m}"
                if ks is None or k not in ks:
                    obs.append(Ob(R_ATOM, key, UNK, where, "no such entry found"))
                    continue
                n += compare(obs, R_ATOM, key, ks[k].term, cases,
                             lambda e: ref_atoms(e["t"], e["p"], m)[k], where)
    if what == "labels":
        def args(it, st):
            return [it.mk_dict({k: vnum(T("arg", k)) for k in ATOMS}, st, DUMMY)]
        fi, it, st, v = run(prog, "calculate_label_scores", args)
        where = f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}"
        ks = entries(v, st)
        cases = matrices(rnd, size)
        for k in LABEL:
            if ks is None or k not in ks:
                obs.append(Ob(R_LAB, k, UNK, where, "no such entry found"))
                continue
            n += compare(obs, R_LAB, k, ks[k].term, cases,
                         lambda e: ref_labels(e)[k], where)
    if what == "pred":
        fi, it, st, v = run(prog, "prediction_labels", lambda it, st: two(it, st)[1:])
        where = f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}"
        key = "label of a probability other than one half"
        bad = unk = None
        for t, p in vectors(rnd, size):
            try:
                got = np.asarray(NumEval({"p": p}).ev(v.term))
            except (Unknown, Undefined, TypeError, IndexError, ValueError) as e:
                unk = f"not evaluable: {type(e).__name__} {e}"
                break
            off = p != 0.5
            if got.shape != p.shape or not np.array_equal(got[off], (p > 0.5)[off] * 1) or \
                    not np.isin(got, [0, 1]).all():
                bad = f"labels {got.tolist()} for the probabilities {p.tolist()}"
                break
            n += 1
        obs.append(Ob(R_PRED, key, BAD if bad else UNK if unk else OK, where, bad or unk or ""))
    if what in ("prob", "all"):
        f = "calculate_prob_scores" if what == "prob" else "calculate_all_scores"
        fi, it, st, v = run(prog, f, two)
        where = f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}"
        ks = entries(v, st)
        vs = [{"t": t, "p": p} for t, p in vectors(rnd, size)]

        def half(e):
            return (e["p"] == 0.5).any()

        def ref(e):
            r = ref_prob(e["t"], e["p"])
            if what == "all":
                r.update(ref_labels(ref_atoms(e["t"], (e["p"] > 0.5) * 1, 1)))
            return r
        for k in PROB + (LABEL + ATOMS if what == "all" else []):
            rule = R_PROB if what == "prob" else R_ALL
            if ks is None or k not in ks:
                obs.append(Ob(rule, k, UNK, where, "no such entry found"))
                continue
            # ties at the cut of the best fifth are resolved arbitrarily
            sk = (lambda e, r: len(set(e["p"])) < len(e["p"])) if k == "p_top20" else \
                (lambda e, r: half(e)) if k not in PROB else (lambda e, r: False)
            n += compare(obs, rule, k, ks[k].term, vs, lambda e: ref(e)[k], where, sk)
        if what == "all":
            # the minority may be the class labelled 0
            _, it, st, v = run(prog, f, two, {"min_label": vconst(0)})
            k0 = entries(v, st)
            for k in ATOMS + ["sens", "ppv", "mcc"]:
                key = f"{k} with minority label 0"
                if k0 is None or k not in k0:
                    obs.append(Ob(R_ALL, key, UNK, where, "no such entry found"))
                    continue
                n += compare(obs, R_ALL, key, k0[k].term, vs,
                             lambda e: ref_labels(ref_atoms(e["t"], (e["p"] > 0.5) * 1, 0))[k],
                             where, lambda e, r: half(e))
            names = None
            r = prog.lookup(fi.module.name, "all_scores")
            if r is not None and r[0] == "assign":
                try:
                    names = list(ast.literal_eval(r[2]))
                except (ValueError, TypeError, SyntaxError):
                    names = None
            if ks is None or names is None:
                obs.append(Ob(R_LIST, "all_scores", UNK, where, "list not found"))
            else:
                for k in names:
                    obs.append(Ob(R_LIST, k, OK if k in ks else BAD, where,
                                  "" if k in ks else "listed but not calculated"))
    s = {"witness_comparisons": n}
    if it is not None:
        s["functions"] = set(f"{p}:{q}" for p, q in it.funcs)
        s["unmodelled_constructs"] = set(it.gaps)
    return obs, s


def main(tier):
    c = Check("C22", tier)
    reps = 1 if tier == "quick" else 8
    size = 60 if tier == "quick" else 400
    c.run_units(unit, [(w, c.seed * 1000 + r, size) for r in range(reps)
                       for w in ("atoms", "labels", "pred", "prob", "all")])
    c.explanation = (
        "The functions of the metrics module are abstractly executed on symbolic vectors; each "
        "reported score is a closed symbolic formula (including the conditions under which it "
        "is None), compared with the textbook definition as a function of the confusion matrix "
        "/ the vectors on families of assignments (zero cells, one-column matrices, counts in "
        "the millions with the fixed size of numpy's integer products kept in the formula, "
        "ties, probabilities at the threshold).")
    c.assumptions = ["both classes occur in the test part (stratified folds)",
                     "sklearn's log_loss and roc_auc_score implement their definitions"]
    return c.finish({R_ATOM: 8, R_LAB: 20, R_PRED: 1, R_PROB: 4, R_ALL: 25})
