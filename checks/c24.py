"""C24: model selection returns the combination with the best mean score."""
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, const, is_const, const_value, leaves, show
from sa.values import AV, NONE, vany, vconst, vstr
from sa.drive import DUMMY
from sa.units import find_function
from checks.evalmodel import install, getarg, cases, free_run, spec

R_DIR = "best-row-by-the-chosen-score"
R_GRP = "best-parameters-within-a-group"
R_SAME = "one-combination-returned"
R_PASS = "settings-passed-on"
R_AGG = "means-of-the-right-scores"
R_ORD = "serialized-columns-in-one-order"

# the smaller the better (definitions of the scores)
LOSS = {"fpr", "fdr", "fnr", "brier", "log_loss"}
GAIN = {"acc", "sens", "spec", "ppv", "npv", "bacc", "gacc", "f1", "mcc", "uc", "informedness",
        "markedness", "p_top20", "auc"}
NEUTRAL = {"l", "ltp", "lfp", "lfn", "ltn", "lp", "ln"}       # terms of the uncertainty score
SCORES = sorted(LOSS | GAIN | NEUTRAL)


def stats(it):
    return {"functions": set(f"{p}:{q}" for p, q in it.funcs), "calls_inlined": it.n_calls,
            "unmodelled_constructs": set(it.gaps)}


def text(t):
    """constant string of a term"""
    if is_const(t):
        v = const_value(t)
        return v if isinstance(v, str) else None
    if t.op in ("fstr", "+", "concat", "str", "strcat", "add", "b"):
        ps = [text(a) if isinstance(a, Term) else a for a in t.args]
        if t.op in ("add", "b"):
            ps = ps[1:]
        if all(isinstance(p, str) for p in ps):
            return "".join(ps)
    return None


def kw(t, name):
    for a in t.args:
        if isinstance(a, Term) and a.op == "k" and a.args[0] == name:
            return a.args[1]
    return None


def flag(t, name, default):
    v = kw(t, name)
    if v is None:
        return default
    if isinstance(v, Term):
        if not is_const(v):
            return None
        v = const_value(v)
    return v if isinstance(v, bool) else None


def index(t):
    if isinstance(t, Term) and is_const(t):
        t = const_value(t)
    return t if isinstance(t, int) and not isinstance(t, bool) else None


def column(t):
    """(table, column name) of table[column]"""
    if isinstance(t, Term) and t.op == "item" and len(t.args) == 2:
        c = t.args[1]
        c = text(c) if isinstance(c, Term) else c
        if isinstance(c, str):
            return t.args[0], c
    if isinstance(t, Term) and t.op == "attr" and len(t.args) == 2 and \
            t.args[1] not in ("iloc", "loc", "values", "columns", "index"):
        return t.args[0], t.args[1]
    return None


def passthrough(t):
    """ascending order and rows unaffected"""
    while isinstance(t, Term) and (t.op == "am" and t.args[0] in
                                   ("reset_index", "copy", "dropna", "drop_duplicates") or
                                   t.op == "copy"):
        t = t.args[1] if t.op == "am" else t.args[0]
    return t


def extreme(t):
    """value term: (direction, table, column)"""
    if t.op == "red" and t.args[0] in ("max", "min", "amax", "amin", "nanmax", "nanmin"):
        c = column(passthrough(t.args[1]))
        if c:
            return t.args[0][-3:], *c
    if t.op == "am" and t.args[0] in ("max", "min"):
        c = column(passthrough(t.args[1]))
        if c:
            return t.args[0], *c
    if t.op in ("max", "min") and len(t.args) == 1:
        c = column(passthrough(t.args[0]))
        if c:
            return t.op, *c
    return None


def ordered(t):
    """(direction of the first row, table, column) of a sorted table"""
    t = passthrough(t)
    if not isinstance(t, Term) or t.op != "am":
        return None
    if t.args[0] == "sort_values":
        by = kw(t, "by")
        if by is None:
            by = t.args[2] if len(t.args) > 2 and isinstance(t.args[2], Term) and \
                t.args[2].op != "k" else None
        c = text(by) if by is not None else None
        asc = flag(t, "ascending", True)
        if c and asc is not None and kw(t, "key") is None:
            return "min" if asc else "max", t.args[1], c
    if t.args[0] in ("nlargest", "nsmallest") and len(t.args) > 3:
        c = text(t.args[3])
        if c:
            return "max" if t.args[0] == "nlargest" else "min", t.args[1], c
    return None


FLIP = {"max": "min", "min": "max"}


def chosen(row):
    """(direction, table, column) deciding which row it is"""
    if not isinstance(row, Term):
        return None
    if row.op == "item" and isinstance(row.args[0], Term) and row.args[0].op == "attr":
        tab, how = row.args[0].args
        i = row.args[1]
        if how == "iloc" and index(i) in (0, -1):
            # filtered rows
            tab = passthrough(tab)
            f = tab.args[1] if tab.op == "item" else \
                tab.args[0].args[0] if False else None
            if tab.op == "item" and isinstance(tab.args[0], Term) and \
                    tab.args[0].op == "attr" and tab.args[0].args[1] == "loc":
                base = tab.args[0].args[0]
            else:
                base = tab.args[0] if tab.op == "item" else None
            if f is not None and isinstance(f, Term) and f.op == "eq":
                for a, b in (f.args, f.args[::-1]):
                    c, e = column(a), extreme(b)
                    if c and e and c == (base, e[2]) and same(e[1], base):
                        return e[0], base, e[2]
                return None
            o = ordered(tab)
            if o:
                return (o[0] if index(i) == 0 else FLIP[o[0]],) + o[1:]
            return None
        if how == "loc" and isinstance(i, Term) and i.op == "am" and \
                i.args[0] in ("idxmax", "idxmin"):
            c = column(i.args[1])
            if c and same(c[0], tab):
                return i.args[0][3:], tab, c[1]
        if how == "iloc" and isinstance(i, Term):
            op = i.args[0] if i.op in ("am", "red", "call") else i.op
            op = str(op).split(".")[-1]
            if op in ("argmax", "argmin"):
                c = column(i.args[1] if i.op in ("am", "red", "call") else i.args[0])
                if c and same(c[0], tab):
                    return op[3:], tab, c[1]
    return None


def same(a, b):
    return a is b


def split_item(t):
    """(row, column) through a literal_eval"""
    ev = False
    while isinstance(t, Term) and t.op == "call" and str(t.args[0]).split(".")[-1] in \
            ("literal_eval", "loads", "dict", "eval"):
        ev, t = True, t.args[1]
    c = column(t)
    return (c[0], c[1], ev) if c else None


def tmap(f, t, memo):
    if not isinstance(t, Term):
        return t
    if t not in memo:
        memo[t] = f(T(t.op, *[tmap(f, a, memo) if not isinstance(a, tuple) else
                              tuple(tmap(f, x, memo) if isinstance(x, Term) else x for x in a)
                              for a in t.args]))
    return memo[t]


def plain(t):
    """constant column names folded"""
    def f(x):
        if x.op in ("fstr",):
            s = text(x)
            if s is not None:
                return const(s)
        return x
    return tmap(f, t, {})


# ------------------------------------------------------------------- model selection
def unit_select(prog, score):
    obs = []
    it, st, fi, where = free_run(prog, "model_selection")
    install(it)
    sub = []

    def apply(it, b, args, kwargs, rest, st, node):
        f = getarg(args, kwargs, 0, "func")
        if f is not None and it.strip(f).kind in ("func", "lambda", "fn", "closure", "method"):
            sub.append(it.strip(f))
        return None
    it.func_override["any.apply"] = apply
    given = {}

    def ev(it, fi, args, kwargs, rest, st, node):
        given.update(kwargs)
        return vany(T("arg", "pdf"))
    it.func_override["evaluate_oversamplers"] = ev
    vs = []
    for s, v in it.call_func(fi, [vany(T("arg", k)) for k in ("dataset", "os", "clf")],
                             {"score": vconst(score)}, [], st, DUMMY):
        vs += v.data if v.kind == "union" else [v]
    want = "min" if score in LOSS else "max"
    if len(vs) != 1 or vs[0].kind != "tuple" or len(vs[0].data) != 2:
        return [Ob(R_DIR, score, UNK, where, "result not understood")], stats(it)
    rows = []
    for what, v in zip(("oversampler", "classifier"), vs[0].data):
        t = plain(it.strip(v).term)
        if t.op != "made" or t.args[0].op != "tuple" or len(t.args[0].args) != 3:
            obs.append(Ob(R_SAME, f"{score}: {what}", UNK, where, show(t, 3)))
            continue
        names = [f"{what}_module", what, f"{score}_{what}_params"]
        for x, n in zip(t.args[0].args, names):
            r = split_item(x)
            if r is None:
                obs.append(Ob(R_SAME, f"{score}: {n}", UNK, where, show(x, 2)))
                continue
            rows.append(r[0])
            obs.append(Ob(R_SAME, f"{score}: {n}", OK if r[1] == n else BAD, where,
                          "" if r[1] == n else f"the {what} is built from column {r[1]} "
                          f"instead of {n}"))
    dirs = [chosen(r) for r in rows]
    if rows and all(d is not None for d in dirs):
        d = dirs[0]
        if any(r is not rows[0] for r in rows):
            diff = len(set(dirs)) > 1
            obs.append(Ob(R_SAME, f"{score}: row", BAD if diff else OK, where,
                          "" if not diff else "the parts are taken from different rows"))
        else:
            obs.append(Ob(R_SAME, f"{score}: row", OK, where))
        bad = ""
        for d in dirs:
            if d[0] != want and score not in NEUTRAL:
                bad = f"the row of the {d[0]}imum {score} is selected ({want}imum is best)"
            elif d[2] != f"{score}_mean":
                bad = f"selected by {d[2]}"
        obs.append(Ob(R_DIR, score, BAD if bad else OK, where, bad))
    else:
        obs.append(Ob(R_DIR, score, UNK, where, "selection of the row not understood: " +
                      (show(rows[0], 3) if rows else "")))
    if score == SCORES[0]:
        # every function applied per group
        for f in sub:
            o, s2 = unit_group(prog, it, f, where)
            obs += o
    return obs, stats(it)


def unit_group(prog, it0, f, where):
    """the parameters kept for a group: those of its best row, per score"""
    obs = []
    it, st, _, _ = free_run(prog, "model_selection")
    install(it)
    made = []

    def frame(it, name, args, kwargs, rest, st, node):
        d = getarg(args, kwargs, 0, "data")
        d = it.strip(d) if d is not None else None
        if d is not None and d.kind == "dict":
            h = st.heap[d.data]
            row = {}
            for k, v in h.keys.items():
                v = it.strip(v)
                outs = []
                for x in (v.data if v.kind == "union" else [v]):
                    l = it.list_h(x, st) if x.kind == "list" else None
                    if l is not None and l.items is not None and len(l.items) == 1:
                        outs.append(it.strip(l.items[0]).term)
                row[k] = outs
            made.append((row, bool(h.rest), st.pc))
        return None
    it.ext_override["pandas.DataFrame"] = frame
    it.ext_override["pandas.Series"] = frame
    it.call(f, [vany(T("arg", "group"))], {}, [], st, DUMMY)
    made = [m for m in made if len(m[0]) > 3]
    if not made:
        return [Ob(R_GRP, "group", UNK, where, "summary of a group not found")], stats(it)
    for row, rest, pc in made:
        for s in SCORES:
            want = "min" if s in LOSS else "max"
            rows = []
            for col, src in ((f"{s}_oversampler_params", "oversampler_params"),
                             (f"{s}_classifier_params", "classifier_params"),
                             (f"{s}_mean", f"{s}_mean")):
                ts = [plain(t) for t in row.get(col, [])]
                key = f"{col}"
                n = 0
                verdict, msg = UNK, "not found"
                for t in ts:
                    for _, (x,) in cases([t]) or []:
                        if is_const(x):
                            continue
                        r = split_item(x)
                        d = chosen(r[0]) if r else None
                        if d is None:
                            verdict, msg = UNK, show(x, 3)
                            break
                        n += 1
                        rows.append(r[0])
                        if r[1] != src:
                            verdict, msg = BAD, f"{col} is taken from column {r[1]}"
                        elif d[0] != want and s not in NEUTRAL:
                            verdict, msg = BAD, f"{col} is that of the {d[0]}imum {s}"
                        elif d[2] != f"{s}_mean":
                            verdict, msg = BAD, f"{col} is that of the best {d[2]}"
                        else:
                            verdict, msg = (OK, "") if verdict != BAD else (verdict, msg)
                            continue
                        break
                obs.append(Ob(R_GRP, key, verdict, where, msg))
    return obs, stats(it)


# ------------------------------------------------------------------------ settings
CHAIN = [("model_selection", "evaluate_oversamplers", {"datasets": ("list", "dataset")}),
         ("evaluate_oversamplers", "evaluate_oversampler_on_dataset", {"dataset": None})]


def unit_pass(prog, job):
    caller, callee, special = job
    obs = []
    it, st, fi, where = free_run(prog, caller)
    install(it)
    fc = find_function(prog, callee)
    names = [a.arg for a in fc.node.args.args + fc.node.args.kwonlyargs]
    mine = [a.arg for a in fi.node.args.args + fi.node.args.kwonlyargs]
    got = []

    def rec(it, f, args, kwargs, rest, st, node):
        b = dict(zip(names, args))
        b.update(kwargs)
        got.append((b, st.copy(), bool(rest)))
        return vany(T("arg", "result"))
    it.func_override[callee] = rec
    args = {k: vany(T("arg", k)) for k in mine}
    if "datasets" in args:
        args["datasets"] = it.mk_list([vany(T("arg", "d1")), vany(T("arg", "d2"))], st, DUMMY)
    it.call_func(fi, [], args, [], st, DUMMY)
    if not got:
        return [Ob(R_PASS, f"{caller} to {callee}", UNK, where, "call not found")], stats(it)
    for n in names:
        if n in special or n not in mine:
            continue
        verdict, msg = OK, ""
        for b, s, rest in got:
            v = b.get(n)
            if v is None:
                verdict, msg = (UNK if rest else BAD), f"{n} is not passed"
                continue
            for _, (t,) in cases([it.strip(v).term]) or [(None, (T("?"),))]:
                if t is not T("arg", n) and t.op == "arg":
                    verdict, msg = BAD, f"{n}={show(t)}"
                elif t is not T("arg", n) and not it.strip(v).kind == "union" and \
                        is_const(t) and n not in ("validator_params",):
                    verdict, msg = BAD, f"{n}={show(t)}"
        obs.append(Ob(R_PASS, f"{caller}: {n}", verdict, where, msg))
    for n, how in special.items():
        if how is None:
            seen = [it.strip(b[n]).term for b, s, _ in got if n in b]
            w = [T("arg", "d1"), T("arg", "d2")]
            simple = all(t.op == "arg" for t in seen)
            obs.append(Ob(R_PASS, f"{caller}: {n}", OK if seen == w else BAD if simple else UNK,
                          where, ", ".join(map(show, seen))))
        else:
            for b, s, _ in got:
                v = it.strip(b[n]) if n in b else None
                items = None
                if v is not None:
                    items, _, _ = it.iter_info(v, s, DUMMY)
                ts = None if items is None else [it.strip(x).term for x in items]
                ok = ts == [T("arg", how[1])]
                obs.append(Ob(R_PASS, f"{caller}: {n}", OK if ok else UNK, where, str(ts)))
    return obs, stats(it)


# --------------------------------------------------------------------- aggregation
def unit_agg(prog, job):
    obs = []
    it, st, fi, where = free_run(prog, "do_parse_results")
    got = []

    def agg(it, b, args, kwargs, rest, st, node):
        d = {}
        for k, v in kwargs.items():
            v = it.strip(v)
            if v.kind == "tuple" and len(v.data) == 2 and all(x.is_const for x in v.data):
                d[k] = tuple(x.value for x in v.data)
        if d:
            got.append(d)
        return None
    it.func_override["any.agg"] = agg
    it.func_override["any.aggregate"] = agg
    it.call_func(fi, [], {"results": vany(T("arg", "results")), "parse_results": vconst(True),
                          "serialization": vstr(T("arg", "ser"))}, [], st, DUMMY)
    if not got:
        return [Ob(R_AGG, "aggregation", UNK, where, "not found")], stats(it)
    for d in got:
        for s in SCORES:
            for suf in ("mean", "std"):
                g = d.get(f"{s}_{suf}")
                if g is None:
                    continue
                obs.append(Ob(R_AGG, f"{s}_{suf}", OK if g == (s, suf) else BAD, where,
                              f"{s}_{suf} is the {g[1]} of {g[0]}"))
    return obs, stats(it)


def unit(prog, job):
    kind, arg = job
    return {"select": unit_select, "pass": unit_pass, "agg": unit_agg}[kind](prog, arg)


def main(tier):
    c = Check("C24", tier)
    jobs = [("select", s) for s in SCORES] + [("pass", x) for x in CHAIN] + [("agg", None)]
    c.run_units(unit, jobs)
    c.explanation = (
        "model_selection is abstractly executed once per score on a symbolic result table; the "
        "symbolic row the oversampler and the classifier are built from is classified by what "
        "selects it (an extreme value, a position in a sorted table, idxmax, ...), its direction "
        "has to agree with the definition of the score, and every part has to come from the "
        "matching column of that row. The same for the function applied per group, whose "
        "symbolic summary table is compared column by column.")
    c.assumptions = ["pandas selection semantics", "ties and missing values aside"]
    return c.finish({R_DIR: 1, R_PASS: 10, R_AGG: 10})
