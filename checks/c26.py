"""C26: indices are used on the rows they were made for."""
import ast
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, is_const, const_value
from sa.units import os_classes, nf_classes, us_classes, method_args
from sa.values import AV, HObj
from sa.drive import ClassRun
from checks.c27 import own
from checks.c28 import functions
from checks.liveness import FUNCS
from checks.rowsets import Rows, verdict, aligned, describe, disjoint, inside, is_mask

R_GATHER = "indices-name-rows-of-the-indexed-array"
R_SIMPLEX = "simplices-are-made-of-aligned-arrays"
R_HEAD = "base-point-heads-its-neighbours"

R_PAIRS = "coordinates-of-pairs-are-sorted-together"

R_TAKE = "rows-are-not-taken-from-the-flattened-matrix"
R_COUNT = "neighbours-are-counted-not-queries"

NN = "NearestNeighborsWithMetricTensor"


def hook(it):
    calls = []

    def arg(args, kwargs, i, name):
        if len(args) > i:
            return it.strip(args[i])
        return it.strip(kwargs[name]) if name in kwargs else None

    def fit(it_, fi, args, kwargs, rest, st, node):
        X = arg(args, kwargs, 1, "X")
        o = it.strip(args[0])
        h = st.heap.get(o.data) if o.kind == "obj" else None
        if X is None or not isinstance(h, HObj):
            return None
        st.heap[o.data] = HObj(h.cls, {**h.attrs, "$rows": X})
        return o

    def query(it_, fi, args, kwargs, rest, st, node):
        o = it.strip(args[0])
        h = st.heap.get(o.data) if o.kind == "obj" else None
        if not isinstance(h, HObj) or "$rows" not in h.attrs:
            return None
        A = it.strip(h.attrs["$rows"])
        B = arg(args, kwargs, 1, "X")
        if B is None or B.kind == "none":
            B = A
        rd = arg(args, kwargs, 3, "return_distance")
        nd = 2 if fi.name == "kneighbors" else 1
        k = T("k", *[x.term for x in list(args[2:]) + list(kwargs.values())])
        ind = AV("arr", T("nn", A.term, B.term, fi.name, k),
                 frozenset([it.newloc(node, "ind")]), "i", nd, it.ln(B))
        if rd is not None and rd.is_const and not rd.value:
            return ind
        dist = AV("arr", T("nndist", A.term, B.term, fi.name, k),
                  frozenset([it.newloc(node, "dist")]), None, nd, it.ln(B))
        from sa.values import vtuple
        return vtuple([dist, ind])

    def pdist(it_, fi, args, kwargs, rest, st, node):
        X = arg(args, kwargs, 0, "X")
        Y = arg(args, kwargs, 1, "Y")
        if X is None:
            return None
        Y = X if Y is None or Y.kind == "none" else Y
        return AV("arr", T("pdist", X.term, Y.term), frozenset([it.newloc(node, "pd")]), None, 2,
                  it.ln(X))

    def simplex(it_, fi, args, kwargs, rest, st, node):
        v = {n: arg(args, kwargs, i, n) for i, n in
             ((1, "X"), (9, "indices"), (9, "base_weights"), (9, "vertex_weights"),
              (9, "X_vertices"), (9, "simplex_weights"))}
        f = it.stack[-1][0] if it.stack else None
        calls.append((f.fi.module.path if f else "", f.fi.qualname if f else "",
                      getattr(node, "lineno", 0), v))
        return None

    it.func_override[NN + ".fit"] = fit
    it.func_override[NN + ".kneighbors"] = query
    it.func_override[NN + ".radius_neighbors"] = query
    it.func_override["pairwise_distances_mahalanobis"] = pdist
    it.func_override["SimplexSamplingMixin.sample_simplex"] = simplex
    return calls


def site(path, func, line=None):
    return f"{path}:{line} in {func}" if line else f"{path} in {func}"


def pairs_axis(t):
    """the axis along which the pairs of an array of pairs are laid out, None for other arrays"""
    flip = 0
    while t.op in ("copy", "astype", "T", "arrof", "asarray") and isinstance(t.args[0], Term):
        flip ^= t.op == "T"
        t = t.args[0]
    if t.op == "cat" and t.args and all(x.op == "row1" and x.args[0].op == "where2" for x in t.args):
        ws = [x.args[0] for x in t.args]
        return flip ^ 1 if len(ws) == 2 and ws[0].args[0] is ws[1].args[0] else None
    if t.op == "colcat" and len(t.args) == 2 and all(x.op == "where2" for x in t.args):
        return flip
    if t.op == "argwhere":
        return flip
    if t.op == "rows" and len(t.args) == 1 and t.args[0].op == "seq" and \
            len(t.args[0].args) == 2 and t.args[0].args[1].op == "zip" and \
            len(t.args[0].args[1].args) == 2:
        return flip
    return None


def sort_axis(node, first):
    """the axis of a call of sort, from the source; None when it is not a constant"""
    ax = -1
    for k in getattr(node, "keywords", ()):
        if k.arg == "axis":
            ax = k.value
    pos = list(getattr(node, "args", ()))[first:]
    if pos:
        ax = pos[0]
    if isinstance(ax, ast.AST):
        try:
            ax = ast.literal_eval(ax)
        except ValueError:
            return None
    return ax % 2 if isinstance(ax, int) else None


def watch_sorts(it):
    sorts = []

    def on_write(it_, av, node, how, st):
        if how == ".sort()" and isinstance(node, ast.Call):
            note(av, node, 0)

    def note(av, node, first):
        la, ax = pairs_axis(av.term), sort_axis(node, first)
        f = it.stack[-1][0] if it.stack else None
        if la is not None and ax is not None and f is not None and f.fi is not None:
            sorts.append((f.module.path, f.fi.qualname, node.lineno, la, ax))

    it.on_write = on_write
    it.on_sort = note
    return sorts


def names_of(ks):
    return " or ".join(sorted({describe(k) for k in ks}))


def judge(obs, rule, key, where, v, ok, bad):
    if v is None:
        return
    obs.append(Ob(rule, key, OK if v else BAD, where, "" if v else bad))


def unit(prog, job):
    kind, name, call = job
    r = ClassRun(prog, prog.classes[name])
    it = r.it
    it.trace_ops = True
    calls = hook(it)
    sorts = watch_sorts(it)
    it.phase = call
    r.call(call, [], dict(method_args(prog, r.ci, call)), phase=call)
    rw = Rows(it)
    obs = []
    seen = set()
    n = 0
    for e in it.events:
        if e.kind == "astake":
            flattened(rw, obs, name, e)
            continue
        if e.kind != "asindex":
            continue
        if isinstance(e.data[0], str):
            continue
        b, i = (it.strip(x) for x in e.data)
        if b.kind not in ("arr", "list", "any"):
            continue
        n += 1
        bt = it.list_ver(it.list_h(b, e.st)) if b.kind == "list" and getattr(e, "st", None) \
            else b.term
        k = (e.file, e.line, bt, i.term)
        if k in seen:
            continue
        seen.add(k)
        key = f"{name}:{e.file}:{e.func}:{e.line}"
        gather(rw, obs, key, f"{e.file}:{e.line} in {e.func}", bt, i)
    for path, func, line, v in calls:
        simplex(rw, obs, f"{name}:{func}:{line}", site(path, func, line), v)
    for path, func, line, la, ax in sorted(set(sorts)):
        judge(obs, R_PAIRS, f"{name}:{path}:{func}:{line}", site(path, func, line), la != ax, "",
              "the first and the second coordinates of the pairs are sorted apart from each "
              "other: what stands side by side afterwards is no pair any more")
    return obs, {"index_operations": n, "simplex_samplings": len(calls)}


def gather(rw, obs, key, where, bt, i):
    os = rw.of(bt)
    if i.kind == "tuple":
        i0 = i.data[0] if i.data else None
        parts = [(i0, os)]
        if len(i.data) > 1:
            parts.append((i.data[1], rw.cols(bt)))
    else:
        parts = [(i, os)]
    for x, ks in parts:
        if x is None or x.kind in ("slice", "none", "str") or not ks:
            continue
        x = rw.it.strip(x)
        if is_mask(x.term) or rw.masklike(x.term):
            ms = rw.of(x.term)
            v = verdict(ms, ks, aligned)
            judge(obs, R_GATHER, key, where, v, "", f"a mask over {names_of(ms)} is used on an array "
                  f"of {names_of(ks)}")
            continue
        ns = rw.names(x.term)
        v = verdict(ns, ks)
        judge(obs, R_GATHER, key, where, v, "", f"positions among {names_of(ns)} are used on an "
              f"array of {names_of(ks)}")


def simplex(rw, obs, key, where, v):
    def t(n):
        x = v[n]
        return x.term if x is not None and x.kind in ("arr", "any", "list") else None
    X, ind, ver = t("X"), t("indices"), t("X_vertices")
    base = rw.of(X) if X is not None else None
    vert = rw.of(ver) if ver is not None else base
    if ind is None or base is None:
        return
    head(rw, obs, key + ":head", where, ind)
    rows, nam = rw.of(ind), rw.names(ind)
    judge(obs, R_SIMPLEX, key + ":base", where, verdict(rows, base, aligned), "",
          f"the neighbours of {names_of(rows)} are combined with base points that are "
          f"{names_of(base)}")
    judge(obs, R_SIMPLEX, key + ":vertices", where, verdict(nam, vert), "",
          f"neighbours are positions among {names_of(nam)}, the vertices are {names_of(vert)}")
    for n, ks, what in (("base_weights", base, "base points"),
                        ("vertex_weights", vert, "vertices"),
                        ("simplex_weights", rows, "neighbourhoods")):
        w = t(n)
        if w is not None:
            ws = rw.of(w)
            judge(obs, R_SIMPLEX, f"{key}:{n}", where, verdict(ws, ks, aligned), "",
                  f"the weights of {names_of(ws)} are given for {what} that are {names_of(ks)}")


def shape_of(rw, t, d=12):
    """(columns dropped at the front, what the rest of the columns are) of a matrix of positions"""
    off = 0
    while d:
        d -= 1
        if t.op in ("copy", "astype", "asarray"):
            t = t.args[0]
        elif t.op == "cols" and isinstance(t.args[1], Term) and t.args[1].op == "slice":
            lo = t.args[1].args[0]
            lo = const_value(lo) if isinstance(lo, Term) and is_const(lo) else lo
            if isinstance(lo, Term) and lo.op == "none":
                lo = 0
            if not isinstance(lo, (int, type(None))) or (lo or 0) < 0:
                return None
            off += lo or 0
            t = t.args[0]
        elif t.op == "idx" and len(t.args) == 2:
            t = t.args[0]
        elif t.op == "rowsof":
            t = t.args[0]
        else:
            break
    return off, t


def head(rw, obs, key, where, ind):
    """the first column of the positions, which sample_simplex leaves out, is the base point"""
    f = shape_of(rw, ind)
    if f is None:
        return
    off, t = f
    if t.op == "nn" and len(t.args) > 2 and t.args[2] == "kneighbors":
        A, B = rw.of(t.args[0]), rw.of(t.args[1])
        if off:
            judge(obs, R_HEAD, key, where, False, "", f"the first {off} of the neighbours are taken "
                  "off before sample_simplex leaves the first of the rest out: the base point "
                  "does not head its neighbours")
        elif A and B:
            rel = [True if b == a or inside(b, a) else False if disjoint(a, b) else None
                   for a in A for b in B]
            v = True if all(rel) else False if all(r is False for r in rel) else None
            judge(obs, R_HEAD, key, where, v, "", f"the neighbours of {names_of(B)} are searched "
                  f"among {names_of(A)}, so the first of them is not the base point, and "
                  "sample_simplex leaves it out")


def flattened(rw, obs, name, e):
    """take without an axis takes from the entries of all rows one after the other"""
    a, i, ax = e.data
    a, i = rw.it.strip(a), rw.it.strip(i)
    if ax is not None or a.kind != "arr" or a.nd != 2 or a.term.op not in (
            "nn", "nndist", "pdist", "cols", "idx", "copy", "astype", "arrof"):
        return
    t = i.term
    flat = t.op == "red" and t.args[0] in ("argmin", "argmax") and len(t.args) == 2 or \
        t.op in ("flat", "lin", "u", "call", "argsort", "ravel") and "ravel" in repr(t) or \
        t.op in ("picks", "pick", "draw") and "'size'" in repr(t)
    where = f"{e.file}:{e.line} in {e.func}"
    obs.append(Ob(R_TAKE, f"{name}:{e.file}:{e.func}:{e.line}", OK if flat else BAD, where,
                  "" if flat else "take without an axis takes from the rows of the matrix one "
                  "after the other: small positions always fall in the first row"))


def one_query(e):
    """the expression is a matrix of one row"""
    if isinstance(e, ast.List):
        return len(e.elts) == 1
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        n = e.func.attr
        if n == "reshape":
            a = e.args[0] if e.args else None
            if isinstance(a, ast.Tuple):
                a = a.elts[0] if a.elts else None
            return isinstance(a, ast.Constant) and a.value == 1
        if n in ("array", "asarray", "vstack", "atleast_2d") and e.args:
            return n != "atleast_2d" and one_query(e.args[0])
    if isinstance(e, ast.Subscript):
        s = e.slice
        if isinstance(s, ast.Tuple) and s.elts:
            s = s.elts[0]
        return isinstance(s, ast.Constant) and s.value is None or one_query(s) \
            if isinstance(s, (ast.Constant, ast.List)) else False
    return False


def queries_counted(prog, obs):
    """len() of the result of a search is the number of queries"""
    for m, q, fn, _ in functions(prog):
        defs = {}
        for s in own(fn):
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t = s.targets[0]
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Name):
                        defs.setdefault(x.id, []).append(s.value if x is t else None)
            elif not isinstance(s, FUNCS):
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not any(
                            isinstance(b, ast.stmt) and b is not s and x in ast.walk(b)
                            for b in ast.iter_child_nodes(s)):
                        defs.setdefault(x.id, []).append(None)

        def value(e):
            while isinstance(e, ast.Name):
                d = defs.get(e.id, [])
                if len(d) != 1 or d[0] is None:
                    return e
                e = d[0]
            return e

        for c in ast.walk(fn):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and
                    c.func.id == "len" and len(c.args) == 1):
                continue
            s = value(c.args[0])
            if not (isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and
                    s.func.attr in ("radius_neighbors", "kneighbors")):
                continue
            x = s.args[0] if s.args else next((k.value for k in s.keywords if k.arg == "X"), None)
            if x is None:
                continue
            bad = one_query(value(x))
            obs.append((R_COUNT, f"{m.path}:{q}:{c.lineno}", not bad,
                        f"{m.path}:{c.lineno} in {q}",
                        "the search answers one query, so the length of its result is always 1: "
                        "the neighbours found are not counted"))


def main(tier):
    c = Check("C26", tier)
    jobs = [("oversampler", x.name, "sample") for x in os_classes(c.prog)] + \
        [("undersampler", x.name, "sample") for x in us_classes(c.prog)] + \
        [("noise filter", x.name, "remove_noise") for x in nf_classes(c.prog)]
    c.run_units(unit, jobs)
    counted = []
    queries_counted(c.prog, counted)
    for rule, key, ok, where, msg in counted:
        c.add(rule, key, OK if ok else BAD, where, "" if ok else msg)
    c.explanation = (
        "Row-set inference over the symbolic arrays of every sampler: neighbour searches give "
        "positions in the rows they were fitted to, one row of positions per query row; masks, "
        "selections, draws, loops and orderings carry the set of rows they count or select. Every "
        "index operation and every simplex sampling whose row sets are known must use positions "
        "of one set on an array of the same set (or one that starts with it). sample_simplex takes "
        "the first column of the positions to be the base point and leaves it out: a neighbour "
        "search handed to it must have the base points among the rows searched and no leading "
        "column cut off. Positions among eigenvalues are positions of columns of the eigenvectors, "
        "the points of a ridge of a Voronoi tessellation are positions in what was tessellated; "
        "nothing is taken from a matrix of neighbours by position without an axis; and the length "
        "of the answer to one query is not used as the number of its neighbours.")
    c.assumptions = ["index operations with sets of unknown relation are not judged"]
    return c.finish({R_GATHER: 150, R_SIMPLEX: 30, R_HEAD: 15})
