"""C31: learned metrics are metrics, and distances and neighbours under them are right."""
import ast
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, is_const, const_value, show
from sa.values import AV, State, NONE, vconst, vnum, vtuple
from sa.units import find_function, arr_arg, method_args
from sa.interp import Interp
from sa.drive import ClassRun, DUMMY
from checks.psd import Psd, GOOD, num
from checks.outputs import label_role

R_PSD = "learned-tensor-is-symmetric-and-positive"
R_DEF = "learned-tensor-is-defined"
R_LEARN = "method-learns-what-its-name-says"
R_OPT = "option-value-is-known-to-the-function"
R_QUAD = "distance-is-the-root-of-the-quadratic-form"
R_BLOCK = "every-row-is-in-one-block"
R_NEAR = "neighbours-are-the-nearest-rows"

FILE = "smote_variants/base/_metrictensor.py"
X, Y, TEN = (T("arg", n) for n in ("X", "Y", "tensor"))
# what has to occur in the tensor, and what may not
METHODS = {
    "ITML": (["metric_learn.ITML_Supervised"], []),
    "LSML": (["metric_learn.LSML_Supervised"], []),
    "NCA": (["metric_learn.NCA"], []),
    "ITML_mi": (["metric_learn.ITML_Supervised", "mutual_info_regression"], []),
    "gmean": (["metric_learn.ITML_Supervised"], []),
    "rf": (["linalg.eigh"], []),
    "cov": (["cov"], []),
    "cov_min": (["cov"], []),
    "MI_weighted": (["mutual_info_regression"], []),
    "id": ([], ["metric_learn.ITML_Supervised", "metric_learn.LSML_Supervised",
                "metric_learn.NCA", "cov", "mutual_info_regression"]),
}
NAMES = {"metric_learn.ITML_Supervised": "ITML", "metric_learn.LSML_Supervised": "LSML",
         "metric_learn.NCA": "NCA", "cov": "the covariance",
         "mutual_info_regression": "the mutual information", "linalg.eigh": "eigenvalues"}


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        todo += list(x.args)
    return seen


def words(t):
    out = set()
    for x in subterms(t):
        for a in x.args:
            if isinstance(a, str):
                out.add(a)
    return out


def where_of(fi):
    return f"{fi.module.path}:{fi.node.lineno} in {fi.qualname}"


# ------------------------------------------------------------------ learning
def learn(prog, name):
    obs = []
    ci = prog.classes["MetricTensor"]
    fi = ci.find("tensor")[1]
    r = ClassRun(prog, ci, preset={"metric_learning_method": vconst(name)})
    it = r.it
    outs = r.call("tensor", [], dict(method_args(prog, ci, "tensor")), phase="tensor")
    need, never = METHODS[name]
    for i, (st, v) in enumerate(outs or []):
        v = it.strip(v)
        key = f"{name}:{i}"
        if v.kind == "none" or v.kind == "any" and v.term.op == "none":
            obs.append(Ob(R_LEARN, key, BAD, where_of(fi), f"no tensor is learned with {name}"))
            continue
        if v.kind not in ("arr", "any"):
            obs.append(Ob(R_PSD, key, UNK, where_of(fi), f"{name}: tensor not understood"))
            continue
        p = Psd()
        m = p.mat(v.term)
        obs.append(Ob(R_PSD, key, OK if m in GOOD else UNK if m is None else BAD, where_of(fi),
                      "" if m in GOOD else f"{name}: " + (
                          "tensor not understood: " + show(v.term, 4)[:200] if m is None else
                          "the tensor is not " + ("symmetric" if m == "asym" else
                                                  "known to be positive semi-definite") +
                          ": distances measured with it can be undefined" +
                          "".join("; " + w for w in p.why))))
        for q in unguarded(p, v.term, st):
            obs.append(Ob(R_DEF, f"{key}:{q.uid}", BAD, where_of(fi),
                          f"{name}: the tensor is divided by {show(q.args[2], 3)[:80]}, which is "
                          "zero when every score is: the distances are undefined"))
        if m in GOOD:
            obs.append(Ob(R_DEF, key, OK, where_of(fi), ""))
        ws = words(v.term)
        has = lambda n: any(w == n or w.endswith("." + n) for w in ws)
        miss = [NAMES[n] for n in need if not has(n)]
        alien = [NAMES[n] for n in never if has(n)]
        others = [n for n in NAMES if n.startswith("metric_learn.") and has(n) and n not in need]
        msg = ""
        if miss:
            msg = f"{name} does not use {' and '.join(miss)}"
            if others:
                msg += f" but {NAMES[others[0]]}"
        elif alien:
            msg = f"{name} uses {' and '.join(alien)}"
        elif others and name != "gmean":
            msg = f"{name} uses {NAMES[others[0]]}"
        obs.append(Ob(R_LEARN, key, BAD if msg else OK, where_of(fi), msg))
        for x in subterms(v.term):
            if x.op == "fit" and len(x.args) >= 4:
                ok = paired(x.args[2], x.args[3])
                if ok is not None:
                    obs.append(Ob(R_LEARN, f"{key}:pairs:{x.uid}", OK if ok else BAD, where_of(fi),
                                  "" if ok else f"{name}: the rows and the labels the metric is "
                                  "learned from do not belong together"))
            if name == "cov_min" and x.op == "call" and x.args[0] in ("cov", "numpy.cov"):
                role = class_of(x.args[1])
                if role:
                    obs.append(Ob(R_LEARN, f"{key}:class:{x.uid}", OK if role == "min" else BAD,
                                  where_of(fi), "" if role == "min" else
                                  f"cov_min uses the covariance of the {role}ority samples"))
    if not outs:
        obs.append(Ob(R_PSD, name, UNK, where_of(fi), f"{name}: not analysed"))
    return obs, {"methods": 1}


STRICT = {"diag", "u", "dot", "matmul", "rows", "list", "red", "copy", "T", "setitem", "idx",
          "call"}


def unguarded(p, root, st):
    """quotients by a sum of scores that can all be zero, not tested before"""
    out, seen, todo = [], set(), [(root, ())]
    pcs = set()
    for c in st.pc or ():
        for x in c if isinstance(c, tuple) else (c,):
            if isinstance(x, Term):
                pcs |= subterms(x)
    while todo:
        t, conds = todo.pop()
        if not isinstance(t, Term) or t in seen:
            continue
        seen.add(t)
        if t.op == "phi":
            todo += [(x, conds + (t.args[0],)) for x in t.args[1:]]
            continue
        if t.op not in STRICT or t.op == "call" and not str(t.args[0]).endswith("linalg.inv"):
            continue
        if t.op == "u" and t.args[0] not in ("/", "*", "sqrt", "neg"):
            continue
        if t.op == "u" and t.args[0] == "/" and len(t.args) == 3:
            d = t.args[2]
            b = d
            while isinstance(b, Term) and b.op in ("copy", "astype"):
                b = b.args[0]
            if isinstance(b, Term) and b.op == "red" and b.args[0] in ("sum", "mean", "max") and \
                    p.vec(b) == "nonneg":
                v = b.args[1]
                near = set(pcs)
                for c in conds:
                    if isinstance(c, Term):
                        near |= subterms(c)
                if v not in near and b not in near and t not in near:
                    out.append(t)
        todo += [(x, conds) for x in t.args if isinstance(x, Term)]
    return out


def class_of(t):
    while isinstance(t, Term) and t.op in ("T", "copy", "astype"):
        t = t.args[0]
    if isinstance(t, Term) and t.op == "idx" and isinstance(t.args[1], Term):
        m = t.args[1]
        pol = True
        while m.op == "not":
            m, pol = m.args[0], not pol
        if m.op == "eq":
            for x in m.args:
                r = label_role(x) if isinstance(x, Term) else None
                if r in ("min", "maj"):
                    return r if pol else "maj" if r == "min" else "min"
    return None


AX = T("arg", "X")
AY = T("arg", "y")


def paired(a, b):
    """whether rows and labels given to a learner belong together; None when not known"""
    if not (isinstance(a, Term) and isinstance(b, Term)):
        return None
    while a.op in ("copy", "astype"):
        a = a.args[0]
    while b.op in ("copy", "astype"):
        b = b.args[0]
    if a is AX:
        return True if b is AY else False if b.op == "idx" and b.args[0] is AY else None
    if a.op == "unique":
        if b is AY:
            return False
        if b.op == "idx" and b.args[0] is AY and b.args[1].op == "uidx":
            return b.args[1].args[0] is a.args[0]
        return None
    if a.op == "idx" and a.args[0] is AX and b.op == "idx" and b.args[0] is AY:
        return a.args[1] is b.args[1] or None
    return None


# ------------------------------------------------------------------ options
def branch_consts(test):
    """[(attribute or name as text, constants)] of a test x == c or x in (c, ...)"""
    out = []
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        l, r = test.left, test.comparators[0]
        if isinstance(test.ops[0], ast.Eq):
            for a, b in ((l, r), (r, l)):
                if isinstance(b, ast.Constant) and isinstance(b.value, str):
                    out.append((ast.unparse(a), {b.value}))
        if isinstance(test.ops[0], ast.In) and isinstance(r, (ast.List, ast.Tuple, ast.Set)):
            vs = [x.value for x in r.elts if isinstance(x, ast.Constant)]
            if len(vs) == len(r.elts) and all(isinstance(v, str) for v in vs):
                out.append((ast.unparse(l), set(vs)))
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
        for v in test.values:
            out += branch_consts(v)
    return out


def option_params(fn):
    """{parameter: the values it is compared to} for parameters that are only compared"""
    a = fn.args
    ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    dfl = {}
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        dfl[x.arg] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            dfl[x.arg] = d
    vals, used = {}, {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in ps:
            used[n.id] = used.get(n.id, 0) + 1
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            if isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                for x, c in ((l, r), (r, l)):
                    if isinstance(x, ast.Name) and x.id in ps and isinstance(c, ast.Constant) \
                            and isinstance(c.value, str):
                        vals.setdefault(x.id, []).append({c.value})
            elif isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(l, ast.Name) and \
                    l.id in ps and isinstance(r, (ast.List, ast.Tuple, ast.Set)):
                vs = {c.value for c in r.elts if isinstance(c, ast.Constant)}
                if len(vs) == len(r.elts):
                    vals.setdefault(l.id, []).append(vs)
    out = {}
    for p, vs in vals.items():
        if used[p] != len(vs):
            continue            # the value is used for something else, too
        ok = set().union(*vs)
        d = dfl.get(p)
        if isinstance(d, ast.Constant) and isinstance(d.value, str):
            ok.add(d.value)
        if all(isinstance(v, str) for v in ok) and len(ok) > 1:
            out[p] = ok
    return out


def options(prog):
    obs = []
    fns = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                o = option_params(n)
                fns.setdefault(n.name, []).append((n, o))
    fns = {k: v[0] for k, v in fns.items() if len(v) == 1 and v[0][1] and k != "__init__"}
    for m in prog.modules.values():
        walk(m, m.tree, {}, fns, obs)
    return obs, {"functions_with_options": len(fns)}


def walk(m, node, facts, fns, obs):
    if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
        facts = {}
    if isinstance(node, ast.If):
        walk(m, node.test, facts, fns, obs)
        f = {**facts, **dict(branch_consts(node.test))}
        for x in node.body:
            walk(m, x, f, fns, obs)
        for x in node.orelse:
            walk(m, x, facts, fns, obs)
        return
    if isinstance(node, ast.Call):
        name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(
            node.func, "id", None)
        if name in fns:
            fn, opts = fns[name]
            ps = [x.arg for x in fn.args.posonlyargs + fn.args.args]
            if ps[:1] in (["self"], ["cls"]):
                ps = ps[1:]
            given = dict(zip(ps, node.args))
            given.update({k.arg: k.value for k in node.keywords if k.arg})
            for p, ok in opts.items():
                e = given.get(p)
                if e is None:
                    continue
                vs = {e.value} if isinstance(e, ast.Constant) and isinstance(e.value, str) else \
                    facts.get(ast.unparse(e))
                if vs is None:
                    continue
                wrong = sorted(v for v in vs if v not in ok)
                obs.append(Ob(R_OPT, f"{m.path}:{name}:{p}:{node.lineno}:{node.col_offset}",
                              BAD if wrong else OK, f"{m.path}:{node.lineno}",
                              "" if not wrong else f"{name} is called with {p}={wrong[0]!r}, which "
                              f"it does not distinguish from other values (it knows "
                              f"{', '.join(sorted(ok))})"))
    for x in ast.iter_child_nodes(node):
        walk(m, x, facts, fns, obs)


# ---------------------------------------------------------------- distances
def A(n, nd=2):
    return arr_arg(n, nd)


def strip_copy(t):
    while isinstance(t, Term) and t.op in ("copy", "astype", "arrof", "asarray"):
        t = t.args[0]
    return t


def difference(t, pairwise):
    """whether t holds the differences of the rows of X and Y"""
    t = strip_copy(t)
    if not (isinstance(t, Term) and t.op == "u" and t.args[0] == "-" and len(t.args) == 3):
        return None
    a, b = (strip_copy(x) for x in t.args[1:])
    if not pairwise:
        return {a, b} == {X, Y}

    def role(x):
        if x is Y:
            return "y"
        if x is X:
            return "x0"
        ax = None
        if x.op in ("nax", "nax0", "gidx") and len(x.args) > 1:
            b = strip_copy(x.args[0])
            ax = num(x.args[1])
            if ax is None and x.op != "nax" and isinstance(x.args[1], Term) and \
                    x.args[1].op == "tuple":
                ks = [None if isinstance(k_, Term) and k_.op == "none" else
                      1 if isinstance(k_, Term) and k_.op == "slice" and
                      all(whole(z) for z in k_.args) else 2 for k_ in x.args[1].args]
                if ks.count(None) == 1 and 2 not in ks:
                    ax = ks.index(None)
            if b is X and ax == 1:
                return "x"
            if b is Y and ax == 0:
                return "y"
            if b is Y and ax == 1:
                return "y1"
            if b is X and ax == 0:
                return "x0"
        return None
    rs = {role(a), role(b)}
    if None in rs:
        return None
    return rs == {"x", "y"}


def tensor_of(t, given):
    """True: the tensor asked for; "unit": the identity"""
    t = strip_copy(t)
    if t is TEN:
        return True if given else None
    if t.op in ("eye", "identity"):
        return not given or "unit"
    if t.op == "phi":
        rs = [tensor_of(x, given) for x in t.args[1:]]
        if None in rs:
            return None
        if False in rs:
            return False
        if "unit" in rs:
            return guarded(t.args[0])
        return True
    return None


def is_unit_test(c):
    c = strip_copy(c)
    if not isinstance(c, Term):
        return False
    if c.op == "call" and c.args[0] in ("allclose", "array_equal") and TEN in c.args:
        return any(isinstance(x, Term) and x.op in ("eye", "identity") for x in c.args)
    if c.op == "red" and c.args[0] == "all":
        return bool(subterms(c) & {TEN}) and any(x.op in ("eye", "identity") for x in subterms(c))
    return False


def guarded(key):
    if isinstance(key, Term) and key.op == "if" and is_unit_test(key.args[0]):
        return True
    return None


def spec(s, nout):
    """(difference letters, tensor letters, difference letters) contracted as a quadratic form"""
    s = s.replace(" ", "")
    if "->" not in s:
        return None
    ins, out = s.split("->")
    ops = ins.split(",")
    if len(ops) != 3 or "." in s:
        return None
    ten = [i for i, o in enumerate(ops) if len(o) == 2 and not set(o) & set(out)]
    if len(ten) != 1:
        ten = [1]
    k = ten[0]
    a, b = [ops[i] for i in range(3) if i != k]
    t = ops[k]
    ok = len(t) == 2 and t[0] != t[1] and len(out) == nout and a[:-1] == out and b[:-1] == out \
        and {a[-1], b[-1]} == set(t) and not set(t) & set(out) and len(set(out)) == nout
    return k, ok


def quadratic(t, pairwise, given, facts):
    """verdict and reason for a returned matrix (vector) of distances"""
    t = strip_copy(t)
    nout = 2 if pairwise else 1
    if t.op == "call" and str(t.args[0]).endswith(("linalg.norm", "cdist")):
        if t.args[0].endswith("cdist"):
            if len(t.args) != 3 or not pairwise:
                return None, "not understood: " + show(t, 3)[:150]
            d = {strip_copy(x) for x in t.args[1:]} == {X, Y}
        else:
            if len(t.args) != 3 or num(t.args[2]) not in (-1, nout):
                return None, "not understood: " + show(t, 3)[:150]
            d = difference(t.args[1], pairwise)
        if d is None:
            return None, "not understood: " + show(t, 3)[:150]
        if not d:
            return False, "the differences are not those of the rows"
        if given and not facts:
            return False, "the tensor asked for is not used"
        return True, ""
    if t.op == "u" and t.args[0] == "**" and num(t.args[2]) == 0.5:
        e = t.args[1]
    elif t.op == "u" and t.args[0] == "sqrt":
        e = t.args[1]
    elif t.op == "call" and t.args[0] == "einsum" or t.op == "red":
        return False, "the root is not taken"
    else:
        return None, "not understood: " + show(t, 3)[:150]
    e = strip_copy(e)
    while e.op == "u" and e.args[0] in ("maximum", "abs") or e.op == "max":
        xs = [x for x in e.args if isinstance(x, Term) and not is_const(x)]
        if len(xs) != 1:
            return None, "not understood: " + show(e, 3)[:150]
        e = strip_copy(xs[0])
    if e.op == "call" and e.args[0] == "einsum":
        sp = e.args[1]
        if isinstance(sp, Term) and is_const(sp):
            sp = const_value(sp)
        r = spec(sp, nout) if isinstance(sp, str) else None
        if r is None:
            return None, "not understood: " + show(e, 3)[:150]
        k, ok = r
        ops = list(e.args[2:5])
        ten = ops.pop(k)
        ds = [difference(x, pairwise) for x in ops]
        tt = tensor_of(ten, given)
        if None in ds or tt is None:
            return None, "not understood: " + show(e, 3)[:150]
        if not ok:
            return False, f"'{sp}' is not the quadratic form of the differences"
        if False in ds:
            return False, "the factors are not the differences of the rows"
        if tt == "unit" and not facts:
            return False, "the tensor is replaced by the identity"
        return True, ""
    if e.op == "red" and e.args[0] == "sum":
        ax = num(e.args[2]) if len(e.args) > 2 else None
        b = strip_copy(e.args[1])
        sq = None
        if b.op == "u" and b.args[0] == "**" and num(b.args[2]) is not None:
            sq = b.args[1]
            if num(b.args[2]) != 2:
                return False, "the differences are not squared"
        elif b.op == "u" and b.args[0] == "square":
            sq = b.args[1]
        elif b.op == "u" and b.args[0] == "*" and len(b.args) == 3 and b.args[1] is b.args[2]:
            sq = b.args[1]
        def applied(x):
            x = strip_copy(x)
            if isinstance(x, Term) and x.op in ("dot", "matmul") and len(x.args) == 2:
                return difference(x.args[0], pairwise), tensor_of(x.args[1], given)
            return None, None
        if sq is not None and applied(sq)[1] is True and applied(sq)[0]:
            return False, "the tensor is applied to both factors"
        if sq is None and b.op == "u" and b.args[0] == "*" and len(b.args) == 3:
            for p_, q_ in (b.args[1:], b.args[:0:-1]):
                d, tt = applied(p_)
                d2 = difference(q_, pairwise)
                if d is None or tt is None or d2 is None:
                    continue
                if not (d and d2):
                    return False, "the factors are not the differences of the rows"
                if ax not in (-1, nout):
                    return False, "the products are not summed over the features"
                if tt == "unit" and not facts:
                    return False, "the tensor is replaced by the identity"
                return True, ""
        if sq is None:
            return None, "not understood: " + show(e, 3)[:150]
        d = difference(sq, pairwise)
        if d is None:
            return None, "not understood: " + show(e, 3)[:150]
        if not d:
            return False, "the differences are not those of the rows"
        if ax not in (-1, nout):
            return False, "the squares are not summed over the features"
        if given and not facts:
            return False, "the tensor asked for is not used"
        return True, ""
    return None, "not understood: " + show(e, 3)[:150]


def unit_fact(it, st):
    """whether the path has been taken for a unit tensor"""
    for f in st.pc:
        c, pol = f[0], f[1] if len(f) > 1 else True
        if isinstance(c, Term):
            while c.op == "not":
                c, pol = c.args[0], not pol
            if is_unit_test(c):
                return pol
            if c.op in ("or", "bor") and pol:
                xs = [x for x in c.args if isinstance(x, Term)]
                if xs and all(is_unit_test(x) or x.op == "isnone" for x in xs):
                    return True
    return False


def distances(prog, job):
    fname, given, opt = job
    obs = []
    fi = find_function(prog, fname)
    if fi is None:
        return obs, {}
    pairwise = fname.startswith("pairwise")
    it = Interp(prog, budget_s=100)
    st = State()
    it.phase = "call"
    kw = {"X": A("X"), "Y": A("Y"), "tensor": A("tensor") if given else NONE}
    if pairwise and opt is not None:
        kw["optimized"] = vconst(opt)
    inner = []

    def again(it_, f, args, kwargs, rest, st_, node):
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        ar = {**dict(zip(names, args)), **kwargs}
        if not any(fr[0].fi is f for fr in it_.stack if fr[0].fi is not None) and not it_.stack:
            return None
        inner.append((node, {k: it_.strip(v) for k, v in ar.items()}, st_.copy()))
        return AV("arr", T("block", it_.strip(ar["X"]).term), frozenset([it_.newloc(node, "b")]),
                  None, 2, it_.ln(it_.strip(ar["X"])))

    if pairwise:
        it.func_override[fname] = again
    outs = it.call_func(fi, [], kw, [], st, DUMMY)
    tag = f"{fname}:{'tensor' if given else 'none'}:{opt}"
    where = where_of(fi)
    for i, (s, v) in enumerate(outs or []):
        v = it.strip(v)
        if v.kind not in ("arr", "any"):
            continue
        if any(x.op == "block" or x.op == "lphi" for x in subterms(v.term)):
            continue
        alts = list(v.term.args[1:]) if v.term.op == "phi" else [v.term]
        for j, t in enumerate(alts):
            ok, why = quadratic(t, pairwise, given, unit_fact(it, s))
            obs.append(Ob(R_QUAD, f"{tag}:{i}:{j}", UNK if ok is None else OK if ok else BAD, where,
                          "" if ok else f"{fname}: {why}"))
    for node, a, s in inner:
        blocks(it, obs, f"{tag}:{node.lineno}", f"{fi.module.path}:{node.lineno} in {fname}", a,
               given, opt, s)
    return obs, {"distance_variants": 1}


def floored(b, n):
    """whether a number of blocks is the number of rows divided and rounded down"""
    if not isinstance(b, Term):
        return False
    while b.op == "int" or b.op == "u" and b.args[0] in ("floor", "//", "/"):
        if b.op == "u" and b.args[0] in ("//", "/"):
            return b.args[1] is n
        b = b.args[0] if b.op == "int" else b.args[1]
        if not isinstance(b, Term):
            return False
    return b.op in ("b//", "floordiv", "div", "b/") and b.args[0] is n


def blocks(it, obs, key, where, a, given, opt, st):
    def put(k, ok, why):
        obs.append(Ob(R_BLOCK, f"{key}:{k}", UNK if ok is None else OK if ok else BAD, where,
                      "" if ok else why))
    y = a.get("Y")
    put("Y", y is not None and strip_copy(y.term) is Y if y is not None and y.kind == "arr"
        else False if y is None or y.kind == "none" else None,
        "a block of rows is not compared to all rows of the other array")
    t = a.get("tensor")
    if given:
        put("tensor", t is not None and strip_copy(t.term) is TEN if t is None or t.kind != "any"
            else None, "the tensor is not handed on to the blocks")
    elif t is not None and t.kind == "none":
        put("tensor", True, "")
    if opt is not None:
        o = a.get("optimized")
        put("optimized", None if o is not None and not o.is_const else
            (o.value if o is not None else True) == opt or given is False,
            "the blocks are computed in another way")
    x = strip_copy(a["X"].term)
    if x.op == "slc" and isinstance(x.args[1], Term):
        for t_ in subterms(x.args[1]):
            if t_.op == "it" and t_.args and t_.args[0] in it.range_of and \
                    x.args[1].op == "mul" and t_ in x.args[1].args:
                a0, b0 = it.range_of[t_.args[0]]
                if floored(b0, T("len", X)) and num(a0) == 0:
                    put("end", False, "the rows after the last full block are left out")
                    return
    if x.op != "slc":
        put("rows", None, "block not understood: " + show(x, 3)[:150])
        return
    if strip_copy(x.args[0]) is not X:
        put("rows", False, "the blocks are not taken from the first array")
        return
    lo, hi = x.args[1], x.args[2]
    from sa.terms import lin_parts
    n = T("len", X)
    for c_ in (hi.args if isinstance(hi, Term) and hi.op == "min" else ()):
        c, l = lin_parts(c_) if isinstance(c_, Term) else (0, {})
        if l == {n: 1} and c < 0:
            put("cap", False, "the last block ends before the last row")
    if isinstance(lo, Term) and lo.op == "stepit" and len(lo.args) == 2:
        step = lo.args[1]
        ok = None
        for c_ in [hi] + (list(hi.args) if isinstance(hi, Term) and hi.op == "min" else []):
            c, l = lin_parts(c_) if isinstance(c_, Term) else (0, {})
            sc, sl = lin_parts(step) if isinstance(step, Term) else (step, {})
            want = dict(sl)
            want[lo] = want.get(lo, 0) + 1
            if l == want:
                ok = c == sc
        put("step", ok, "step not understood" if ok is None else
            "neighbouring blocks overlap or leave rows out")
        rng = it.range_of.get(lo.args[0].args[0]) if lo.args[0].args else None
        if rng is not None:
            a0, b0 = rng
            if a0 is not None:
                put("start", num(a0) == 0 if num(a0) is not None else None,
                    "the first block does not start at the first row")
            if b0 is not None:
                c, l = lin_parts(b0) if isinstance(b0, Term) else (b0, {})
                put("end", True if l == {n: 1} and c == 0 else False if l.get(n) == 1 and
                    (c < 0 and len(l) == 1 or any(v < 0 for v in l.values())) else None,
                    "the blocks end before the last row" if l.get(n) == 1 else
                    "end not understood")
        return
    if whole(lo) or num(lo) is not None:
        put("start", whole(lo) or num(lo) == 0, "the first block does not start at the first row")
        return
    defs = [d.term for d in it.phi_def.get(lo, ())] if isinstance(lo, Term) else []
    for f in st.pc:
        c_ = f[0] if isinstance(f, tuple) else f
        if isinstance(c_, Term) and c_.op in ("lt", "le") and c_.args[0] is lo and \
                (f[1] if isinstance(f, tuple) and len(f) > 1 else True) is True:
            c, l = lin_parts(c_.args[1]) if isinstance(c_.args[1], Term) else (0, {})
            if l == {n: 1} and (c < 0 and c_.op == "lt" or c < -1):
                put("end", False, "the blocks end before the last row")
    if lo.op == "lphi" and lo.args and lo.args[0] in it.range_of:
        a0, b0 = it.range_of[lo.args[0]]
        f = floored(b0, n)
        if f and num(a0) == 0:
            put("end", False, "the rows after the last full block are left out")
    if lo.op == "lphi" and defs:
        init = [d for d in defs if lo not in subterms(d)]
        step = [d for d in defs if lo in subterms(d)]
        put("start", all(num(d) == 0 for d in init) if init else None,
            "the first block does not start at the first row")
        for d in step:
            hx = hi
            cands = [hx] + (list(hx.args) if isinstance(hx, Term) and hx.op == "min" else [])
            if d is hx or any(c is d for c in cands):
                put("step", True, "")
                continue
            c, l = lin_parts(d)
            grow = [x for x in l if x is not lo]
            if len(grow) == 1 and c == 0 and grow[0].op == "int" and \
                    isinstance(grow[0].args[0], Term) and (
                        grow[0].args[0].op in ("div", "floordiv") or grow[0].args[0].op == "u" and
                        grow[0].args[0].args[0] in ("floor", "/", "//")):
                put("size", False, "the size of the blocks can be zero: the loop does not end")
            hs = [lin_parts(c_) for c_ in cands if isinstance(c_, Term) and lo in subterms(c_)]
            if l.get(lo) == 1 and any(
                    {k: v for k, v in h[1].items()} == l and h[0] != c for h in hs):
                put("step", False, "neighbouring blocks overlap or leave rows out")
            elif hs and l.get(lo) == 1 and all(h[1] != l for h in hs):
                put("step", False, "the next block does not start where the last one ends")
            else:
                put("step", None, "step not understood")
        return
    put("rows", None, "block not understood: " + show(x, 3)[:150])


# --------------------------------------------------------------- neighbours
def argsorted(t):
    """the matrix whose rows an array of positions orders ascending: (matrix, sign) or None"""
    t = strip_copy(t)
    c = t.args[0] if t.op == "call" else None
    m = None
    if c == "apply_along_axis" and len(t.args) == 4:
        f, ax, arr = t.args[1:]
        if isinstance(f, Term) and f.op == "mod" and f.args[0].endswith("argsort") and num(ax) == 1:
            m = arr
        elif isinstance(f, Term) and f.op == "mod" and f.args[0].endswith("argsort"):
            return "axis"
    elif (c == "argsort" or t.op == "argsort") and t.args:
        xs = t.args[1:] if c else t.args
        ax = num(xs[1]) if len(xs) > 1 and num(xs[1]) is not None else -1
        if ax == 0:
            return "axis"
        m = xs[0]
    if not isinstance(m, Term):
        return None
    m = strip_copy(m)
    if m.op == "u" and m.args[0] == "neg" or m.op == "u" and m.args[0] == "-" and len(m.args) == 2:
        return strip_copy(m.args[1]), -1
    if m.op == "mul" and any(num(x) == -1 for x in m.args):
        return m, -1
    return m, 1


def nearest(prog, job):
    obs = []
    ci = prog.classes["NearestNeighborsWithMetricTensor"]
    dist = T("dist", X, Y)
    given = []

    def pd(it_, f, args, kwargs, rest, st, node):
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        ar = {**dict(zip(names, args)), **kwargs}
        x = it_.strip(ar["X"])
        y = it_.strip(ar["Y"]) if "Y" in ar else x
        y = x if y.kind == "none" else y
        given.append((node, it_.strip(ar["tensor"]) if "tensor" in ar else None))
        return AV("arr", T("dist", strip_copy(x.term), strip_copy(y.term)),
                  frozenset([it_.newloc(node, "d")]), None, 2, it_.ln(x))

    r = ClassRun(prog, ci, preset={"metric": vconst("precomputed"), "metric_tensor": A("tensor")})
    it = r.it
    it.func_override["pairwise_distances_mahalanobis"] = pd
    r.call("fit", [A("Y")], {}, phase="fit")
    kw = {"return_distance": vconst(True)}
    if job == "kneighbors":
        kw["n_neighbors"] = vnum(T("arg", "k"))
    else:
        kw["radius"] = vnum(T("arg", "r"))
    outs = r.call(job, [A("X")], kw, phase=job)
    fi = ci.find(job)[1]
    where = where_of(fi)

    def put(k, ok, why):
        obs.append(Ob(R_NEAR, f"{job}:{k}", UNK if ok is None else OK if ok else BAD, where,
                      "" if ok else why))
    for node, t in given:
        u = None if t is None or t.kind == "none" else strip_copy(t.term)
        ok = False if u is None or u.op in ("eye", "identity") else True if u is TEN else None
        put(f"tensor:{node.lineno}", ok, "the distances are not measured with the tensor"
            if ok is False else "tensor not understood: " + show(u, 3)[:120] if u is not None else "")
    for i, (s, v) in enumerate(outs or []):
        v = it.strip(v)
        if v.kind != "tuple" or len(v.data) != 2:
            put(f"{i}:shape", None if v.kind not in ("arr",) else False,
                "the distances are not returned with the positions")
            continue
        d, ind = (strip_copy(it.strip(x).term) for x in v.data)
        (knn if job == "kneighbors" else radius)(it, put, i, d, ind, dist)
    return obs, {"queries": 1}


def whole(x):
    return x is None or isinstance(x, Term) and (x.op == "none" or is_const(x) and
                                                 const_value(x) in (None,))


def knn(it, put, i, d, ind, dist):
    k = T("arg", "k")
    if ind.op in ("gidx", "idx") and ind.args[0] is dist:
        put(f"{i}:positions", False, "distances are returned in the place of positions")
        return
    if ind.op in ("item", "cols") and isinstance(ind.args[0], Term) and \
            ind.args[0].op == "call" and ind.args[0].args[0] == "argpartition":
        put(f"{i}:positions", False, "the nearest rows are not ordered by distance")
        return
    if ind.op == "gidx" and len(ind.args) == 2 or argsorted(ind) or ind.op == "slc":
        if argsorted(ind):
            put(f"{i}:count", False, "not the first n_neighbors positions are returned")
            return
    if ind.op != "cols" or not isinstance(ind.args[1], Term) or ind.args[1].op != "slice":
        put(f"{i}:positions", None, "positions not understood: " + show(ind, 4)[:150])
        return
    lo, hi, step = (list(ind.args[1].args) + [None])[:3]
    o = argsorted(ind.args[0])
    if o is None:
        put(f"{i}:positions", None, "positions not understood: " + show(ind, 4)[:150])
        return
    if o == "axis":
        put(f"{i}:positions", False, "the distances are not ordered row by row")
        return
    m, sign = o
    if m is not dist:
        known = m.op == "dist" or m.op == "T"
        put(f"{i}:positions", False if known else None,
            "the positions do not order the distances of the queried rows to the fitted ones: " +
            show(m, 3)[:120])
        return
    put(f"{i}:positions", sign > 0, "the farthest rows are returned")
    put(f"{i}:count", (whole(lo) or num(lo) == 0) and hi is k and (whole(step) or num(step) == 1),
        "not the first n_neighbors positions are returned")
    got = d
    if got.op == "gidx" and got.args[0] is dist and isinstance(got.args[1], Term) and \
            got.args[1].op == "tuple" and len(got.args[1].args) == 2:
        rr, cc = (strip_copy(x) for x in got.args[1].args)
        rows = rr.op == "nax" and rr.args[0].op == "arange"
        put(f"{i}:distances", True if rows and cc is ind else False if rows and cc is not ind and
            cc.op == "cols" else None, "the distances are not those of the returned positions")
    elif got.op == "call" and got.args[0] == "take_along_axis":
        put(f"{i}:distances", got.args[1] is dist and got.args[2] is ind or None,
            "distances not understood")
    elif got.op in ("dist", "T") or got.op == "cols" and got.args[0] is dist:
        put(f"{i}:distances", False, "the distances are not ordered as the positions")
    else:
        put(f"{i}:distances", None, "distances not understood: " + show(got, 3)[:120])


def appended(it, t):
    while isinstance(t, Term):
        found = list(it.elem_of.get(t, ())) or list(it.elem_of.get(T("lelem", t), ()))
        if found:
            return found
        if t.op == "seq" and len(t.args) == 2:
            return [t.args[1]]
        if t.op == "comp":
            return [t.args[0]]
        if t.op not in ("rows", "arrof", "copy", "flat") or not t.args:
            break
        t = t.args[0]
    return []


def radius(it, put, i, d, ind, dist):
    r = T("arg", "r")
    masks = []
    for e in appended(it, ind):
        e = strip_copy(e)
        if e.op in ("idx", "gidx") and isinstance(e.args[0], Term) and (
                e.args[0] is dist or e.args[0].op == "row" and e.args[0].args[0] is dist):
            put(f"{i}:positions", False, "distances are returned in the place of positions")
            return
        while e.op in ("row", "item", "rowsof") and isinstance(e.args[0], Term) and \
                e.args[0].op in ("where", "nonzero", "flatnonzero"):
            e = e.args[0]
        m = e.args[-1] if e.op in ("where", "nonzero", "flatnonzero", "rowsof") else None
        if m is not None:
            masks.append(m)
    if not masks:
        put(f"{i}:positions", None, "positions not understood: " +
            "; ".join(show(x, 4)[:100] for x in appended(it, ind)))
        return
    for m in masks:
        pol = True
        while isinstance(m, Term) and m.op == "not":
            m, pol = m.args[0], not pol
        ok = None
        if isinstance(m, Term) and m.op in ("le", "lt", "ge", "gt") and r in m.args:
            near = (m.args[1] is r) == (m.op in ("le", "lt")) and True
            if m.args[0] is r:
                near = m.op in ("ge", "gt")
            else:
                near = m.op in ("le", "lt")
            ok = near == pol
            other = m.args[0] if m.args[1] is r else m.args[1]
            if isinstance(other, Term) and other.op in ("row", "item") and \
                    other.args[0] is dist:
                pass
            elif dist not in subterms(other):
                ok = None if not any(x.op == "dist" for x in subterms(other)) else False
        elif isinstance(m, Term) and m.op in ("le", "lt", "ge", "gt") and any(
                isinstance(x, Term) and x.op in ("row", "item") and x.args[0] is dist
                for x in m.args) and any(isinstance(x, Term) and (
                    x.op in ("b**", "pow") or x.op == "u" and x.args[0] in ("**", "sqrt")) and
                    r in x.args for x in m.args):
            ok = False
        put(f"{i}:positions", ok, "the rows within the radius are not those that are returned"
            if ok is False else "mask not understood: " + show(m, 3)[:120])
        for e in appended(it, d):
            e = strip_copy(e)
            if e.op in ("where", "nonzero", "flatnonzero"):
                put(f"{i}:distances", False, "positions are returned in the place of distances")
            if e.op in ("idx", "gidx") and isinstance(e.args[0], Term):
                b = dist in subterms(e.args[0])
                put(f"{i}:distances", True if b else None, "distances not understood")


def unit(prog, job):
    kind, arg = job
    return {"learn": learn, "opt": lambda p, a: options(p), "dist": distances,
            "near": nearest}[kind](prog, arg)


def main(tier):
    c = Check("C31", tier)
    jobs = [("learn", m) for m in METHODS] + [("opt", None)] + \
        [("dist", (f, g, o)) for f, os in (("pairwise_distances_mahalanobis", (True, False)),
                                           ("distances_mahalanobis", (None,)))
         for o in os for g in (True, False)] + \
        [("near", m) for m in ("kneighbors", "radius_neighbors")]
    c.run_units(unit, jobs)
    c.explanation = (
        "Definiteness inference over the symbolic tensor every metric learning method yields "
        "(checks/psd.py: contracts of the learners, congruences, eigenvalue clipping, sums, "
        "products, inverses); the learners and data that occur in the tensor against the name of "
        "the method; options passed to functions that only compare them; distances as roots of "
        "quadratic forms of row differences (index structure of the contraction), blocks of rows "
        "as an exact cover, and neighbours as the leading positions of the ascending order.")
    c.assumptions = ["get_mahalanobis_matrix of metric_learn returns positive semi-definite "
                     "matrices; np.cov gives more than one feature"]
    return c.finish({R_PSD: 8, R_LEARN: 8, R_QUAD: 4, R_NEAR: 2})
