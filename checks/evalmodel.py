"""Harness for the evaluation modules: datasets, folds, scalers, oversamplers and classifiers are
symbolic; estimators are replaced by their contract (a typestate of what they were fitted on)."""
from sa.terms import T, Term, const
from sa.values import AV, HDict, HExt, HObj, NONE, EMPTY, vany, vconst, vnum, vstr, vtuple
from sa.drive import ClassRun, DUMMY


def fold_arrays(pre="f"):
    """symbolic arrays of one fold"""
    out = {}
    for k, nd in (("X_train", 2), ("y_train", 1), ("X_test", 2), ("y_test", 1)):
        n = T("len", T("arg", pre, k.replace("y_", "X_")))
        out[k] = AV("arr", T("arg", pre, k), frozenset([("arg", pre + k)]), nd=nd, ln=n)
    return out


def descriptor(pre="f"):
    return vany(T("arg", pre, "descriptor"), frozenset([("arg", pre + "desc")]))


def spec(pre):
    """(module, class name, parameters) of an estimator"""
    return vtuple([vstr(T("arg", pre, "module")), vstr(T("arg", pre, "class")),
                   vany(T("arg", pre, "params"), frozenset([("arg", pre + "params")]))])


def made_state(st, b):
    if b.kind == "any" and isinstance(b.data, tuple) and b.data[0] == "made":
        h = st.heap.get(b.data[1])
        if isinstance(h, HExt):
            return h.state
    return None


def root(s):
    """the object as constructed; after a merge of paths: of either path"""
    while isinstance(s, Term) and s.op != "new":
        s = s.args[1] if s.op == "phi" and len(s.args) > 1 else s.args[0] if s.args else None
    return s if isinstance(s, Term) else None


def arr2(it, t, node, n, nd=2):
    return AV("arr", t, frozenset([it.newloc(node, "m%d" % t.uid)]), None, nd, n)


def getarg(args, kwargs, i, *names):
    if i < len(args):
        return args[i]
    for n in names:
        if n in kwargs:
            return kwargs[n]
    return None


def newobj(it, spec_term, st, node):
    loc = it.newloc(node, "made")
    s = T("new", spec_term, it.site(node))
    st.heap[loc] = HExt("made", s)
    return AV("any", T("made", spec_term, it.site(node)), frozenset([loc]), ("made", loc))


def spec_of(it, v, st):
    v = it.strip(v)
    if v.kind == "list":
        h = it.list_h(v, st)
        if h.items is not None:
            v = vtuple(h.items)
    return v.term


def install(it):
    """contracts of the estimators"""
    log = []

    def inst(it, fi, args, kwargs, rest, st, node):
        d = getarg(args, kwargs, 0, "description")
        if d is None:
            return None
        return newobj(it, spec_of(it, d, st), st, node)

    def method(name):
        def f(it, b, args, kwargs, rest, st, node):
            s = made_state(st, b)
            if s is None:
                return None
            args = [it.strip(a) for a in args]
            kwargs = {k: it.strip(v) for k, v in kwargs.items()}
            loc = b.data[1]
            x = getarg(args, kwargs, 0, "X")
            y = getarg(args, kwargs, 1, "y")
            n = it.ln(x) if x is not None and x.kind == "arr" else None
            base = root(s)
            if base is None:
                return None
            if name in ("fit", "fit_transform", "fit_resample", "sample", "partial_fit"):
                if x is None:
                    return None
                op = "sampled" if name in ("sample", "fit_resample") else "fitted"
                keep = s if name == "partial_fit" or op == "sampled" and False else base
                ns = T(op, keep, x.term, y.term if y is not None else const(None))
                st.heap[loc] = HExt("made", ns)
                log.append((name, ns, st.pc))
                if name in ("fit", "partial_fit"):
                    return b
                if name == "fit_transform":
                    return arr2(it, T("tr", ns, x.term), node, n)
                m = T("len", T("sx", ns))
                return vtuple([arr2(it, T("sx", ns), node, m), arr2(it, T("sy", ns), node, m, 1)])
            if name == "get_params":
                return it.mk_dict({}, st, node, ver=T("params", base))
            if x is None:
                return None
            if name == "transform":
                return arr2(it, T("tr", s, x.term), node, n)
            if name == "preprocessing_transform":
                return arr2(it, T("pp", s, x.term), node, n)
            if name == "predict_proba":
                return arr2(it, T("proba", s, x.term), node, n)
            if name == "predict":
                return arr2(it, T("pred", s, x.term), node, n, 1)
            return None
        return f
    it.func_override["instantiate_obj"] = inst
    for m in ("fit", "fit_transform", "fit_resample", "sample", "partial_fit", "get_params",
              "transform", "preprocessing_transform", "predict_proba", "predict"):
        it.func_override["any." + m] = method(m)
    return log


def job_run(prog, cls, preset, hooks=None, budget=120):
    ci = prog.classes[cls]
    r = ClassRun.__new__(ClassRun)
    return ci, r


def dict_arg(st, keys, rest, loc):
    st.heap[loc] = HDict(dict(keys), tuple(rest))
    return AV("dict", T("dictref", loc[1]), frozenset([loc]), loc)


def start(prog, cls, budget=120):
    """an interpreter plus an uninitialised object of the class"""
    from sa.interp import Interp
    from sa.values import State
    it = Interp(prog, budget_s=budget)
    it.unroll_limit = 60
    it.eager_generators = True
    it.ext_override["os.path.join"] = lambda it, name, args, kwargs, rest, st, node: \
        vstr(T("call", "os.path.join", *[it.strip(a).term for a in args]))
    st = State()
    ci = prog.classes[cls]
    loc = ("self", cls)
    st.heap[loc] = HObj(ci, {})
    obj = AV("obj", T("obj", cls), frozenset([loc]), loc)
    return it, st, ci, obj


def construct(it, st, ci, obj, kwargs):
    it.phase = "ctor"
    f = ci.find("__init__")
    alts = it.call_func(f[1], [obj], kwargs, [], st, DUMMY, cls=f[2])
    it.merge_alts(alts, st)


def invoke(it, st, ci, obj, name, args=(), kwargs=None):
    it.phase = "call"
    f = ci.find(name)
    return it.call_func(f[1], [obj] + list(args), kwargs or {}, [], st, DUMMY, cls=f[2])


# ------------------------------------------------------------------ case analysis
def cases(ts, limit=600):
    """all consistent resolutions of the phis in a tuple of terms: (choices, terms)"""
    out = []
    todo = [({}, tuple(ts))]
    n = 0
    while todo:
        n += 1
        if n > limit:
            return None
        ch, xs = todo.pop()
        p = None
        for x in xs:
            p = find_phi(x)
            if p is not None:
                break
        if p is None:
            out.append((ch, xs))
            continue
        for i in range(len(p.args) - 1):
            memo = {}
            c2 = dict(ch)
            c2[p.args[0]] = i
            todo.append((c2, tuple(choose(x, p.args[0], i, len(p.args), memo) for x in xs)))
    return out


def find_phi(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            return x
        if x.op in ("arg", "const"):
            continue
        stack.extend(x.args)
    return None


def choose(t, key, i, n, memo):
    if isinstance(t, tuple):
        return tuple(choose(x, key, i, n, memo) for x in t)
    if not isinstance(t, Term):
        return t
    if t in memo:
        return memo[t]
    if t.op == "phi" and t.args[0] is key and len(t.args) == n:
        r = choose(t.args[i + 1], key, i, n, memo)
    elif not t.args:
        r = t
    else:
        na = tuple(choose(a, key, i, n, memo) for a in t.args)
        r = t if all(a is b or a == b for a, b in zip(na, t.args)) else T(t.op, *na)
    memo[t] = r
    return r


def free_run(prog, name, budget=120):
    """an interpreter for a module level function"""
    from sa.interp import Interp
    from sa.values import State
    from sa.units import find_function
    fi = find_function(prog, name)
    it = Interp(prog, budget_s=budget)
    it.unroll_limit = 60
    it.phase = "call"
    it.ext_override["os.path.join"] = lambda it, name, args, kwargs, rest, st, node: \
        vstr(T("call", "os.path.join", *[it.strip(a).term for a in args]))
    return it, State(), fi, f"{fi.module.path}:{fi.node.lineno} in {fi.name}"
