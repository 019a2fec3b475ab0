"""C27: updates take effect: nothing is written to a copy that is thrown away."""
import ast
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.units import all_units, run_unit, Unit
from sa.interp import Interp
from sa.drive import reachable
from checks.aliasing import Summaries
from checks.liveness import Liveness, FUNCS, loads, target_defs, base_name, statement_of

R_STORE = "store-into-something-that-is-kept"
R_STEP = "new-value-of-a-loop-variable-or-parameter-is-used"
R_KILL = "computed-value-is-looked-at-before-it-is-replaced"
R_PURE = "result-of-a-function-is-used"

# functions that give a new object and leave their arguments alone, although their names may be
# taken for orders
NUMPY = {"sort", "unique", "delete", "append", "insert", "clip", "reshape", "ravel", "round",
         "around", "nan_to_num", "transpose", "roll", "flip", "concatenate", "vstack", "hstack",
         "minimum", "maximum", "multiply", "divide", "add", "subtract", "expand_dims", "squeeze"}
BUILTIN = {"sorted", "reversed"}
METHOD = {"astype", "reshape", "ravel", "flatten", "transpose", "clip", "round", "permutation",
          "drop", "dropna", "fillna", "sort_values", "sort_index", "rename", "reset_index",
          "set_index", "drop_duplicates", "assign", "replace", "union", "difference",
          "intersection", "strip", "lower", "upper", "swapaxes", "squeeze", "to_numpy"}
STORES = ("item assignment", "list ", "dict ", "set ", ".sort()", ".fill()", "rng.shuffle",
          "random.shuffle", "np.fill_diagonal", "np.put", "np.place", "np.copyto", "np.putmask",
          "augmented assignment", "attribute assignment", "model ")
GIVES = {"list pop", "dict pop", "dict popitem", "dict setdefault", "set pop"}

# what nobody asks for need not be kept: lists that are only added to
COLLECT = {"list append", "list extend", "list insert", "set add", "set update"}


def is_store(how):
    return how.startswith(STORES) and not how.startswith(tuple(GIVES))


class Watch:
    """which of the values stored into are reachable from anything but the store itself"""

    def __init__(self):
        self.sites = {}         # (file, line, col, func) -> [held elsewhere, names, fn, how]

    def __call__(self, it, av, node, how, st):
        if not is_store(how) or not it.stack:
            return
        fr = it.stack[-1][0]
        if fr.fi is None:
            return
        k = (fr.module.path, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
             fr.fi.qualname)
        e = self.sites.setdefault(k, [False, set(), fr.fi.node, how])
        if e[0]:
            return
        locs = av.locs
        if not locs or any(l[0] != "new" for l in locs):
            e[0] = True
            return
        outer = set(getattr(it, "pre_locs", ()) or ())
        mine = {}
        for f, env in st.frames.items():
            for n, a in env.items():
                ls = all_locs(a)
                if f == fr.fid and isinstance(n, str):
                    mine[n] = ls
                else:
                    outer |= ls
        if reachable(outer, st) & locs:
            e[0] = True
            return
        for n, ls in mine.items():
            if n not in e[1] and reachable(ls, st) & locs:
                e[1].add(n)

    def verdicts(self):
        for (file, line, col, func), (held, names, fn, how) in sorted(self.sites.items()):
            yield file, line, col, func, fn, how, held, names


def all_locs(a):
    out = set()
    todo = [a]
    while todo:
        x = todo.pop()
        out |= x.locs
        if x.kind in ("tuple", "union") and x.data:
            todo.extend(x.data)
        if x.kind in ("obj", "list", "dict", "set", "ext") and isinstance(x.data, tuple):
            out.add(x.data)
        if x.kind in ("bound", "iter") and isinstance(x.data, tuple):
            todo.extend(y for y in x.data if hasattr(y, "locs"))
    return {l[1] if l[0] == "weak" else l for l in out}


def in_use(fn, s, how, names):
    """an object at work on itself, or a model whose fit() is an operand"""
    if how == "attribute assignment":
        a = fn.args.posonlyargs + fn.args.args
        return bool(a) and a[0].arg in names and a[0].arg in ("self", "cls")
    return how.startswith("model ") and not (isinstance(s, ast.Expr) and
                                             isinstance(s.value, ast.Call) and
                                             isinstance(s.value.func, ast.Attribute) and
                                             s.value.func.attr == how[6:])


def unit(prog, un):
    w = Watch()
    Interp.on_write = w
    try:
        u = run_unit(prog, un)
    finally:
        Interp.on_write = None
    lost = {}
    live = {}
    for file, line, col, func, fn, how, held, names in w.verdicts():
        ok = held or bool(names) and how in COLLECT
        if not ok:
            lv = live.get(id(fn))
            if lv is None:
                lv = live[id(fn)] = Liveness(fn)
            s = statement_of(fn, line, col)
            ok = s is None or bool(names & lv.after.get(id(s), names)) or in_use(fn, s, how, names)
        lost[(file, line, col, func, how)] = (ok, tuple(sorted(names)))
    return [], {"sites": {(k, v) for k, v in lost.items()}}


def functions(prog):
    for m in prog.modules.values():
        stack = [(m.tree, "")]
        while stack:
            n, q = stack.pop()
            for x in ast.iter_child_nodes(n):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, f"{q}{x.name}", x
                    stack.append((x, f"{q}{x.name}."))
                elif isinstance(x, ast.ClassDef):
                    stack.append((x, f"{q}{x.name}."))
                else:
                    stack.append((x, q))


def classed(prog):
    from checks.c28 import functions as f
    return f(prog)


def own(fn):
    """the statements of a function, without the functions defined in it"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, FUNCS):
            todo.extend(x for x in ast.iter_child_nodes(n)
                        if isinstance(x, (ast.stmt, ast.ExceptHandler, ast.match_case)))


def assigned(s):
    """[(name, value)] a statement gives new values"""
    if isinstance(s, ast.Assign):
        for t in s.targets:
            if isinstance(t, ast.Name):
                yield t.id, s.value
            elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                    len(t.elts) == len(s.value.elts):
                for a, b in zip(t.elts, s.value.elts):
                    if isinstance(a, ast.Name):
                        yield a.id, b


def steps(m, q, fn, obs):
    """x = f(x) for a loop variable or a parameter: the new value is looked at"""
    a = fn.args
    args = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    loops = set()
    for n in own(fn):
        if isinstance(n, (ast.For, ast.AsyncFor)):
            loops |= target_defs(n.target)
    live = None
    for s in own(fn):
        for v, e in assigned(s):
            if v not in args | loops or v == "_" or v not in loads(e) or trivial(e, v):
                continue
            live = live or Liveness(fn)
            ok = v in live.after.get(id(s), {v})
            where = f"{m.path}:{s.lineno} in {q}"
            what = "loop variable" if v in loops else "parameter"
            obs.append((R_STEP, f"{m.path}:{q}:{s.lineno} {v}", ok, where,
                        f"{v} is given a new value that nothing looks at; what the {what} was "
                        "taken from stays as it was"))


def trivial(e, v):
    return isinstance(e, ast.Name) and e.id == v


def pure_call(m, c):
    """the name of a function whose only effect is its result"""
    f = c.func
    if isinstance(f, ast.Name):
        return f.id if f.id in BUILTIN and f.id not in m.bindings else None
    if not isinstance(f, ast.Attribute):
        return None
    if isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy"):
        if f.attr in NUMPY and not any(k.arg in ("out", "where", "copy") for k in c.keywords):
            return "np." + f.attr
        return None
    if f.attr in METHOD and not any(k.arg in ("inplace", "out", "copy") for k in c.keywords):
        return "." + f.attr
    return None


def pures(m, q, fn, obs):
    for s in own(fn):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            n = pure_call(m, s.value)
            where = f"{m.path}:{s.lineno} in {q}"
            named = any(isinstance(x, (ast.Name, ast.Attribute)) for a in s.value.args
                        for x in ast.walk(a)) or n and n.startswith(".")
            obs.append((R_PURE, f"{m.path}:{q}:{s.lineno}", not (n and named), where,
                        f"{n}() leaves its arguments as they are, and its result is dropped"))


COPYING = {"copy", "deepcopy", "astype", "get_params", "tolist", "to_dict", "flatten"}
MUTATOR = {"update", "sort", "append", "extend", "insert", "reverse", "remove", "clear", "fill",
           "setdefault", "add", "discard", "set_params"}


def replaced(m, q, fn, obs, sums, cls):
    """v = self.f(...) and v is given another value before anything has looked at it"""
    live = None
    defs = {}
    for s in own(fn):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                for v in target_defs(t):
                    defs.setdefault(v, []).append(s)
    for s in own(fn):
        if not (isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and
                sums.callee(m, cls, s.value)):
            continue
        for t in s.targets:
            for v in target_defs(t):
                if v.startswith("_"):
                    continue
                live = live or Liveness(fn)
                dead = v not in live.after.get(id(s), {v})
                again = [d for d in defs[v] if d is not s and (
                    d.lineno > s.lineno or d.lineno < s.lineno and inloop(fn, s, d))]
                obs.append((R_KILL, f"{m.path}:{q}:{s.lineno} {v}", not (dead and again),
                            f"{m.path}:{s.lineno} in {q}",
                            f"{v} is computed by {ast.unparse(s.value.func)} and replaced before "
                            "anything looks at it"))


def inloop(fn, a, b):
    return any(isinstance(n, (ast.For, ast.While)) and n.lineno <= min(a.lineno, b.lineno) and
               n.end_lineno >= max(a.lineno, b.lineno) for n in ast.walk(fn))


def copying(m, e):
    """an expression that makes a copy of something kept elsewhere"""
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Attribute):
            return f.attr in COPYING and not e.keywords
        return isinstance(f, ast.Name) and f.id in ("dict", "list", "set", "sorted", "deepcopy") \
            and len(e.args) == 1
    if isinstance(e, ast.Dict):
        return any(k is None for k in e.keys)
    return False


def store_bases(s):
    """the expressions whose value a statement stores into"""
    if isinstance(s, (ast.Assign, ast.AugAssign)):
        for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
            for x in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                if isinstance(x, (ast.Subscript, ast.Attribute)):
                    yield x.value
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
            isinstance(s.value.func, ast.Attribute) and s.value.func.attr in MUTATOR:
        yield s.value.func.value


def copies(m, q, fn, obs):
    """stores into an expression that makes a copy, or into a local copy nothing looks at"""
    live = None
    uses = None
    for s in own(fn):
        for b in store_bases(s):
            ok, what = True, ""
            if copying(m, b):
                ok, what = False, "it goes to a copy nothing else refers to"
            elif isinstance(b, ast.Name):
                if uses is None:
                    uses = local_uses(fn)
                defs, free = uses.get(b.id, ((), False))
                if free and defs and all(copying(m, d) for d in defs):
                    live = live or Liveness(fn)
                    if b.id not in live.after.get(id(s), {b.id}):
                        ok, what = False, f"{b.id} is a copy that nothing looks at afterwards"
            obs.append((R_STORE, f"{m.path}:{q}:{s.lineno}:{s.col_offset} source", ok,
                        f"{m.path}:{s.lineno} in {q}", f"the update is lost: {what}"))


def local_uses(fn):
    """name -> (values it is given, never handed to anything else)"""
    defs, ok = {}, {}
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        ok[x.arg] = False
    par = {}
    for n in ast.walk(fn):
        for x in ast.iter_child_nodes(n):
            par[x] = n
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                ok[x] = False
        if not isinstance(n, ast.Name):
            continue
        p = par.get(n)
        if isinstance(n.ctx, ast.Store):
            if isinstance(p, ast.Assign) and n in p.targets:
                defs.setdefault(n.id, []).append(p.value)
            else:
                ok[n.id] = False
        elif isinstance(n.ctx, ast.Load):
            plain = isinstance(p, ast.Subscript) and p.value is n or \
                isinstance(p, ast.Attribute) and isinstance(par.get(p), ast.Call) and \
                par[p].func is p and p.attr in MUTATOR
            if not plain:
                ok.setdefault(n.id, True)
                ok[n.id] = ok[n.id] and False
        else:
            ok[n.id] = False
    return {k: (v, ok.get(k, True)) for k, v in defs.items()}


def main(tier):
    c = Check("C27", tier)
    c.run_units(unit, all_units(c.prog))
    obs = []
    nf = 0
    sums = Summaries(c.prog)
    for m, q, fn, cls in classed(c.prog):
        nf += 1
        replaced(m, q, fn, obs, sums, cls)
        steps(m, q, fn, obs)
        pures(m, q, fn, obs)
        copies(m, q, fn, obs)
    for rule, key, ok, where, msg in obs:
        c.add(rule, key, OK if ok else BAD, where, "" if ok else msg)
    c.stats["functions_read"] = nf
    got = {}
    for k, (ok, names) in c.stats.pop("sites", ()):
        got.setdefault(k, []).append((ok, names))
    for (file, line, col, func, how), vs in sorted(got.items()):
        ok = any(o for o, _ in vs)
        names = sorted({n for _, ns in vs for n in ns})
        what = f"{', '.join(names)} is not looked at afterwards" if names else \
            "it is a copy nothing else refers to"
        c.add(R_STORE, f"{file}:{func}:{line}:{col} {how}", OK if ok else BAD,
              f"{file}:{line} in {func}", f"the {how} is lost: {what}")
    c.explanation = (
        "Every in-place modification met by the abstract interpretation of all samplers, filters, "
        "classifiers and helpers - item and attribute assignments, list, dict and set methods, "
        "shuffles, np.fill_diagonal and the like, the fitting of models - must go to an object "
        "that something else still reaches: another frame, the object itself, or a local name "
        "that is live afterwards (backward liveness on the syntax tree). Fancy indexing, "
        "arithmetic and .copy() make new objects, basic slices do not. On the syntax tree of "
        "every function of the package: a loop variable or parameter given a new value is "
        "looked at afterwards, the result of a function without side effects is not dropped, a "
        "result of a function of the package is not replaced before it is looked at, and nothing is stored into an expression that makes a copy.")
    c.assumptions = ["numpy view/copy semantics as tabulated in sa/extmodels.py",
                     "lists that are only added to and never read are not counted as lost updates"]
    return c.finish({R_STORE: 400, R_STEP: 30, R_PURE: 200})
