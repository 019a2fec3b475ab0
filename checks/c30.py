"""C30: every parameter takes effect."""
import ast
from sa.framework import Check, OK, BAD
from checks.aliasing import Summaries
from checks.liveness import FUNCS, target_defs

R_USED = "parameter-reaches-the-algorithm"
R_CAP = "a-number-from-a-share-is-not-capped-at-one"

# reports of the configuration, not uses of it
REPORT = {"__init__", "get_params", "parameter_combinations", "__repr__", "__str__", "descriptor",
          "to_dict", "set_params"}
# what decides how fast a result is computed, not which
SPEED = {"n_jobs", "max_n_jobs", "n_workers"}
ENTRY = {"sample", "sampling_algorithm", "sample_with_timing", "fit_resample", "remove_noise",
         "preprocessing_transform", "fit", "predict", "predict_proba", "fit_transform", "transform",
         "execute", "timeout", "kneighbors", "radius_neighbors", "get_n_splits", "split",
         "job_generator", "do_oversampling", "do_evaluation", "train", "evaluate", "add_neuron"}


def loads_of(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def self_attr(e):
    return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and \
        e.value.id == "self" else None


class Classes:
    def __init__(self, prog):
        self.s = Summaries(prog)
        self.elsewhere = set()      # attributes read through something other than self
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not (
                        isinstance(n.value, ast.Name) and n.value.id == "self"):
                    self.elsewhere.add(n.attr)

    def get(self, name):
        c = self.s.classes.get(name, [])
        return c[0][1] if len(c) == 1 else None

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            for b in c.bases:
                n = b.id if isinstance(b, ast.Name) else getattr(b, "attr", None)
                d = self.get(n)
                if d is not None:
                    todo.append(d)
        return out

    def methods(self, cls):
        """name -> definitions along the bases (all of them: super() calls reach the hidden ones)"""
        out = {}
        for c in self.mro(cls):
            for f in c.body:
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.setdefault(f.name, []).append(f)
        return out

    def reads(self, cls):
        """attributes of self read by what a user runs: name -> keys or None for the whole"""
        ms = self.methods(cls)
        todo = [n for n in ms if n in ENTRY]
        if not todo:
            todo = [n for n in ms if not n.startswith("_")]
        todo = [n for n in todo if n not in REPORT]
        seen, out = set(), {}
        while todo:
            n = todo.pop()
            if n in seen or n in REPORT:
                continue
            seen.add(n)
            for f in ms[n]:
                par = {}
                for x in ast.walk(f):
                    for y in ast.iter_child_nodes(x):
                        par[y] = x
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and x.attr in ms and x.attr not in seen:
                        todo.append(x.attr)
                    a = self_attr(x)
                    if a is None or not isinstance(x.ctx, ast.Load) or logged(par, x):
                        continue
                    p = par.get(x)
                    if isinstance(p, ast.Subscript) and p.value is x and \
                            isinstance(p.slice, ast.Constant):
                        if isinstance(p.ctx, ast.Load) and out.get(a, ()) is not None:
                            out.setdefault(a, set()).add(p.slice.value)
                    elif isinstance(p, ast.Attribute) and isinstance(p.ctx, ast.Load) and \
                            not isinstance(par.get(p), ast.Call):
                        if out.get(a, ()) is not None:
                            out.setdefault(a, set()).add(p.attr)
                    elif isinstance(p, ast.Assign) and p.value is x and len(p.targets) == 1 and \
                            self_attr(p.targets[0]) == a:
                        pass
                    else:
                        out[a] = None
        return out


def logged(par, n):
    while n in par:
        n = par[n]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Name) and n.func.value.id in ("_logger", "logger"):
            return True
        if isinstance(n, ast.Raise):
            return True
        if isinstance(n, ast.stmt):
            return False
    return False


def init_of(cs, cls):
    for c in cs.mro(cls):
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.name == "__init__":
                return f, c
    return None, None


def names_of(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg != "self"]


def effective(cs, cls, fn, depth=0):
    """parameters of a constructor that reach something the object uses"""
    ps = names_of(fn)
    reads = cs.reads(cls)
    taint = {p: {p} for p in ps}
    attrs = {}                      # (attribute, key or None) -> parameters
    done = set()

    def of(e):
        out = set()
        for n in loads_of(e):
            out |= taint.get(n, set())
        for x in ast.walk(e):
            a = self_attr(x)
            if a is not None:
                for (b, _), v in attrs.items():
                    if a == b:
                        out |= v
        return out

    def put(a, k, v):
        attrs[(a, k)] = attrs.get((a, k), set()) | v

    def keyed(e):
        """[(key, value)] of a dictionary or dataclass, None otherwise"""
        if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) for k in e.keys):
            return [(k.value, v) for k, v in zip(e.keys, e.values)]
        if isinstance(e, ast.Call) and e.keywords and not e.args and \
                all(k.arg for k in e.keywords) and isinstance(e.func, ast.Name) and \
                (e.func.id == "dict" or cs.get(e.func.id) is not None and
                 init_of(cs, cs.get(e.func.id))[0] is None):
            return [(k.arg, k.value) for k in e.keywords]
        return None

    def call(c, cond):
        f = c.func
        args = [(None, a) for a in c.args] + [(k.arg, k.value) for k in c.keywords]
        n = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if n.startswith(("check_", "_check")) or n in ("isinstance", "len", "print", "join"):
            return
        if n == "__init__" and isinstance(f, ast.Attribute):
            base = None
            rest = list(c.args)
            if isinstance(f.value, ast.Name):
                base = cs.get(f.value.id)
                rest = rest[1:]
            elif isinstance(f.value, ast.Call):
                ms = [x for k in cs.mro(cls) for x in k.body
                      if isinstance(x, ast.FunctionDef) and x.name == "__init__" and x is not fn]
                if ms and depth < 5:
                    bind(ms[0], c, rest, cls)
                else:
                    for _, a in args:
                        done.update(of(a))
                return
            if base is None or depth >= 5:
                for _, a in args:
                    done.update(of(a))
                return
            g, _ = init_of(cs, base)
            if g is not None:
                bind(g, c, rest, cls)
            return
        if isinstance(f, ast.Attribute) and (
                isinstance(f.value, ast.Name) and (f.value.id == "self" or cs.get(f.value.id))):
            for _, a in args:
                done.update(of(a))

    def bind(g, c, rest, k):
        eff = effective(cs, k, g, depth + 1)
        gp = names_of(g)
        for p, a in zip(gp, rest):
            if isinstance(a, ast.Starred) or p in eff:
                done.update(of(a))
        for x in c.keywords:
            if x.arg is None or x.arg in eff or x.arg not in gp and g.args.kwarg is None:
                done.update(of(x.value))

    def walk(ss, cond):
        for s in ss:
            if isinstance(s, FUNCS):
                continue
            if isinstance(s, (ast.If, ast.While)):
                c = of(s.test)
                walk(s.body, cond | c)
                walk(s.orelse, cond | c)
                continue
            if isinstance(s, ast.For):
                for v in target_defs(s.target):
                    taint[v] = taint.get(v, set()) | of(s.iter)
                walk(s.body, cond | of(s.iter))
                continue
            if isinstance(s, (ast.With, ast.Try)):
                walk(s.body, cond)
                for h in getattr(s, "handlers", []):
                    walk(h.body, cond)
                walk(getattr(s, "orelse", []) + getattr(s, "finalbody", []), cond)
                continue
            for x in ast.walk(s):
                if isinstance(x, ast.Call):
                    call(x, cond)
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and s.value is not None:
                v = of(s.value) | cond
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    for y in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        a = self_attr(y)
                        if a is not None:
                            ks = keyed(s.value)
                            if ks:
                                for k, e in ks:
                                    put(a, k, of(e) | cond)
                            else:
                                put(a, None, v)
                        elif isinstance(y, ast.Name):
                            taint[y.id] = taint.get(y.id, set()) | v
                        elif isinstance(y, ast.Subscript) and self_attr(y.value):
                            k = y.slice.value if isinstance(y.slice, ast.Constant) else None
                            put(self_attr(y.value), k, v)
                        elif isinstance(y, ast.Attribute) and self_attr(y.value):
                            put(self_attr(y.value), y.attr, v)
    for _ in range(2):
        walk(fn.body, set())
    for (a, k), v in attrs.items():
        if a in cs.elsewhere and k is None and a not in reads and a not in REPORTED(cls):
            done |= v
        if a in reads and (k is None or reads[a] is None or k in reads[a]):
            done |= v
    return done & set(ps)


def REPORTED(cls):
    """attributes with the names of constructor parameters are read through other objects of other
    classes: that is no use of this one"""
    for f in cls.body:
        if isinstance(f, ast.FunctionDef) and f.name == "__init__":
            return set(names_of(f))
    return set()


def exported(m):
    """the names a module offers"""
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__"
                                             for t in s.targets):
            try:
                return set(ast.literal_eval(s.value))
            except ValueError:
                return set()
    return set()


def abstract(cs):
    """classes others are derived from that do not sample themselves"""
    out = set()
    for defs in cs.s.classes.values():
        for _, c in defs:
            for b in cs.mro(c)[1:]:
                if not any(isinstance(f, ast.FunctionDef) and f.name in
                           ("sampling_algorithm", "remove_noise", "fit") for f in b.body):
                    out.add(b.name)
                if b.name in ("NoiseFilter", "OverSampling", "OverSamplingSimplex", "UnderSampling"):
                    out.add(b.name)
    return out


WHOLE = {"int", "rint", "round", "floor", "ceil", "around", "trunc"}


def callee(e):
    return getattr(e.func, "id", None) or getattr(e.func, "attr", None) \
        if isinstance(e, ast.Call) else None


def resolved(e, defs):
    """the expression a local name with a single definition stands for"""
    for _ in range(4):
        if isinstance(e, ast.Name) and len(defs.get(e.id, ())) == 1:
            e = defs[e.id][0]
        else:
            break
    return e


def share_count(e, defs):
    """the parameters in a number made by rounding a product with a parameter, e.g.
    int(np.rint(self.share * n))"""
    e = resolved(e, defs)
    if callee(e) not in WHOLE or not e.args:
        return set()
    todo, out, prod = [e.args[0]], set(), False
    while todo:
        x = resolved(todo.pop(), defs)
        if callee(x) in WHOLE and x.args:
            todo.append(x.args[0])
        elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult):
            prod = True
            todo += [x.left, x.right]
        elif self_attr(x) is not None:
            out.add(x.attr)
        elif isinstance(x, ast.Subscript) and self_attr(x.value) is not None and \
                isinstance(x.slice, ast.Constant):
            out.add(f"{x.value.attr}[{x.slice.value!r}]")
    return out if prod else set()


def caps(f):
    """(call, parameters, capped): the smaller (larger) of a literal and a number made from a
    share: min(1, .) is one or zero whatever the share is"""
    defs = {}
    for n in ast.walk(f):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for k in target_defs(t):
                    defs.setdefault(k, []).append(n.value if isinstance(t, ast.Name) else None)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            for k in target_defs(n.target):
                defs.setdefault(k, []).append(None)
    for n in ast.walk(f):
        w = callee(n)
        if w not in ("min", "max", "amin", "amax", "minimum", "maximum") or n.keywords:
            continue
        a = n.args
        if len(a) == 1 and isinstance(a[0], (ast.List, ast.Tuple)):
            a = a[0].elts
        if len(a) != 2:
            continue
        vals = [resolved(x, defs) for x in a]
        for x, y in (vals, vals[::-1]):
            if isinstance(x, ast.Constant) and isinstance(x.value, int):
                s = share_count(y, defs)
                if s:
                    yield n, s, w in ("min", "amin", "minimum") and x.value <= 1


def main(tier):
    c = Check("C30", tier)
    cs = Classes(c.prog)
    bases = abstract(cs)
    n = 0
    for name, defs in sorted(cs.s.classes.items()):
        if len(defs) != 1:
            continue
        m, cls = defs[0]
        fn = next((f for f in cls.body if isinstance(f, ast.FunctionDef) and
                   f.name == "__init__"), None)
        if fn is None or not any(k in cs.methods(cls) for k in ("get_params",)) or \
                not any(k in cs.methods(cls) for k in ENTRY) or name not in exported(m) or \
                name in bases:
            continue
        n += 1
        eff = effective(cs, cls, fn)
        for p in names_of(fn):
            if p in SPEED or p.startswith("_"):
                continue
            c.add(R_USED, f"{m.path}:{name} {p}", OK if p in eff else BAD,
                  f"{m.path}:{fn.lineno} in {name}.__init__",
                  "" if p in eff else f"{p} is stored and reported, but nothing that runs after "
                  "the construction looks at it")
        for f in (g for b in cs.mro(cls) for g in b.body if isinstance(g, ast.FunctionDef)):
            for call, ps, capped in caps(f):
                c.add(R_CAP, f"{m.path}:{name} {sorted(ps)}", BAD if capped else OK,
                      f"{m.path}:{call.lineno} in {name}.{f.name}",
                      f"the number made from {', '.join(sorted(ps))} is capped at one: it is the "
                      "same whatever the parameter is" if capped else "")
    c.stats["classes"] = n
    c.explanation = (
        "For every configurable class: the parameters of the constructor are followed through its "
        "assignments, dictionaries and the constructors of its bases to attributes (per key for "
        "dictionaries); the attribute must be read by a method reachable from the entry points "
        "(sample, remove_noise, fit, ...), reports (get_params, logging, error messages) and "
        "validation not counting. A number of things made from a share (a product with a "
        "parameter, rounded) may be kept above a literal but not below one.")
    c.assumptions = ["n_jobs and the like decide how fast a result is computed, not which"]
    return c.finish({R_USED: 300})
