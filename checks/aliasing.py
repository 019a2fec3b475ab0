"""Which names of a function stand for the same object, and what is changed in place through them.

A forward analysis of one function on its syntax tree.  Every value is a set of references: the
whole object a name stands for ("w"), or a part of it taken out by a position or a basic slice ("v").
Objects are parameters and the places that make new ones; an object made in a loop is told apart
from the ones the same place made in earlier rounds (recency).  What numpy copies (masks, index
arrays, arithmetic, .copy()) is a new object.  Functions are entered through summaries: which
parameters they change in place and which results are one of their parameters."""
import ast
from checks.liveness import Liveness, FUNCS, target_defs

MUTATE = {"append", "extend", "insert", "remove", "sort", "reverse", "add", "discard", "update",
          "fill", "clear", "pop", "popitem", "setdefault", "itemset", "partition"}
INTO = {"fill_diagonal", "put", "place", "copyto", "putmask", "shuffle"}
SAME = {"asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d"}
PART = {"ravel", "reshape", "squeeze", "transpose", "view", "swapaxes"}
ARRAYS = {"array", "zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like",
          "full_like", "vstack", "hstack", "concatenate", "repeat", "tile", "arange", "linspace",
          "where", "sum", "mean", "dot", "exp", "log", "sqrt", "abs", "argsort", "sort", "unique",
          "cumsum", "outer", "eye", "diag", "std", "var", "min", "max", "random_sample", "rand",
          "randn", "normal", "uniform", "randint", "permutation", "copy"}
PUTS = {"append", "add", "insert", "appendleft"}


def text(e):
    return ast.unparse(e)


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class Summary:
    def __init__(self):
        self.changes = set()        # parameters changed in place
        self.gives = {}             # parameter -> positions of the result that are it, changed
        self.alias = {}             # position of the result -> {("w" or "v", parameter, key)}


class Summaries:
    """functions and methods of the package by name"""

    def __init__(self, prog):
        self.classes, self.funcs, self.done = {}, {}, {}
        for m in prog.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    self.classes.setdefault(n.name, []).append((m, n))
                elif isinstance(n, ast.FunctionDef):
                    self.funcs.setdefault(n.name, []).append((m, n))

    def method(self, cls, name, seen=()):
        if cls is None or cls.name in seen:
            return None
        for x in cls.body:
            if isinstance(x, ast.FunctionDef) and x.name == name:
                return x, cls
        for b in cls.bases:
            bn = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
            c = self.classes.get(bn, [])
            if len(c) == 1:
                r = self.method(c[0][1], name, seen + (cls.name,))
                if r:
                    return r
        return None

    def callee(self, m, cls, call):
        """(function, its class, arguments bound so far)"""
        f = call.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and \
                f.value.id in ("self", "cls"):
            r = self.method(cls, f.attr)
            if r:
                static = any(isinstance(d, ast.Name) and d.id == "staticmethod"
                             for d in r[0].decorator_list)
                return r[0], r[1], not static
        if isinstance(f, ast.Name):
            c = self.funcs.get(f.id, [])
            here = [x for x in c if x[0] is m]
            if here or len(c) == 1:
                return (here or c)[0][1], None, False
        return None

    def of(self, m, fn, cls):
        if id(fn) not in self.done:
            self.done[id(fn)] = Summary()
            a = Flow(m, fn, cls, self)
            self.done[id(fn)] = a.summary
        return self.done[id(fn)]

    def bind(self, fn, method, call):
        """parameter name -> argument expression"""
        ps = [x.arg for x in fn.args.posonlyargs + fn.args.args]
        if method:
            ps = ps[1:]
        if any(isinstance(x, ast.Starred) for x in call.args):
            return {}
        out = dict(zip(ps, call.args))
        for k in call.keywords:
            if k.arg:
                out[k.arg] = k.value
        return out


class State:
    def __init__(self, env=None, cont=None, dirty=None, hit=None):
        self.env = env or {}        # name -> frozenset of references
        self.cont = cont or {}      # object -> objects put into it
        self.dirty = dirty or set() # (container, object) changed since it was put in
        self.hit = hit or set()     # objects changed so far

    def copy(self):
        return State(dict(self.env), dict(self.cont), set(self.dirty), set(self.hit))

    def join(self, o):
        s = self.copy()
        for k, v in o.env.items():
            s.env[k] = s.env.get(k, frozenset()) | v
        for k, v in o.cont.items():
            s.cont[k] = s.cont.get(k, frozenset()) | v
        s.dirty |= o.dirty
        s.hit |= o.hit
        return s

    def key(self):
        return (self.env, self.cont, self.dirty, self.hit)

    def age(self, site):
        new, old = ("s", site, 0), ("s", site, 1)

        def r(v):
            return (v[0], old) + v[2:] if v[1] == new else v
        if any(v[1] == new for vs in self.env.values() for v in vs):
            self.env = {k: frozenset(r(v) for v in vs) for k, vs in self.env.items()}
        cont = {}
        for c, os in self.cont.items():
            c = old if c == new else c
            cont[c] = cont.get(c, frozenset()) | frozenset(old if o == new else o for o in os)
        self.cont = cont
        self.dirty = {(old if c == new else c, old if o == new else o) for c, o in self.dirty}
        self.hit = {old if o == new else o for o in self.hit}


class Flow:
    def __init__(self, m, fn, cls, sums):
        self.m, self.fn, self.cls, self.sums = m, fn, cls, sums
        self.summary = Summary()
        self.live = Liveness(fn)
        self.events = {}            # (node id, rule) -> (node, bad message or None)
        self.loops = []
        self.brk = []
        self.scalars = self.find_scalars()
        self.arrays = self.find_arrays()
        st = State()
        a = fn.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for p in self.params:
            if p not in ("self", "cls"):
                st.env[p] = frozenset({("w", ("p", p))})
        self.stmts(fn.body, st)

    # ------------------------------------------------------------------ what is what
    def find_scalars(self):
        out = set()
        for n in ast.walk(self.fn):
            if isinstance(n, (ast.For, ast.comprehension)):
                it, t = n.iter, n.target
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
                    if it.func.id == "range" and isinstance(t, ast.Name):
                        out.add(t.id)
                    if it.func.id == "enumerate" and isinstance(t, ast.Tuple) and \
                            isinstance(t.elts[0], ast.Name):
                        out.add(t.elts[0].id)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, ast.Constant) and isinstance(v.value, int):
                    out.add(n.targets[0].id)
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                        v.func.attr in ("argmax", "argmin") and \
                        not any(k.arg == "axis" for k in v.keywords) and len(v.args) < 2:
                    out.add(n.targets[0].id)
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                        v.func.attr == "randint" and len(v.args) < 3 and not any(
                            k.arg == "size" for k in v.keywords):
                    out.add(n.targets[0].id)
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                        v.func.id in ("int", "len"):
                    out.add(n.targets[0].id)
        return out

    def scalar(self, e):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, int) and not isinstance(e.value, bool)
        if isinstance(e, ast.UnaryOp):
            return self.scalar(e.operand)
        if isinstance(e, ast.BinOp):
            return self.scalar(e.left) and self.scalar(e.right)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                e.func.attr == "randint":
            return len(e.args) < 3 and not any(k.arg == "size" for k in e.keywords)
        return isinstance(e, ast.Name) and e.id in self.scalars

    def basic(self, e):
        """an index numpy answers with a view"""
        if isinstance(e, ast.Slice):
            return True
        if isinstance(e, ast.Tuple):
            return all(self.basic(x) or isinstance(x, ast.Constant) and x.value is None
                       for x in e.elts) and any(isinstance(x, ast.Slice) for x in e.elts)
        return self.scalar(e)

    def find_arrays(self):
        """names that stand for arrays: made by numpy, or used the way only arrays are"""
        out = set()
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Attribute) and n.attr in ("shape", "T", "dtype", "astype") and \
                    isinstance(n.value, ast.Name):
                out.add(n.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and \
                    isinstance(n.slice, ast.Tuple):
                out.add(n.value.id)
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and \
                    isinstance(n.slice, ast.Compare):
                out.add(n.value.id)
        while True:
            new = set(out)
            for n in ast.walk(self.fn):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        isinstance(n.targets[0], ast.Name) and self.arrayish(n.value, new):
                    new.add(n.targets[0].id)
            if new == out:
                return out
            out = new

    def arrayish(self, e, known=None):
        known = self.arrays if known is None else known
        if isinstance(e, ast.Name):
            return e.id in known
        if isinstance(e, ast.BinOp):
            return self.arrayish(e.left, known) or self.arrayish(e.right, known)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            f = e.func
            if isinstance(f.value, ast.Name) and f.value.id == "np" and f.attr in ARRAYS:
                return True
            return f.attr in ("copy", "astype", "fit_transform", "transform") and (
                f.attr != "copy" or self.arrayish(f.value, known))
        return False

    # ------------------------------------------------------------------ values
    def fresh(self, node, st):
        st.age(id(node))
        return frozenset({("w", ("s", id(node), 0))})

    def val(self, e, st):
        if e is None or isinstance(e, ast.Constant):
            return frozenset()
        if isinstance(e, ast.Name):
            return st.env.get(e.id, frozenset())
        if isinstance(e, ast.Starred):
            return self.val(e.value, st)
        if isinstance(e, ast.NamedExpr):
            v = self.val(e.value, st)
            self.bind(e.target, v, st)
            return v
        if isinstance(e, ast.Attribute):
            if e.attr == "T":
                return frozenset(("v", r[1], ":") for r in self.val(e.value, st))
            return frozenset()
        if isinstance(e, ast.Subscript):
            b = self.val(e.value, st)
            self.val(e.slice, st)
            if self.basic(e.slice):
                return frozenset(("v", r[1], text(e.slice) if r[0] == "w" else ":") for r in b)
            return self.fresh(e, st) if isinstance(e.slice, (ast.Compare, ast.Name)) else frozenset()
        if isinstance(e, ast.IfExp):
            self.val(e.test, st)
            return self.val(e.body, st) | self.val(e.orelse, st)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*[self.val(x, st) for x in e.values])
        if isinstance(e, (ast.List, ast.Set)):
            vs = [self.val(x, st) for x in e.elts]
            r = self.fresh(e, st)
            o = next(iter(r))[1]
            st.cont[o] = frozenset(x[1] for v in vs for x in v if x[0] == "w")
            return r
        if isinstance(e, ast.Tuple):
            for x in e.elts:
                self.val(x, st)
            return frozenset()
        if isinstance(e, ast.Dict):
            for x in e.keys + e.values:
                self.val(x, st)
            return self.fresh(e, st)
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in e.generators:
                self.val(g.iter, st)
            return self.fresh(e, st)
        if isinstance(e, ast.Lambda):
            return frozenset()
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.val(x, st)
        if isinstance(e, ast.BinOp):
            return self.fresh(e, st)
        return frozenset()

    def call(self, e, st):
        f = e.func
        args = [self.val(a, st) for a in e.args]
        for k in e.keywords:
            v = self.val(k.value, st)
            if k.arg == "out" and isinstance(k.value, ast.Name):
                self.change(k.value, v, e, st, whole=True)
        if isinstance(f, ast.Attribute):
            self.val(f.value, st) if not isinstance(f.value, ast.Name) else None
            np = isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy")
            if np and f.attr in SAME and e.args:
                return args[0]
            if np and f.attr in PART and e.args:
                return frozenset(("v", r[1], ":") for r in args[0])
            if f.attr in PART and not np:
                return frozenset(("v", r[1], ":") for r in self.val(f.value, st))
            if f.attr in INTO and e.args and not (np and f.attr == "shuffle"):
                self.change(e.args[0], args[0], e, st, whole=f.attr != "fill_diagonal")
                return frozenset()
            if f.attr in MUTATE and not np and isinstance(f.value, (ast.Name, ast.Subscript)):
                v = self.val(f.value, st)
                self.change(f.value, v, e, st, whole=f.attr in ("sort", "fill", "clear", "reverse"))
                if f.attr in PUTS and e.args:
                    self.put(f.value, v, e.args[-1], args[-1], e, st)
                return frozenset()
        c = self.sums.callee(self.m, self.cls, e)
        if c:
            fn, cls, method = c
            s = self.sums.of(self.m, fn, cls)
            for p, a in self.sums.bind(fn, method, e).items():
                if p in s.changes:
                    self.change(a, self.val(a, st), e, st, whole=True)
                    if s.gives.get(p):
                        self.given(e, p, a, s.gives[p], fn, st)
            if None in s.alias:
                v = self.mapped(s.alias[None], fn, method, e, st)
                return v or self.fresh(e, st)
        return self.fresh(e, st)

    def mapped(self, alias, fn, method, e, st):
        """what the parameters a result may be stand for here"""
        out = set()
        b = self.sums.bind(fn, method, e)
        for a in alias:
            if a[1] not in b or not isinstance(b[a[1]], ast.Name):
                return frozenset()
            for r in st.env.get(b[a[1]].id, frozenset()):
                out.add(r if a[0] == "w" else ("v", r[1], a[2] if r[0] == "w" else ":"))
        return frozenset(out)

    def unpack(self, t, e, st):
        """targets of a tuple assignment that are parameters of the function called"""
        if not (isinstance(t, ast.Tuple) and isinstance(e, ast.Call)):
            return
        c = self.sums.callee(self.m, self.cls, e)
        if not c:
            return
        fn, cls, method = c
        s = self.sums.of(self.m, fn, cls)
        new = {}
        for i, x in enumerate(t.elts):
            if i in s.alias and isinstance(x, ast.Name):
                new[x.id] = self.mapped(s.alias[i], fn, method, e, st)
        return new

    # ------------------------------------------------------------------ events
    def note(self, node, rule, bad):
        k = (id(node), rule)
        old = self.events.get(k)
        if old is None or bad and not old[1]:
            self.events[k] = (node, bad)

    def change(self, e, vals, node, st, whole=False, key=None):
        """the object e stands for is changed in place"""
        if not isinstance(e, ast.Name):
            return
        if len(vals) != 1:
            self.note(node, "keep", None)
            return
        (r,) = vals
        if r[0] != "w" or r[1][0] == "s" and r[1][2] == 1:
            self.note(node, "keep", None)
            return
        o = r[1]
        st.hit.add(o)
        for c, os in st.cont.items():
            if o in os:
                st.dirty.add((c, o))
        if o[0] == "p":
            self.summary.changes.add(o[1])
        after = self.live.after.get(id(self.stmt), set())
        bad = None
        for h, vs in st.env.items():
            if h == e.id or h not in after or h in self.rebound:
                continue
            for v in vs:
                if v[1] != o:
                    continue
                if v[0] == "w":
                    bad = f"{h} is the same object as {e.id}, which is changed in place, and is " \
                          "looked at afterwards"
                elif e.id in self.arrays and (whole or key is not None and key == v[2] or
                                              any(h in self.live.head.get(id(x), ())
                                                  for x in self.loops)) and v[2] != ":":
                    bad = f"{h} is a view of {e.id}, which is changed in place, and is looked at " \
                          "afterwards"
        self.note(node, "keep", bad)

    def put(self, ce, cv, xe, xv, node, st):
        if len(cv) != 1 or len(xv) != 1:
            self.note(node, "put", None)
            return
        (c,), (x,) = cv, xv
        bad = None
        if c[0] == "w" and x[0] == "w" and x[1][-1] != 1 and c[1][-1] != 1:
            if x[1] in st.cont.get(c[1], ()) and (c[1], x[1]) in st.dirty:
                bad = f"{text(xe)} is put into {text(ce)} again after a change: it is the object " \
                      "that is in there already, which changes with it"
            st.cont[c[1]] = st.cont.get(c[1], frozenset()) | {x[1]}
        self.note(node, "put", bad)

    def given(self, call, p, a, positions, fn, st):
        """the result of a call is its argument, changed"""
        r = root(a)
        if r is None or r in ("self", "cls"):
            return
        s = self.stmt
        bad = None
        after = self.live.after.get(id(s), set())
        if isinstance(a, ast.Name) and r not in after:
            # a part of something that is looked at
            refs = st.env.get(r, frozenset())
            for h, vs in st.env.items():
                if h != r and h in after and h not in self.rebound and refs and \
                        all(v[0] == "v" and any(w[1] == v[1] for w in vs) for v in refs):
                    r = h
                    break
        if not (isinstance(s, ast.Expr) and s.value is call) and r in after and \
                r not in self.rebound:
            same = False
            if isinstance(s, ast.Assign) and s.value is call:
                for t in s.targets:
                    ts = t.elts if isinstance(t, ast.Tuple) else [t]
                    same = same or any(text(x) == text(a) for x in ts)
                    same = same or any(root(x) == r and not isinstance(x, ast.Name) for x in ts)
            if isinstance(s, ast.Return):
                same = True
            if not same:
                bad = f"{fn.name} changes its argument {p} in place and returns it: {text(a)} " \
                      "changes with the result"
        self.note(call, "keep", bad)

    # ------------------------------------------------------------------ statements
    def bind(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, frozenset(), st)

    def stmts(self, ss, st):
        for s in ss:
            if st is None:
                return None
            st = self.exec(s, st)
        return st

    def exec(self, s, st):
        self.stmt = s
        self.rebound = set()
        if isinstance(s, ast.Assign):
            for t in s.targets:
                self.rebound |= target_defs(t)
            if isinstance(s.value, ast.Tuple) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Tuple) and \
                    len(s.targets[0].elts) == len(s.value.elts):
                vs = [self.val(x, st) for x in s.value.elts]
                for t, v, e in zip(s.targets[0].elts, vs, s.value.elts):
                    self.assign(t, v, e, st, s)
                return st
            v = self.val(s.value, st)
            for t in s.targets:
                self.assign(t, v, s.value, st, s)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.rebound = target_defs(s.target)
                self.assign(s.target, self.val(s.value, st), s.value, st, s)
            return st
        if isinstance(s, ast.AugAssign):
            self.val(s.value, st)
            if isinstance(s.target, ast.Name):
                n = s.target.id
                v = st.env.get(n, frozenset())
                if self.inplace(s.target, v):
                    self.change(s.target, v, s, st, whole=True)
                else:
                    st.env[n] = frozenset()
            elif isinstance(s.target, ast.Subscript):
                self.store(s.target, s, st)
            return st
        if isinstance(s, ast.Expr):
            self.val(s.value, st)
            return st
        if isinstance(s, ast.Return):
            if isinstance(s.value, ast.Tuple):
                for i, x in enumerate(s.value.elts):
                    self.returns(i, self.val(x, st), st)
            elif s.value is not None:
                self.returns(None, self.val(s.value, st), st)
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.brk:
                self.brk[-1][isinstance(s, ast.Break)].append(st)
            return None
        if isinstance(s, ast.If):
            self.val(s.test, st)
            a = self.stmts(s.body, st.copy())
            b = self.stmts(s.orelse, st.copy())
            return a if b is None else b if a is None else a.join(b)
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            return self.loop(s, st)
        if isinstance(s, ast.With):
            for i in s.items:
                self.val(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, frozenset(), st)
            return self.stmts(s.body, st)
        if isinstance(s, ast.Try):
            before = st.copy()
            a = self.stmts(s.body, st)
            a = self.stmts(s.orelse, a) if a is not None else None
            outs = [a] if a is not None else []
            for h in s.handlers:
                hst = before.copy() if a is None else before.join(a)
                h = self.stmts(h.body, hst)
                if h is not None:
                    outs.append(h)
            r = None
            for o in outs:
                r = o if r is None else r.join(o)
            return self.stmts(s.finalbody, r) if r is not None else None
        if isinstance(s, FUNCS):
            return st
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.val(x, st)
        return st

    def returns(self, i, v, st):
        for r in v:
            if r[1][0] == "p":
                self.summary.alias.setdefault(i, set()).add(
                    (r[0], r[1][1]) + ((r[2],) if r[0] == "v" else ()))
        if len(v) == 1:
            (r,) = v
            if r[0] == "w" and r[1][0] == "p" and r[1] in st.hit:
                self.summary.gives.setdefault(r[1][1], set()).add(i)

    def inplace(self, t, v):
        """x += ... changes the object x stands for"""
        return t.id in self.arrays and t.id not in self.scalars

    def store(self, t, s, st):
        self.val(t.slice, st)
        b = t.value
        v = self.val(b, st)
        if isinstance(b, ast.Name):
            k = text(t.slice)
            self.change(b, v, s, st, whole=isinstance(t.slice, ast.Slice) and
                        t.slice.lower is None and t.slice.upper is None, key=k)

    def assign(self, t, v, e, st, s):
        if isinstance(t, ast.Subscript):
            self.store(t, s, st)
            return
        if isinstance(t, (ast.Tuple, ast.List)) or isinstance(t, ast.Name):
            new = self.unpack(t, e, st)
            self.bind(t, v, st)
            st.env.update(new or {})

    def loop(self, s, st):
        if isinstance(s, ast.While):
            self.val(s.test, st)
        else:
            it = self.val(s.iter, st)
        self.loops.append(s)
        brks = []
        head = st
        for _ in range(8):
            self.brk.append(([], []))
            cur = head.copy()
            if not isinstance(s, ast.While):
                self.stmt, self.rebound = s, set()
                part = frozenset(("v", r[1], "?") for r in it if r[0] == "w") \
                    if isinstance(s.target, ast.Name) else frozenset()
                self.bind(s.target, part, cur)
                if isinstance(s.target, ast.Tuple):
                    for x in s.target.elts:
                        if isinstance(x, ast.Name) and x.id not in self.scalars:
                            cur.env[x.id] = self.fresh(x, cur)
            out = self.stmts(s.body, cur)
            cont, brk = self.brk.pop()
            brks = brk
            for x in cont:
                out = x if out is None else out.join(x)
            if out is None:
                break
            if isinstance(s, ast.While):
                self.stmt, self.rebound = s, set()
                self.val(s.test, out)
            new = head.join(out)
            if new.key() == head.key():
                break
            head = new
        self.loops.pop()
        end = self.stmts(s.orelse, head.copy()) if s.orelse else head
        for x in brks:
            end = x if end is None else end.join(x)
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and \
                not brks:
            return None
        return end
