"""Affine weights: with which total weight the rows of the data enter a symbolic value.

A row of the data is a point (weight 1), the difference of two points is a vector (weight 0),
numbers have none.  A sum adds the weights, a product with a number multiplies them; the weights
are polynomials over the numbers of the program, so x + (y - x) * r and (1 - r) * x + r * y both
have weight 1 for any r.  Means, medians, selections, scalers, fitted centres and draws located
at a point keep the weight.  `Weights(it).of(t)` returns the set of weights of the alternatives
of t; "?" stands for a weight that is not understood and the empty set for a value without
coordinates."""
from fractions import Fraction
from sa.terms import T, Term, is_const, const_value, lin_parts
from checks.outputs import AX, label_role
from checks.spaces import FIRST, ALL, NEUTRAL, FITTED, COORD_CALLS, all_true

UNKNOWN = "?"
NONE = frozenset()
ZERO = ()
ONE = (((), Fraction(1)),)
KEEP = {"mean", "median", "nanmean", "average", "percentile", "quantile", "nanmedian"}
EXTREME = {"min", "max"}
SPREAD = {"std", "var", "ptp"}
LIMIT = 40
PASSES = 12
DISTANCES = {"pairwise_distances_mahalanobis", "distances_mahalanobis", "n_neighbors_func"}


def poly(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                        key=lambda p: [x.uid for x in p[0]]))


def padd(a, b, k=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + k * c
    return poly(d)


def pmul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            k = tuple(sorted(m + n, key=lambda x: x.uid))
            d[k] = d.get(k, 0) + c * e
    return poly(d)


def show_poly(p):
    from sa.terms import show
    if not p:
        return "0"
    return " + ".join((str(c) if not m else ("" if c == 1 else f"{c}*") +
                       "*".join(show(x, 2) for x in m)) for m, c in p)


class Weights:
    def __init__(self, it, base=AX, points=()):
        self.it = it
        self.base = base
        self.points = set(points)
        self.memo = {}
        self.unk = {}
        self.val = {}
        self.cuts = {}
        self.plain = None

    # ------------------------------------------------------------ numbers
    def number(self, t, depth=12):
        """the polynomial of a number; a term that is not understood is an indeterminate"""
        if not isinstance(t, Term):
            return poly({(): Fraction(t)}) if isinstance(t, (int, float)) else None
        if is_const(t):
            v = const_value(t)
            if isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
                return poly({(): Fraction(v)})
            return poly({(t,): Fraction(1)})
        if depth:
            if t.op == "lin":
                c, d = lin_parts(t)
                r = poly({(): Fraction(c)})
                for x, k in d.items():
                    r = padd(r, pmul(poly({(): Fraction(k)}), self.number(x, depth - 1)))
                return r
            if t.op == "mul" and len(t.args) == 2:
                t = T("u", "*", *t.args)
            if t.op == "u" and t.args[0] in ("+", "-", "*") and len(t.args) == 3:
                a, b = self.number(t.args[1], depth - 1), self.number(t.args[2], depth - 1)
                if len(a) * len(b) <= 64:
                    if t.args[0] == "*":
                        return pmul(a, b)
                    return padd(a, b, 1 if t.args[0] == "+" else -1)
            if t.op in ("u", "neg") and t.args[0] in ("neg", "-") and len(t.args) == 2:
                return pmul(self.number(t.args[1], depth - 1), poly({(): Fraction(-1)}))
            if t.op in ("nax", "nax0", "reshape", "copy", "T", "rep", "const2", "row1", "astype",
                        "gidx", "float") and isinstance(t.args[0], Term):
                # broadcasting the same number(s)
                return self.number(t.args[0], depth - 1)
            if t.op in ("rep", "const2") and isinstance(t.args[0], (int, float)):
                return poly({(): Fraction(t.args[0])})
            if t.op in ("u", "div") and t.args[0 if t.op == "div" else 1] is not None:
                a = t.args[1:] if t.op == "u" and t.args[0] == "/" else \
                    t.args if t.op == "div" else None
                if a is not None and len(a) == 2:
                    n, q = self.number(a[0], depth - 1), self.number(a[1], depth - 1)
                    if n is not None and q is not None and len(q) == 1 and q[0][0] == ():
                        return pmul(n, poly({(): 1 / q[0][1]}))
                    if n is not None and q is not None and n == q:
                        return ONE
        return poly({(t,): Fraction(1)})

    # -------------------------------------------------------- coordinates
    def of(self, t):
        """least fixpoint over the loops the value depends on; a first round finds out which of
        them carry coordinates at all, the second one determines with which weights"""
        self.plain = None
        self.val, self.memo = {}, {}
        if self.settle(t) is None:
            return frozenset([UNKNOWN])
        self.plain = {x for x, v in self.val.items() if not v}
        self.val, self.memo = {x: NONE for x in self.plain}, {}
        r = self.settle(t)
        return frozenset([UNKNOWN]) if r is None else r

    def settle(self, t):
        for _ in range(PASSES):
            r = self.ev(t)
            todo, done, changed = list(self.cuts), set(), False
            while todo:
                x = todo.pop()
                if x in done:
                    continue
                done.add(x)
                old = self.val.get(x)
                new = self.cut(x)
                if old and new is not None:
                    new = new | old
                if new is not None and len(new) > LIMIT:
                    new = frozenset([UNKNOWN])
                if self.plain is None and new:
                    new = frozenset([UNKNOWN])
                if new != old:
                    self.val[x] = new
                    changed = True
                todo += [y for y in self.cuts if y not in done]
            if not changed:
                return NONE if r is None else r
            self.memo = {}
        return None

    def cut(self, t):
        if t in self.it.elem_of:
            r = self.union(self.it.elem_of[t])
            return self.calc(t) if r is not None and not r else r
        return self.union([x.term for x in self.it.phi_def[t]])

    def merge(self, rs):
        r = frozenset().union(*[x for x in rs if x is not None])
        if not r and any(x is None for x in rs) and (self.plain is not None or
                                                     all(x is None for x in rs)):
            return None
        return r if rs else None

    def ev(self, t):
        """weights of a term, None while a loop it depends on has not been evaluated"""
        if not isinstance(t, Term):
            return NONE
        if t in self.memo:
            return self.memo[t]
        if t is not self.base and t not in self.points and \
                (t in self.it.elem_of or t.op == "lphi" and t in self.it.phi_def):
            self.cuts[t] = 1
            return self.val.get(t)
        self.memo[t] = None
        r = self.calc(t)
        if r is not None and len(r) > LIMIT:
            r = frozenset([UNKNOWN])
        self.memo[t] = r
        return r

    def union(self, ts):
        rs = [self.ev(x) for x in ts if isinstance(x, Term)]
        return self.merge(rs) if rs else NONE

    def unknown(self, t):
        s = self.union(t.args)
        if s is None:
            return None
        if s:
            self.unk[t] = True
            return frozenset([UNKNOWN])
        return NONE

    def calc(self, t):
        op, a = t.op, t.args
        if t is self.base or t in self.points:
            return frozenset([ONE])
        if op == "phi":
            return NONE if label_role(t) is not None else self.union(a[1:])
        if op == "el":
            return self.ev(a[2]) if len(a) > 2 else self.ev(a[0])
        if op == "comp":
            return self.ev(a[0])
        if op in ("rows", "flat", "flat?"):
            return self.union(a)
        if op == "m":
            return self.method(t)
        if op == "u":
            return self.ufunc(t)
        if op in ("mul", "div") and len(a) == 2:
            # values of unknown dimension are treated like numbers by the engine
            return self.ufunc(T("u", "*" if op == "mul" else "/", *a))
        if op == "lin":
            return self.linear(t)
        if op == "red":
            return self.reduction(t)
        if op == "cols":
            return self.ev(a[0])
        if op == "draw" or op in ("picks", "pick") and a and isinstance(a[0], Term) and \
                a[0].op == "draw":
            return self.drawn(t if op == "draw" else a[0]) if op == "draw" else \
                self.union(a[1:])
        if op == "dot" and len(a) == 2:
            p, q = self.ev(a[0]), self.ev(a[1])
            if p is None or q is None:
                return None
            if p <= {ZERO} and q <= {ZERO}:
                return p | q
            if p and q:
                return NONE
            if p and normalised(self.it, a[1]) or q and normalised(self.it, a[0]):
                return p or q
            return self.unknown(t)
        if op == "call" and a[0] == "linalg.solve":
            return NONE
        if op == "call" and a[0] == "polyfit" and len(a) > 2:
            return self.ev(a[2])
        if op == "ucall" and len(a) > 1:
            s = self.ev(a[1])
            if s or s is None:
                return s
        if op == "lmul":
            return self.union(a)
        if op == "rec" and a and str(a[0]).rsplit(".", 1)[-1] in DISTANCES:
            return NONE
        if op in NEUTRAL:
            return NONE
        if op in FIRST:
            return self.ev(a[0])
        if op in ALL:
            return self.union(a)
        if op == "eattr" and len(a) == 2:
            if a[1] == "components_":
                return frozenset([ZERO])
            if a[1] in FITTED:
                return self.fitted(a[0])
            return NONE
        if op == "attr" and len(a) == 2 and a[1] in FITTED and isinstance(a[0], Term) and \
                a[0].op == "new":
            return self.union(a[0].args)
        if op == "rec" and len(a) >= 3 and a[0].endswith(".sample"):
            return self.ev(a[2])
        if op == "call" and a[0] == "diff":
            return frozenset([ZERO]) if self.ev(a[1]) else self.ev(a[1])
        if op == "call" and a[0] in COORD_CALLS:
            return self.ev(a[1])
        if op == "call" and a[0] in ("linalg.norm", "dist", "cdist", "pairwise_distances",
                                     "linalg.det", "cov", "linalg.eigh", "linalg.eig",
                                     "einsum"):
            return NONE
        return self.unknown(t)

    def drawn(self, t):
        """a draw is located where its location argument is"""
        fn = t.args[1] if len(t.args) > 1 else ""
        out = NONE
        for args in self.it.draw_args.get(t, ()):
            pos = [x for x in args if isinstance(x, Term)]
            kw = dict(x for x in args if isinstance(x, tuple))
            if fn in ("normal", "multivariate_normal", "uniform"):
                loc = pos[0] if pos else kw.get("loc", kw.get("mean", kw.get("low")))
                locs = [loc]
                if fn == "uniform":
                    locs.append(pos[1] if len(pos) > 1 else kw.get("high"))
                out |= self.union(locs) or NONE
        return out

    def fitted(self, est, d=8):
        if d and est.op == "phi":
            return self.merge([self.fitted(x, d - 1) for x in est.args[1:]])
        if d and est.op == "lphi" and est in self.it.phi_def:
            return self.merge([self.fitted(x.term, d - 1) for x in self.it.phi_def[est]])
        if est.op == "fit":
            xs = [x for x in est.args[2:] if isinstance(x, Term)]
            return self.ev(xs[0]) if xs else NONE
        return NONE

    def cross(self, a, b, f):
        out = set()
        for x in a:
            for y in b:
                out.add(UNKNOWN if UNKNOWN in (x, y) else f(x, y))
        return frozenset(out)

    def scaled(self, s, k):
        """coordinates of weights s times a number of polynomial k"""
        return frozenset(x if x in (UNKNOWN, ZERO) else
                         UNKNOWN if k is None else pmul(x, k) for x in s)

    def ufunc(self, t):
        f, a = t.args[0], [x for x in t.args[1:]]
        ss = [self.ev(x) for x in a]
        if any(x is None for x in ss):
            return None
        if not any(ss):
            return NONE
        if f in ("+", "-") and len(a) == 2:
            # a value without coordinates is an offset
            p = ss[0] or frozenset([ZERO])
            q = ss[1] or frozenset([ZERO])
            return self.cross(p, q, lambda x, y: padd(x, y, 1 if f == "+" else -1))
        if f == "neg" or f == "-" and len(a) == 1:
            return self.scaled(ss[0], poly({(): Fraction(-1)}))
        if f in ("clip", "minimum", "maximum"):
            return frozenset().union(*ss)
        if f in ("real", "nan_to_num", "copy"):
            return ss[0]
        if f in ("abs", "fabs", "sign"):
            return ss[0] if ss[0] == {ZERO} else frozenset([UNKNOWN])
        if f == "*" and len(a) == 2:
            if ss[0] and ss[1]:
                return frozenset([ZERO]) if ss[0] == ss[1] == {ZERO} else frozenset([UNKNOWN])
            i = 0 if ss[0] else 1
            return self.scaled(ss[i], self.number(a[1 - i]))
        if f in ("/", "//") and len(a) == 2:
            if ss[0] and not ss[1]:
                k = self.number(T("div", T("const", 1), a[1]))
                n = self.number(a[1])
                if len(n) == 1 and n[0][0] == ():
                    k = poly({(): 1 / n[0][1]}) if n[0][1] else None
                else:
                    k = poly({(T("div", T("const", 1), a[1]),): Fraction(1)})
                return self.scaled(ss[0], k)
            if ss[1] and not ss[0]:
                return NONE
            return frozenset([ZERO]) if ss[0] == ss[1] == {ZERO} else frozenset([UNKNOWN])
        return NONE

    def linear(self, t):
        c, d = lin_parts(t)
        ss = [(self.ev(x), k) for x, k in d.items()]
        if any(s is None for s, _ in ss):
            return None
        out = NONE
        for s, k in ss:
            if s:
                s = self.scaled(s, poly({(): Fraction(k)}))
                out = self.cross(out, s, padd) if out else s
        return out

    def reduction(self, t):
        f, a = t.args[0], t.args[1:]
        s = self.ev(a[0])
        if s is None:
            return None
        if len(a) < 2 or not s:
            return NONE if f != "sum" or len(a) < 2 else self.weighted(t)
        if f in KEEP or f in EXTREME:
            return s
        if f in SPREAD:
            return frozenset([ZERO])
        if f == "sum":
            return self.weighted(t)
        return NONE

    def weighted(self, t):
        """sum of points times numbers along an axis: known when the numbers are normalised"""
        x = t.args[1]
        s = self.ev(x)
        if s <= {ZERO}:
            return s
        if x.op == "T" and isinstance(x.args[0], Term):
            x = x.args[0]
        if x.op == "u" and x.args[0] == "*" and len(x.args) == 3:
            for p, w in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                sp = self.ev(p)
                if sp and not self.ev(w):
                    k = normalised(self.it, w)
                    if k:
                        return sp
                    if k is False:
                        return self.scaled(sp, poly({(T("sumof", w),): Fraction(1)}))
        if is_const(t.args[2]) and const_value(t.args[2]) in (1, -1) and flat2(x):
            return NONE     # a sum over the features
        self.unk[t] = True
        return frozenset([UNKNOWN])

    def method(self, t):
        name, a = t.args[0], t.args[1:]
        if name in ("transform", "fit_transform", "fit_resample") and len(a) >= 2:
            return self.ev(a[1])
        if name == "inverse_transform" and len(a) >= 2:
            s = self.ev(a[1])
            return s if s or s is None else self.fitted(a[0])
        if name == "sample" and a and isinstance(a[0], Term) and a[0].op == "fit":
            return self.fitted(a[0])
        if name in ("predict", "predict_proba", "kneighbors", "radius_neighbors", "score",
                    "decision_function", "fit_predict", "apply", "score_samples"):
            return NONE
        return self.unknown(t)


def flat2(t):
    """certainly a two-dimensional array of rows"""
    while t.op in ("idx", "slc", "copy", "del") and isinstance(t.args[0], Term):
        t = t.args[0]
    return t is AX


STRIP = ("gidx", "nax", "nax0", "T", "reshape", "copy", "row", "astype")
RANDOM = {"random_sample", "rand", "uniform", "random", "normal", "randn", "standard_normal", "ranf",
          "exponential", "gamma", "beta"}


def core(w):
    while isinstance(w, Term) and w.op in STRIP and isinstance(w.args[0], Term):
        w = w.args[0]
    return w


def ratio(w):
    """(numerator, sum) of numbers divided by the sum of themselves"""
    w = core(w)
    if not isinstance(w, Term) or w.op not in ("u", "div"):
        return None
    a = w.args[1:] if w.op == "u" else w.args
    if w.op == "u" and w.args[0] != "/" or len(a) != 2:
        return None
    d = core(a[1])
    if isinstance(d, Term) and d.op == "red" and d.args[0] == "sum" and \
            core(d.args[1]) is core(a[0]):
        return core(a[0]), d
    return None


def draw_dims(it, t):
    """number of dimensions of the array a draw returns, None when not known"""
    dims = set()
    for args in it.draw_args.get(t, ()):
        kw = dict(x for x in args if isinstance(x, tuple))
        pos = [x for x in args if isinstance(x, Term)]
        size = kw.get("size", pos[0] if pos and t.args[1] == "random_sample" else None)
        if t.args[1] in ("rand", "randn"):
            dims.add(len(pos))
        elif size is not None and size.op == "tuple":
            dims.add(len(size.args))
        elif size is not None and size.op in ("len", "const", "lin", "cnt", "max", "min"):
            dims.add(1)
        else:
            dims.add(None)
    return dims.pop() if len(dims) == 1 else None


def normalised(it, w):
    """True for numbers that add up to one along the axis they are summed over, False for random
    numbers that certainly do not, None when not known"""
    r = ratio(w)
    c = core(w)
    if r is not None:
        n, d = r
        if len(d.args) > 2:
            return True
        dims = draw_dims(it, n) if n.op == "draw" else None
        return False if dims is not None and dims > 1 else True
    if isinstance(c, Term) and c.op == "draw":
        return True if c.args[1] == "dirichlet" else False if c.args[1] in RANDOM else None
    return None


# ---------------------------------------------------------------------------- interpolation
BIG = Fraction(1000)
UNIT = {"random_sample", "rand", "random", "ranf"}


class Hull:
    """whether the rows of a value lie between rows of the data: every combination of points on
    the way has weights from [0, 1]"""

    def __init__(self, it):
        self.it = it
        self.w = Weights(it)
        self.seen = {}
        self.found = []          # (verdict, term, text)

    def walk(self, t):
        if not isinstance(t, Term) or t in self.seen:
            return
        self.seen[t] = 1
        op, a = t.op, t.args
        if t is AX or not self.w.of(t):
            return
        if t in self.it.elem_of:
            for x in self.it.elem_of[t]:
                self.walk(x)
            return
        if op == "lphi" and t in self.it.phi_def:
            for x in self.it.phi_def[t]:
                self.walk(x.term)
        elif op == "phi":
            for x in a[1:]:
                self.walk(x)
        elif op == "el":
            self.walk(a[2] if len(a) > 2 else a[0])
        elif op in ("rows", "flat", "flat?") or op in ALL:
            for x in a:
                self.walk(x)
        elif op == "m" and a[0] in ("transform", "fit_transform", "inverse_transform") and \
                len(a) >= 2:
            self.walk(a[1])
        elif op in ("lin", "mul", "div") or op == "u" and a[0] in ("+", "-", "*", "/", "neg"):
            atoms = {}
            if not self.expand(t, ONE, atoms):
                self.found.append((None, t, ""))
                return
            for x, k in atoms.items():
                r = self.span(k)
                if r is None:
                    self.found.append((None, t, ""))
                elif r[0] < 0 or r[1] > 1:
                    self.found.append((False if r[2] else None, t, "a point with the weight "
                                       f"{show_poly(k)[:120]} from [{float(r[0]):.4g}, "
                                       f"{float(r[1]):.4g}]"))
                else:
                    self.found.append((True, t, ""))
                self.walk(x)
        elif op == "red":
            if a[0] == "sum":
                x = core(a[1])
                if x.op == "u" and x.args[0] == "*":
                    for y in x.args[1:]:
                        r = ratio(y)
                        r = r and self.range(r[0])
                        if r:
                            self.found.append((True if r[0] >= 0 else False if r[2] else None, t,
                                               "normalised weights of both signs"))
                        self.walk(y)
            else:
                self.walk(a[1])
        elif op in FIRST or op in ("comp", "cols", "call", "repeat"):
            self.walk(a[0] if isinstance(a[0], Term) else a[1] if len(a) > 1 else None)

    def expand(self, t, k, atoms):
        """the points a value is combined from and their weights; what has no coordinates and
        whole vectors (spreads, principal axes) are noise around them"""
        s = self.w.of(t)
        if not s or s == {ZERO} and not self.differs(t):
            return True
        if t.op == "lin":
            return all(self.expand(x, pmul(k, poly({(): Fraction(c)})), atoms)
                       for x, c in lin_parts(t)[1].items())
        if t.op in ("mul", "div") and len(t.args) == 2:
            t = T("u", "*" if t.op == "mul" else "/", *t.args)
        if t.op in STRIP and t.op in ("T", "nax", "nax0", "gidx") and core(t).op == "u":
            return self.expand(core(t), k, atoms)
        if t.op == "u" and t.args[0] in ("+", "-") and len(t.args) == 3:
            for i, x in enumerate(t.args[1:]):
                q = k if i == 0 or t.args[0] == "+" else pmul(k, poly({(): Fraction(-1)}))
                if not self.expand(x, q, atoms):
                    return False
            return True
        if t.op == "u" and t.args[0] in ("*", "/") and len(t.args) == 3:
            p, q = self.w.of(t.args[1]), self.w.of(t.args[2])
            if p and q or t.args[0] == "/" and q:
                return False
            x, n = (t.args[1], t.args[2]) if p else (t.args[2], t.args[1])
            n = self.w.number(n if t.args[0] == "*" else T("div", T("const", 1), n))
            return n is not None and self.expand(x, pmul(k, n), atoms)
        if s != {ONE}:
            return False
        atoms[t] = padd(atoms.get(t, ZERO), k)
        return True

    def differs(self, t):
        """a vector that is a difference of points written out in the value"""
        t = core(t)
        return t.op in ("lin", "mul", "div") or t.op == "u" and t.args[0] in ("+", "-", "*", "/")

    def span(self, p):
        """the range of a polynomial, linear in each of its numbers, over their ranges, and
        whether its ends are certainly reached"""
        vs = sorted({x for m, _ in p for x in m}, key=lambda x: x.uid)
        if len(vs) > 6 or any(len(set(m)) != len(m) for m, _ in p):
            return None
        rs = []
        for v in vs:
            r = self.range(v)
            if r is None:
                return None
            rs.append(r)
        vals = []
        for i in range(1 << len(vs)):
            at = {v: rs[j][(i >> j) & 1] for j, v in enumerate(vs)}
            s = Fraction(0)
            for m, c in p:
                for x in m:
                    c = c * at[x]
                s += c
            vals.append(s)
        return min(vals), max(vals), all(r[2] for r in rs)

    def range(self, v, depth=14):
        """(least, largest, certainly reached) of the numbers of a term"""
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return Fraction(v), Fraction(v), True
        if not isinstance(v, Term) or not depth:
            return None
        v = core(v)
        op, a = v.op, v.args
        if is_const(v):
            x = const_value(v)
            return (Fraction(x), Fraction(x), True) if isinstance(x, (int, float)) and \
                x == x and abs(x) != float("inf") else None
        if op == "draw" and a[1] in UNIT:
            return Fraction(0), Fraction(1), True
        if op == "draw" and a[1] in ("normal", "randn", "standard_normal"):
            # unbounded on both sides
            return -BIG, BIG, True
        if op == "draw" and a[1] == "uniform":
            return self.uniform(v)
        if op in ("rep", "const2"):
            return self.range(a[0], depth - 1)
        if op in ("le", "lt", "ge", "gt", "eq", "ne", "not", "band", "bor"):
            return Fraction(0), Fraction(1), False
        if op == "u" and self.steps(v) is not None:
            return self.steps(v)
        if op in ("idx", "row", "el", "slc", "cols", "at") and a:
            s = self.steps(a[0])
            if s is not None:
                return s
            r = self.range(a[0], depth - 1)
            return r and (r[0], r[1], r[2] and r[0] == r[1] or core(a[0]).op == "draw")
        if op in ("cat", "rows", "setitem", "phi"):
            xs = [x for x in (a[1:] if op == "phi" else (a[0], a[2]) if op == "setitem" and
                              len(a) > 2 else a) if isinstance(x, Term)]
            rs = [self.range(x, depth - 1) for x in xs]
            if not rs or None in rs:
                return None
            return min(r[0] for r in rs), max(r[1] for r in rs), False
        if op == "u" and a[0] in ("+", "-", "*") and len(a) == 3:
            rs = [self.range(x, depth - 1) for x in a[1:]]
            if None in rs:
                return None
            (p, q, e), (x, y, f) = rs
            if a[0] == "-":
                x, y = -y, -x
            vals = (p + x, q + y) if a[0] != "*" else (p * x, p * y, q * x, q * y)
            return min(vals), max(vals), e and f and a[1] is not a[2]
        return None

    def steps(self, v):
        """arange(i, n) / m: from i / m to (n - 1) / m"""
        v = core(v)
        if v.op == "it" or v.op == "row":
            v = core(v.args[0])
        if v.op == "u" and v.args[0] in ("*", "/") and len(v.args) == 3:
            x, y = core(v.args[1]), core(v.args[2])
            if v.args[0] == "*" and x.op == "arange":
                x, y = y, x
            if v.args[0] == "*" and x.op == "div" and y.op == "arange" and is_const(x.args[0]):
                k, d, r = Fraction(const_value(x.args[0])), x.args[1], y
            elif v.args[0] == "/" and x.op == "arange":
                k, d, r = Fraction(1), y, x
            else:
                return None
            if len(r.args) > 2 and r.args[2] not in (1, T("const", 1)):
                return None
            lo = r.args[0]
            lo = lo if isinstance(lo, int) else const_value(lo) if is_const(lo) else None
            gap = padd(self.w.number(r.args[1]), self.w.number(d), -1)
            if lo is None or lo < 0 or k <= 0 or any(m for m, _ in gap):
                return None
            # (n - 1) / m with n = m + g: at most 1 iff g <= 1
            g = dict(gap).get((), Fraction(0))
            return Fraction(0), k if g <= 1 else 1 + k * g, True
        return None

    def uniform(self, v):
        out = []
        for args in self.it.draw_args.get(v, ()):
            pos = [x for x in args if isinstance(x, Term)]
            kw = dict(x for x in args if isinstance(x, tuple))
            lo = pos[0] if pos else kw.get("low")
            hi = pos[1] if len(pos) > 1 else kw.get("high")
            for x, d in ((lo, 0), (hi, 1)):
                r = (Fraction(d),) * 2 if x is None else self.range(x)
                if r is None or r[0] != r[1]:
                    return None
                out.append(r[0])
        return (min(out), max(out), True) if out else None
