"""Feature spaces: in which coordinates the rows of an array term are given.

A space is the caller's own ("X",) or a transformation of one: ("tr", class, estimator, space),
("cols", selector, space); ("inv", ...) marks an inverse applied to something it does not invert.
`Space(it).of(t)` returns the set of spaces of the coordinates that flow into t; values without
coordinates (numbers, draws, indices, distances, weights) contribute nothing and "?" stands for
an operation that is not understood."""
from sa.terms import T, Term, is_const, const_value, leaves
from checks.outputs import AX, AY, estimator_class, label_role

CALLER = ("X",)
UNKNOWN = "?"
NONE = frozenset()

# the first argument holds the coordinates
FIRST = {"idx", "gidx", "slc", "del", "copy", "part", "arrof", "row", "astype", "row1", "nax",
         "nax0", "reshape", "setlen", "ravel", "flatten", "take", "sorted", "uniq_rows", "shuf",
         "perm", "vst", "asarray", "T", "lslice", "item", "rowsof", "repeat", "tile", "upd"}
ALL = {"cat", "colcat", "list", "tuple", "anyof", "any1", "vstack", "setitem", "lphi"}
# results without coordinates
NEUTRAL = {"const", "const2", "draw", "len", "ncols", "cnt", "eq", "lt", "le", "ne", "not", "band",
           "bor", "and", "or", "arange", "emptylist", "param", "picks", "it", "loop", "lin", "rep",
           "unique", "ucounts", "hist", "argsort", "int", "min", "max", "norm", "site", "none",
           "sym", "where", "full", "lelem", "zeros", "eye", "in", "lmul", "mul", "div", "sel"}
POINTWISE = {"+", "-", "*", "clip", "minimum", "maximum", "real", "neg", "nan_to_num"}


FITTED = {"cluster_centers_", "means_", "support_vectors_", "mean_", "vertices", "points",
          "components_", "weights"}
COORD_CALLS = {"poly1d", "take", "repeat", "diff", "roll", "tile", "flip", "sort", "squeeze",
               "expand_dims", "swapaxes", "moveaxis"}


class Space:
    def __init__(self, it):
        self.it = it
        self.base = AX
        self.memo = {}
        self.unk = {}
        self.busy = set()

    def of(self, t):
        if not isinstance(t, Term):
            return NONE
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return NONE
        self.busy.add(t)
        try:
            r = self.calc(t)
        finally:
            self.busy.discard(t)
        self.memo[t] = r
        return r

    def union(self, ts):
        r = frozenset()
        for x in ts:
            if isinstance(x, Term):
                r |= self.of(x)
        return r

    def unknown(self, t):
        s = self.union(t.args)
        if s:
            self.unk[t] = True
            return frozenset([UNKNOWN])
        return NONE

    def calc(self, t):
        op, a = t.op, t.args
        if t is self.base:
            return frozenset([CALLER])
        if t in self.it.elem_of:
            return self.union(self.it.elem_of[t])
        if op == "lphi" and t in self.it.phi_def:
            i, n = self.it.phi_def[t]
            return self.of(i.term) | self.of(n.term)
        if op == "phi":
            if label_role(t) is not None:
                return NONE
            return self.union(a[1:])
        if op == "el":
            return self.of(a[2]) if len(a) > 2 else self.of(a[0])
        if op == "comp":
            return self.of(a[0])
        if op in ("rows", "flat", "flat?"):
            return self.union(a)
        if op == "m":
            return self.method(t)
        if op == "u":
            return self.ufunc(t)
        if op == "red":
            if a[0] in ("mean", "sum", "median", "min", "max", "std", "nanmean", "average",
                        "percentile", "quantile") and len(a) > 2:
                return self.of(a[1])
            return NONE
        if op == "cols":
            s = self.of(a[0])
            if not s:
                return NONE
            if len(a) > 1 and all_true(a[1]):
                return s
            if len(a) < 2 or not isinstance(a[1], Term) or not self.two_dim(a[0]) or \
                    a[1].op in ("nax", "slice", "it", "const", "lin", "int", "tuple", "len"):
                return s
            return frozenset(("cols", a[1:], x) if x != UNKNOWN else x for x in s)
        if op == "dot" and len(a) == 2:
            p, q = self.of(a[0]), self.of(a[1])
            return NONE if p and q else p or q
        if op == "call" and a[0] == "linalg.solve":
            return NONE
        if op == "call" and a[0] == "polyfit" and len(a) > 2:
            return self.of(a[2])
        if op == "ucall" and len(a) > 1 and any(x.op == "call" and x.args[0] == "poly1d"
                                                for x in leaves(a[1])):
            return self.of(a[1])
        if op in NEUTRAL:
            return NONE
        if op in FIRST:
            return self.of(a[0])
        if op in ALL:
            return self.union(a)
        if op == "eattr" and len(a) == 2 and a[1] in FITTED:
            return self.fitted(a[0])
        if op == "attr" and len(a) == 2 and a[1] in FITTED and isinstance(a[0], Term) and \
                a[0].op == "new":
            return self.union(a[0].args)
        if op == "eattr":
            return NONE
        if op == "rec" and len(a) >= 3 and a[0].endswith(".sample"):
            return self.of(a[2])
        if op == "call" and a[0] in COORD_CALLS:
            return self.of(a[1])
        if op == "call" and a[0] in ("linalg.norm", "dist", "cdist", "pairwise_distances",
                                     "linalg.det", "cov", "take", "linalg.eigh", "linalg.eig"):
            return self.of(a[1]) if a[0] == "take" else NONE
        return self.unknown(t)

    def two_dim(self, t):
        while t.op in ("idx", "slc", "del", "copy") and isinstance(t.args[0], Term):
            if t.op == "idx" and t.args[1].op not in ("eq", "not", "band", "bor", "ne", "lt", "le"):
                return False
            t = t.args[0]
        return t is self.base or t.op == "m"

    def fitted(self, est):
        """coordinates an estimator learned: those of the data it was fitted to"""
        if est.op == "phi":
            return frozenset().union(*[self.fitted(x) for x in est.args[1:]])
        if est.op == "lphi" and est in self.it.phi_def:
            return frozenset().union(*[self.fitted(x.term) for x in self.it.phi_def[est]])
        if est.op == "fit":
            xs = [x for x in est.args[2:] if isinstance(x, Term)]
            return self.of(xs[0]) if xs else NONE
        return NONE

    def ufunc(self, t):
        f, a = t.args[0], t.args[1:]
        if f in ("+", "-", "clip", "minimum", "maximum", "real", "neg", "abs", "nan_to_num"):
            return self.union(a)
        if f == "*":
            ss = [self.of(x) for x in a if isinstance(x, Term)]
            ss = [s for s in ss if s]
            if len(ss) <= 1:
                return ss[0] if ss else NONE
            return frozenset([UNKNOWN])
        if f in ("/", "//"):
            n, d = self.of(a[0]), self.of(a[1])
            return n if not d else (NONE if not n else frozenset([UNKNOWN]))
        return NONE

    def method(self, t):
        name, a = t.args[0], t.args[1:]
        if name in ("transform", "fit_transform", "fit_resample") and len(a) >= 2:
            est, x = a[0], a[1]
            s = self.of(x)
            if not s:
                return NONE
            return frozenset(("tr", estimator_class(est), est, y) if y != UNKNOWN else y
                             for y in s)
        if name == "inverse_transform" and len(a) >= 2:
            est, x = a[0], a[1]
            s = self.of(x)
            if not s:
                return frozenset([CALLER])
            out = set()
            for y in s:
                if y == UNKNOWN:
                    out.add(y)
                elif y[0] == "tr" and same_estimator(y[2], est):
                    out.add(y[3])
                else:
                    out.add(("inv", estimator_class(est), est, y))
            return frozenset(out)
        if name == "sample" and a and isinstance(a[0], Term) and a[0].op == "fit":
            return self.fitted(a[0])
        if name in ("predict", "predict_proba", "kneighbors", "radius_neighbors", "score",
                    "decision_function", "fit_predict", "apply", "score_samples"):
            return NONE
        return self.unknown(t)


def all_true(t):
    """a mask that selects every column"""
    if not isinstance(t, Term):
        return False
    if t.op in ("rep", "const2") and isinstance(t.args[0], Term):
        t = t.args[0]
    return is_const(t) and const_value(t) is True or \
        t.op in ("rep", "const2") and t.args[0] in (True, 1.0)


def same_space(a, b):
    if a == b:
        return True
    if a[0] != b[0] or len(a) != len(b) or a == CALLER:
        return False
    if a[0] in ("tr", "inv"):
        return same_estimator(a[2], b[2]) and same_space(a[3], b[3])
    return a[1] == b[1] and same_space(a[2], b[2])


def describe(s):
    if s == CALLER:
        return "in the caller's space"
    if s[0] == "tr":
        return f"transformed by {str(s[1]).rsplit('.', 1)[-1]}" + \
            ("" if s[3] == CALLER else " from data " + describe(s[3]))
    if s[0] == "inv":
        return f"the inverse of {str(s[1]).rsplit('.', 1)[-1]} applied to data " + describe(s[3])
    return "a selection of the features" + ("" if s[-1] == CALLER else " of data " + describe(s[-1]))


def same_estimator(a, b, depth=6):
    """whether the two states are (joins of) one fitted estimator"""
    if a is b:
        return True
    if a.op == "fit" and b.op == "fit" and a.args[0] is b.args[0] and \
            {a.args[1], b.args[1]} <= {"fit", "fit_transform"} and a.args[2:] == b.args[2:]:
        return True         # two fits of equal estimators to the same data
    if depth and b.op == "phi":
        arms = [x for x in b.args[1:] if isinstance(x, Term) and x.op != "lphi"]
        return bool(arms) and all(same_estimator(a, x, depth - 1) for x in arms)
    if depth and a.op == "phi":
        arms = [x for x in a.args[1:] if isinstance(x, Term) and x.op != "lphi"]
        return bool(arms) and all(same_estimator(x, b, depth - 1) for x in arms)
    return False
