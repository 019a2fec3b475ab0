"""Definiteness of symbolic matrices: "pd", "psd", "sym" (symmetric, no more is known to hold),
"asym" (nothing makes it symmetric), None (not understood); of vectors: "pos", "nonneg", "any",
None."""
from sa.terms import T, Term, is_const, const_value

THROUGH = {"copy", "astype", "arrof", "asarray", "part"}
GOOD = ("pd", "psd")
# learners whose matrix is L^T L by contract
LEARNERS = ("metric_learn.", "sklearn.")


def num(t):
    if isinstance(t, Term):
        return const_value(t) if is_const(t) and isinstance(const_value(t), (int, float)) else None
    return t if isinstance(t, (int, float)) else None


def lin_sign(t, rec):
    """the sign of a sum of weighted terms"""
    c, parts = t.args
    if c < 0 or any(co < 0 for _, co in parts):
        return None
    signs = [rec(x) for x, _ in parts]
    if any(s not in ("pos", "nonneg") for s in signs):
        return None
    return "pos" if c > 0 or "pos" in signs else "nonneg"


class Psd:
    def __init__(self):
        self.why = []
        self.memo = {}

    def peel(self, t):
        while isinstance(t, Term) and (t.op in THROUGH and t.args or t.op == "u" and
                                       t.args[0] in ("real", "nan_to_num")):
            t = t.args[1] if t.op == "u" else t.args[0]
        return t

    def call(self, t):
        return t.args[0] if isinstance(t, Term) and t.op == "call" and t.args and \
            isinstance(t.args[0], str) else ""

    def bad(self, s):
        if s not in self.why:
            self.why.append(s)

    # ------------------------------------------------------------- vectors
    def vec(self, t, d=20):
        t = self.peel(t)
        if not isinstance(t, Term):
            v = num(t)
            return None if v is None else "pos" if v > 0 else "nonneg" if v == 0 else "any"
        v = num(t)
        if v is not None:
            return self.vec(v)
        if not d:
            return None
        op, a = t.op, t.args
        c = self.call(t)
        rec = lambda x: self.vec(x, d - 1)
        if c.endswith("linalg.eigh") and a[1] == 0 or c.endswith("linalg.eigvalsh"):
            m = self.mat(a[-1])
            return {"pd": "pos", "psd": "nonneg", "sym": "any"}.get(m)
        if c.endswith("linalg.svd"):
            return "nonneg" if a[1] == 1 else None
        if c.endswith("mutual_info_regression") or c.endswith("mutual_info_classif"):
            return "nonneg"
        if c in ("diag", "diagonal", "numpy.diag"):
            return {"pd": "pos", "psd": "nonneg"}.get(self.mat(a[-1]))
        if op == "diag":
            return {"pd": "pos", "psd": "nonneg"}.get(self.mat(a[0]))
        if op == "arg":
            # a tolerance parameter
            return "pos" if a[0] in ("eps", "epsilon", "tol") else None
        if op == "setitem" and len(a) == 3:
            w, m, x = rec(a[0]), a[1], rec(a[2])
            if w is None or x is None:
                return None
            fl = self.below(a[0], m)
            if fl is None or not fl[1] or x == "any" or w == "pos":
                return self.meet(w, x) if w != "any" or fl is not None else None
            return "nonneg" if x == "nonneg" or not fl[0] else "pos"
        if op == "u" and a[0] in ("maximum", "fmax") or op == "max" and len(a) == 2:
            x, y = (rec(x) for x in a[-2:])
            if "pos" in (x, y):
                return "pos"
            return "nonneg" if "nonneg" in (x, y) else "any" if x and y else None
        if (op == "u" and a[0] == "clip" or op == "clip") and len(a) >= 3:
            lo = rec(a[-2] if len(a) > 3 or op == "clip" else a[-1])
            return lo
        if op == "u" and a[0] in ("where3",) or op == "where3":
            c_, x, y = a[-3:]
            inv = T("not", c_) if isinstance(c_, Term) else None
            for kept, put, m in ((y, x, c_), (x, y, inv)):
                fl = self.below(kept, m)
                if fl is not None and rec(kept) in ("any", "nonneg"):
                    put = rec(put)
                    if put is None:
                        return None
                    return ("pos" if fl[0] and put == "pos" else "nonneg"
                            if put in ("pos", "nonneg") else "any") if fl[1] else "any"
            r = self.meet(rec(x), rec(y))
            return None if r == "any" else r
        if op == "u" and a[0] not in ("minimum", "fmin"):
            f, xs = a[0], [rec(x) for x in a[1:] if isinstance(x, (Term, int, float))]
            if f in ("abs", "fabs", "absolute", "square"):
                return "pos" if xs[0] == "pos" else "nonneg"
            if f == "**" and num(a[2]) is not None and num(a[2]) % 2 == 0:
                return "nonneg"
            if f == "exp":
                return "pos"
            if f in ("sqrt",):
                return xs[0] if xs and xs[0] in ("pos", "nonneg") else None
            if f in ("*", "/", "+"):
                if f == "/" and xs[-1] == "nonneg":
                    xs = xs[:-1] + ["pos"]      # an undefined quotient is another matter
                if all(x in ("pos", "nonneg") for x in xs):
                    return "nonneg" if "nonneg" in xs and f != "+" else "pos" \
                        if "pos" in xs else "nonneg"
                return None
            if f in ("neg", "-") and len(xs) == 1:
                return "any" if xs[0] else None
            return None
        if op == "div":
            return self.meet(rec(a[0]), "nonneg") if rec(a[0]) in ("pos", "nonneg") else None
        if op == "red" and a[0] in ("mean", "sum", "min", "max", "median"):
            return rec(a[1])
        if op in ("rows", "list", "cat"):
            r = "pos"
            for x in a:
                r = self.meet(r, rec(x))
            return r
        if op == "idx":
            return rec(a[0])
        if op in ("rep", "const2"):
            return rec(a[0])
        if op == "zeros":
            return "nonneg"
        if op == "u" and a[0] in ("minimum", "fmin") or op == "min" and len(a) == 2:
            x, y = (rec(x) for x in a[-2:])
            return None if x is None or y is None else self.meet(x, y)
        if op == "lin":
            r = lin_sign(t, rec)
            return r
        if op == "phi":
            r = "pos"
            for x in a[1:]:
                r = self.meet(r, rec(x))
            return r
        return None

    @staticmethod
    def meet(x, y):
        o = ["any", "nonneg", "pos"]
        if x is None or y is None:
            return None
        return o[min(o.index(x), o.index(y))]

    def below(self, v, m):
        """(strictly more than zero is left, whether it does replace the low ones) for a mask"""
        v = self.peel(v)
        if not isinstance(m, Term):
            return None
        inv = False
        while m.op == "not":
            m, inv = m.args[0], not inv
        if m.op not in ("lt", "le", "gt", "ge") or len(m.args) != 2:
            return None
        x, y = (self.peel(z) for z in m.args)
        low = m.op in ("lt", "le")
        if y is v:
            x, y, low = y, x, not low
        if x is not v:
            return None
        low ^= inv
        b = self.vec(y)
        if b is None:
            return None
        strict = b == "pos" or b == "nonneg" and m.op == "le"
        return strict, low and b != "any"

    # ------------------------------------------------------------ matrices
    def mat(self, t):
        t = self.peel(t)
        if not isinstance(t, Term):
            return None
        if t not in self.memo:
            self.memo[t] = None
            self.memo[t] = self._mat(t)
        return self.memo[t]

    def trans(self, t):
        """the transposed matrix of a term, None when it is not written as one"""
        t = self.peel(t)
        if isinstance(t, Term) and t.op == "T":
            return self.peel(t.args[0])
        return None

    def is_diag(self, t):
        return isinstance(t, Term) and (t.op in ("diag", "eye", "identity") or
                                        self.call(t) in ("diag", "eye", "numpy.diag"))

    def factors(self, t):
        t = self.peel(t)
        if isinstance(t, Term) and t.op in ("dot", "matmul") and len(t.args) == 2:
            return self.factors(t.args[0]) + self.factors(t.args[1])
        if self.call(t).endswith("multi_dot"):
            xs = t.args[1:]
            if len(xs) == 1 and isinstance(xs[0], Term) and xs[0].op in ("list", "tuple"):
                xs = xs[0].args
            return [f for x in xs for f in self.factors(x)]
        s = self.scaled(t)
        if s is not None:
            m, v, where = s
            fs = self.factors(m)
            return [("D", v)] + fs if where == "rows" else fs + [("D", v)]
        return [t]

    def scaled(self, t):
        """(matrix, vector, rows or columns) of a matrix times a broadcast vector"""
        if not (isinstance(t, Term) and t.op == "u" and t.args[0] == "*" and len(t.args) == 3):
            return None
        for m, v in (t.args[1:], t.args[:0:-1]):
            m = self.peel(m)
            if not isinstance(m, Term) or self.kind(m) != "matrix":
                continue
            v = self.peel(v)
            if isinstance(v, Term) and v.op == "nax":
                ax = num(v.args[1]) if len(v.args) > 1 else None
                if ax in (1, -1):
                    return m, self.peel(v.args[0]), "rows"
                if ax == 0:
                    return m, self.peel(v.args[0]), "cols"
            elif isinstance(v, Term) and self.kind(v) == "vector":
                return m, v, "cols"
        return None

    def kind(self, t):
        t = self.peel(t)
        if not isinstance(t, Term):
            return None
        c = self.call(t)
        if t.op in ("dot", "matmul", "eye", "T") or c.endswith("eigh") and t.args[1] == 1 or \
                t.op == "m" and t.args[0] == "get_mahalanobis_matrix" or \
                c in ("cov", "numpy.cov", "outer", "numpy.outer") or c.endswith("linalg.inv"):
            return "matrix"
        if t.op == "diag":
            return "matrix" if self.kind(t.args[0]) == "vector" else None
        if c.endswith("eigh") and t.args[1] == 0 or c.endswith("eigvalsh"):
            return "vector"
        if t.op in ("setitem", "idx", "sqrt") or t.op == "u" and t.args[0] in (
                "sqrt", "maximum", "clip", "abs", "/"):
            return self.kind(t.args[1] if t.op == "u" else t.args[0])
        if t.op == "u" and t.args[0] in ("*", "+"):
            ks = {self.kind(x) for x in t.args[1:]}
            return "matrix" if "matrix" in ks else "vector" if ks == {"vector"} else None
        if c.endswith("mutual_info_regression"):
            return "vector"
        if t.op == "rep":
            return "vector"
        if t.op == "phi":
            ks = {self.kind(x) for x in t.args[1:]} - {None}
            return ks.pop() if len(ks) == 1 else None
        if t.op == "red" and len(t.args) > 2:
            r = self.peel(t.args[1])
            if isinstance(r, Term) and r.op == "rows":
                x = r.args[0]
                return self.kind(x.args[0] if isinstance(x, Term) and x.op == "list" else x)
        return None

    def flip(self, f):
        """the transpose of a factor"""
        if isinstance(f, tuple):
            return f
        if self.trans(f) is not None:
            return self.trans(f)
        if self.is_diag(f) or self.mat(f) in ("pd", "psd", "sym"):
            return f
        return ("T", f)

    def same(self, x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            return x[0] == y[0] and x[1] is y[1]
        if isinstance(x, tuple) or isinstance(y, tuple):
            d, f = (x, y) if isinstance(x, tuple) else (y, x)
            return d[0] == "D" and self.is_diag(f) and self.peel(f.args[-1]) is d[1]
        return x is y

    def middle(self, f):
        if isinstance(f, tuple):
            f = f[1]
            v = self.vec(f)
            return {"pos": "pd", "nonneg": "psd", "any": "sym"}.get(v)
        return self.mat(f)

    def regular(self, f):
        """factors that are invertible"""
        if isinstance(f, tuple):
            return f[0] == "D" and self.vec(f[1]) == "pos"
        f = self.trans(f) or f
        return self.orth(f) or self.mat(f) == "pd"

    def orth(self, f):
        return self.call(f).endswith("linalg.eigh") and f.args[1] == 1

    def known(self, f):
        if isinstance(f, tuple):
            return f[0] == "D" and self.vec(f[1]) is not None or f[0] == "T"
        f = self.trans(f) or f
        return self.orth(f) or self.mat(f) is not None or self.is_diag(f)

    def product(self, fs):
        n = len(fs)
        if n == 1:
            return self.middle(fs[0])
        pal = all(self.same(fs[i], self.flip(fs[n - 1 - i])) for i in range(n // 2))
        if pal:
            if n % 2 == 0:
                return "pd" if all(self.regular(f) for f in fs) else "psd"
            m = self.middle(fs[n // 2])
            if m == "pd" and not all(self.regular(f) for f in fs[:n // 2]):
                return "psd"
            return m
        if all(isinstance(f, tuple) and f[0] == "D" or self.is_diag(f) for f in fs):
            vs = [self.middle(f) for f in fs]
            return None if None in vs else "pd" if set(vs) == {"pd"} else \
                "sym" if "sym" in vs else "psd"
        if all(self.known(f) for f in fs):
            self.bad("a product of matrices that is not the same from both sides is not symmetric")
            return "asym"
        return None

    def _mat(self, t):
        op, a = t.op, t.args
        c = self.call(t)
        if op == "m" and a[0] == "get_mahalanobis_matrix":
            return "psd"
        if op in ("eye", "identity") or c in ("eye", "numpy.eye", "identity"):
            return "pd"
        if op == "diag":
            v = self.vec(a[0])
            return {"pos": "pd", "nonneg": "psd", "any": "sym"}.get(v)
        if c in ("cov", "numpy.cov"):
            return "psd"
        if c in ("corrcoef", "numpy.corrcoef"):
            return "psd"
        if c in ("outer", "numpy.outer") and len(a) == 3 and self.peel(a[1]) is self.peel(a[2]):
            return "psd"
        if c.endswith("linalg.inv"):
            m = self.mat(a[-1])
            if m == "psd" or m == "sym":
                self.bad("a matrix that can be singular is inverted")
                return "sym"
            return m
        if c.endswith("linalg.pinv"):
            return {"pd": "pd"}.get(self.mat(a[-1]), self.mat(a[-1]))
        if op in ("dot", "matmul") or c.endswith("multi_dot") or self.scaled(t) is not None:
            return self.product(self.factors(t))
        if op == "T":
            return self.mat(a[0])
        if op == "u" and a[0] == "+" and len(a) == 3:
            x, y = self.peel(a[1]), self.peel(a[2])
            if self.trans(x) is y or self.trans(y) is x:
                m = self.mat(y if self.trans(x) is y else x)
                return m if m in GOOD else "sym"
            mx, my = self.mat(x), self.mat(y)
            if mx is None or my is None:
                return None
            if "asym" in (mx, my):
                return "asym"
            if "sym" in (mx, my):
                return "sym"
            return "pd" if "pd" in (mx, my) else "psd"
        if op == "u" and a[0] in ("*", "/") and len(a) == 3:
            for x, s in ((a[1], a[2]), (a[2], a[1])):
                if num(s) is not None and num(s) > 0 and (a[0] == "*" or s is a[2]):
                    return self.mat(x)
            if a[0] == "*" and self.kind(a[1]) == self.kind(a[2]) == "matrix":
                ms = {self.mat(a[1]), self.mat(a[2])}
                return "psd" if ms <= {"pd", "psd"} else None
            return None
        if op == "red" and a[0] in ("mean", "sum", "average") and (len(a) < 3 or num(a[2]) == 0):
            r = self.peel(a[1])
            xs = []
            if isinstance(r, Term) and r.op in ("rows", "list", "tuple"):
                xs = r.args
                if len(xs) == 1 and isinstance(xs[0], Term) and xs[0].op in ("list", "tuple"):
                    xs = xs[0].args
            if not xs:
                return None
            ms = [self.mat(x) for x in xs]
            if None in ms:
                return None
            return "asym" if "asym" in ms else "sym" if "sym" in ms else \
                "pd" if set(ms) == {"pd"} else "psd"
        if op in ("const2", "zeros"):
            return "psd" if num(a[0]) == 0 else None
        if op == "setitem" and len(a) == 3:
            i = a[1]
            if isinstance(i, Term) and i.op == "tuple" and \
                    all("diag_indices" in self.call(x) for x in i.args):
                m = self.mat(a[0])
                return "sym" if m in ("pd", "psd", "sym") else m
            if isinstance(i, Term) and i.op == "tuple" and i.args and \
                    all("triu_indices" in self.call(x) or "tril_indices" in self.call(x)
                        for x in i.args):
                return "asym"
            return None
        if op == "phi":
            ms = [self.mat(x) for x in a[1:]]
            for k in ("asym", None, "sym", "psd"):
                if k in ms:
                    return k
            return "pd"
        return None
