"""Row sets: which rows the entries of an array belong to, and which rows the indices in it name.

of(t)   - the row sets an array (or a list) may be aligned with,
names(t) - the row sets the integers of a value may be positions in,
cols(t) - the row sets the columns of a matrix are aligned with (distance matrices).

A row set is a tuple: ("data",) the rows of the dataset, ("sel", s, m) those of s a mask m keeps,
("cat", s, ...) one after the other, ("fit", e) the prototypes of a fitted model, ("own", t) rows
of no known relation to others.  The empty frozenset stands for not known."""
from sa.terms import T, Term, is_const, const_value, lin_parts
from checks.outputs import AX, AY, label_role

DATA = ("data",)
NO = frozenset()
MASKS = {"eq", "lt", "le", "ne", "not", "band", "bor", "ge", "gt", "in", "xor"}
SAME = {"copy", "astype", "nax", "reshape1", "arrof", "asarray", "setlen", "setitem", "upd", "float",
        "nan_to_num", "part"}
PROTO = {"cluster_centers_", "means_", "weights"}
KEEP_DRAW = {"choice", "permutation"}
ELEMENTWISE = {"+", "-", "*", "/", "//", "%", "**", "abs", "fabs", "sqrt", "exp", "log", "clip",
               "minimum", "maximum", "floor", "ceil", "rint", "round", "neg", "nan_to_num", "real",
               "square", "sign", "power", "isnan"}
MAXSET = 12
# arrays that are rows of their own when nothing is known of them
OWN = {"idx", "cat", "m", "eattr", "lphi", "comp", "el", "rows", "T", "gidx", "phi", "call", "rowsof",
       "seq", "lelem", "nn", "where", "flat", "flat?", "append", "attr"}


# decompositions whose second part has the vectors in its columns, one per entry of the first
EIG = {"linalg.eig", "linalg.eigh", "scipy.linalg.eig", "scipy.linalg.eigh"}


def is_part(x, n):
    return x == n or isinstance(x, Term) and is_const(x) and const_value(x) == n


def tessellated(t):
    """the points a tessellation was made of"""
    if t.op == "new" and len(t.args) > 1 and isinstance(t.args[1], Term) and \
            str(t.args[0]) in ("scipy.spatial.Voronoi", "scipy.spatial.Delaunay"):
        return t.args[1]
    return None


def is_mask(t):
    return isinstance(t, Term) and t.op in MASKS


class Rows:
    def __init__(self, it):
        self.it = it
        self.memo = {}
        self.busy = set()
        self.cut = False

    # --------------------------------------------------------------- driver
    def ask(self, what, t):
        if not isinstance(t, Term):
            return NO
        k = (what, t)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return None
        self.busy.add(k)
        try:
            r = getattr(self, "_" + what)(t)
        finally:
            self.busy.discard(k)
        if r is not None and len(r) > MAXSET:
            r = NO
        if not self.busy or r:
            self.memo[k] = r or NO
        return r or NO

    def of(self, t):
        r = self.ask("of", t) or NO
        if not r and isinstance(t, Term) and t.op in OWN and ("of", t) not in self.busy:
            return frozenset([("own", t)])
        return r

    def names(self, t):
        return self.ask("names", t) or NO

    def cols(self, t):
        return self.ask("cols", t) or NO

    def all(self, what, ts):
        """union over alternatives; not known when one of them is not"""
        out = NO
        for x in ts:
            if not isinstance(x, Term) or x.op in ("none", "emptylist") or x.op == "list" and \
                    not x.args:
                continue
            r = self.ask(what, x)
            if (what, x) in self.busy:
                continue            # the value itself, around a loop
            if not r:
                return NO
            out |= r
        return out

    def alternatives(self, t):
        if t in self.it.elem_of:
            return list(self.it.elem_of[t])
        if t.op == "lphi" and t in self.it.phi_def:
            return [x.term for x in self.it.phi_def[t]]
        if t.op == "lphi" and t in self.it.phi_late:
            return [self.it.phi_late[t].term]
        if t.op == "phi" and label_role(t) is None:
            return list(t.args[1:])
        return None

    # ----------------------------------------------------------------- rows
    def sel(self, s, m):
        while m.op in ("copy", "astype", "arrof"):
            m = m.args[0]
        return frozenset(("sel", x, m) for x in s)

    def counted(self, n):
        """the row set a number of rows counts"""
        if not isinstance(n, Term):
            return NO
        if n.op == "cnt" and isinstance(n.args[0], Term):
            return self.sel(self.of(n.args[0]), n.args[0])
        if n.op == "len" and isinstance(n.args[0], Term):
            return self.of(n.args[0])
        lp = lin_parts(n)
        if lp is not None and not lp[0] and sorted(lp[1].values()) == [-1, 1]:
            # the rows of a set that a mask does not keep
            whole, gone = sorted(lp[1], key=lambda x: -lp[1][x])
            if whole.op in ("cnt", "len") and gone.op == "cnt" and isinstance(gone.args[0], Term):
                s, m = self.counted(whole), gone.args[0]
                if s and self.of(m) == s:
                    return self.sel(s, m.args[0] if m.op == "not" else T("not", m))
        return NO

    def _of(self, t):
        op, a = t.op, t.args
        if t is AX or t is AY:
            return frozenset([DATA])
        alts = self.alternatives(t)
        if alts is not None:
            return self.all("of", alts)
        if op in SAME and a:
            return self.of(a[0])
        if op in MASKS:
            return self.first(a)
        if op == "idx" and len(a) == 2 and isinstance(a[1], Term):
            if self.masklike(a[1]):
                return self.sel(self.of(a[0]), a[1])
            return self.of(a[1])
        if op == "rowsof" and isinstance(a[0], Term):
            if self.masklike(a[0]):
                return self.sel(self.of(a[0]), a[0])
            return self.of(a[0])
        if op == "gidx" and len(a) == 2 and isinstance(a[1], Term):
            if a[1].op == "tuple":
                f = a[1].args[0]
                if isinstance(f, Term) and f.op == "slice" and self.full(f):
                    return self.of(a[0])
                return NO
            return NO
        if op == "cols" and a:
            return self.of(a[0])
        if op == "del" and len(a) == 2 and isinstance(a[1], Term):
            return frozenset(("sel", x, T("kept", a[1])) for x in self.of(a[0]))
        if op == "nn":
            return self.of(a[1])
        if op == "pdist":
            return self.of(a[0])
        if op in ("row", "item", "el") and len(a) > 1:
            if op == "el" and len(a) > 2:
                return self.of(a[2])
            return self.cols(a[0]) if op != "el" else NO
        if op == "T":
            return self.cols(a[0])
        if op == "m" and len(a) >= 3 and a[0] in ("transform", "fit_transform", "predict",
                                                  "inverse_transform", "predict_proba",
                                                  "decision_function", "fit_predict",
                                                  "kneighbors", "radius_neighbors"):
            i = 3 if a[1] in ("ind", "dist") else 2
            return self.of(a[i]) if len(a) > i else NO
        if op == "eattr" and len(a) == 2:
            if a[1] == "labels_":
                f = self.fitted(a[0])
                return self.of(f) if f is not None else NO
            if a[1] in PROTO:
                return frozenset([("fit", a[0])])
            return NO
        if op == "u" and a[0] in ELEMENTWISE:
            return self.first(a[1:])
        if op == "red" and len(a) > 2 and is_const(a[2]):
            if const_value(a[2]) == 1:
                return self.of(a[1])
            if const_value(a[2]) == 0:
                return self.cols(a[1])
            return NO
        if op == "cat":
            parts = [self.of(x) for x in a]
            if all(len(p) == 1 for p in parts):
                return frozenset([("cat",) + tuple(next(iter(p)) for p in parts)])
            if parts and len(parts[0]) == 1:
                return frozenset([("cat", next(iter(parts[0])), ("own", t))])
            return NO
        if op == "colcat" and a:
            return self.first(a)
        if op == "call" and a and a[0] == "scipy.linalg.circulant":
            return self.of(a[1])
        if op == "call" and a and a[0] in EIG and len(a) > 2:
            return frozenset([("eigen" if is_part(a[1], 0) else "coord", a[2])])
        if op == "attr" and len(a) == 2 and a[1] == "points" and tessellated(a[0]) is not None:
            return self.of(tessellated(a[0]))
        if op in ("rep", "const2", "zeros", "ones", "full") and len(a) > 1:
            return self.counted(a[1])
        if op == "arange":
            r = self.counted(a[1]) if self.zero(a[0]) and (len(a) < 3 or self.one(a[2])) else NO
            return r
        if op in ("range",):
            return self.counted(a[1]) if self.zero(a[0]) else NO
        if op == "seq" and len(a) == 2 and a[0] in ("list", "tuple", "array"):
            return self.of(a[1])
        if op == "comp" and len(a) == 3 and a[1].op == "src" and len(a[1].args) == 1 and \
                a[2].op == "filt" and not a[2].args:
            return self.of(a[1].args[0])
        if op in ("rows", "flat1") and len(a) == 1:
            return self.of(a[0])
        if op in ("list", "picks", "pick", "argsort", "shuf", "perm", "sorted", "unique", "slc",
                  "draw"):
            return frozenset([("own", t)])
        return NO

    def first(self, ts):
        """the row set of a combination of arrays entry by entry"""
        best = NO
        for x in ts:
            s = self.of(x) if isinstance(x, Term) else NO
            if s and not any(k[0] == "own" for k in s):
                return s
            best = best or s
        return best

    def full(self, s):
        return all(x is None or isinstance(x, Term) and x.op in ("none", "const") and
                   (x.op == "none" or x.args[0] is None) for x in s.args)

    def zero(self, x):
        return x == 0 or isinstance(x, Term) and is_const(x) and const_value(x) == 0

    def one(self, x):
        return x == 1 or isinstance(x, Term) and is_const(x) and const_value(x) == 1

    def masklike(self, t, d=6):
        if is_mask(t):
            return True
        if not d:
            return False
        alts = self.alternatives(t)
        if alts:
            return all(self.masklike(x, d - 1) for x in alts if isinstance(x, Term) and x is not t)
        if t.op in ("rep", "const2", "full"):
            return isinstance(t.args[0], bool) or isinstance(t.args[0], Term) and \
                is_const(t.args[0]) and isinstance(const_value(t.args[0]), bool)
        if t.op in ("setitem", "upd", "copy", "idx", "cols", "gidx", "slc"):
            return self.masklike(t.args[0], d - 1)
        if t.op == "rows" and len(t.args) == 1:
            return self.masklike(t.args[0], d - 1)
        if t.op == "comp":
            return is_mask(t.args[0])
        return False

    def fitted(self, e, d=6):
        if e.op == "phi" and d:
            fs = {self.fitted(x, d - 1) for x in e.args[1:]}
            return fs.pop() if len(fs) == 1 else None
        if e.op == "fit":
            xs = [x for x in e.args[2:] if isinstance(x, Term)]
            return xs[0] if xs else None
        return None

    # --------------------------------------------------------------- indices
    def _names(self, t):
        op, a = t.op, t.args
        alts = self.alternatives(t)
        if alts is not None:
            return self.all("names", alts)
        if op == "nn":
            return self.of(a[0])
        if op == "m" and len(a) >= 3 and a[0] in ("kneighbors", "radius_neighbors") and \
                a[1] == "ind":
            f = self.fitted(a[2]) if isinstance(a[2], Term) else None
            return self.of(f) if f is not None else NO
        if op == "rowsof" and isinstance(a[0], Term):
            return self.of(a[0]) if self.masklike(a[0]) else self.names(a[0])
        if op in ("idx", "row", "item", "gidx", "el", "cols", "slc", "copy", "astype", "sorted",
                  "shuf", "perm", "unique", "setdiff", "part", "arrof", "flatten", "ravel", "T",
                  "nax", "reshape", "del"):
            if op == "el" and len(a) > 2:
                return self.names(a[2])
            return self.names(a[0])
        if op == "row1" or op == "elem":
            return self.names(a[0])
        if op == "attr" and len(a) == 2 and a[1] in ("ridge_points", "simplices") and \
                tessellated(a[0]) is not None:
            return self.of(tessellated(a[0]))
        if op == "call" and a and a[0] == "scipy.linalg.circulant":
            return self.names(a[1])
        if op == "it":
            n = self.it.loop_count.get(a[0])
            return self.counted(n) if isinstance(n, Term) else NO
        if op == "arange" or op == "range":
            return self.counted(a[1]) if self.zero(a[0]) else NO
        if op in ("picks", "pick") and len(a) > 1:
            return self.counted(a[1]) or self.names(a[1])
        if op == "draw" and len(a) > 1:
            return self.drawn(t)
        if op == "seq" and len(a) == 2:
            return self.names(a[1])
        if op == "comp":
            return self.names(a[0])
        if op in ("rows", "list", "cat", "flat", "tuple"):
            return self.all("names", a)
        if op == "argsort" and isinstance(a[0], Term):
            return self.order(a)
        if op == "red" and a[0] in ("argmin", "argmax") and isinstance(a[1], Term):
            if len(a) == 2:
                return self.vector(a[1])
            if is_const(a[2]) and const_value(a[2]) == 1:
                return self.cols(a[1])
            return self.of(a[1]) if is_const(a[2]) and const_value(a[2]) == 0 else NO
        return NO

    def order(self, a):
        return self.vector(a[0]) if len(a) == 1 else NO

    def vector(self, t):
        """the rows the entries of a one-dimensional value belong to"""
        if t.op == "call" and t.args[0] in EIG and is_part(t.args[1], 0):
            return self.of(t)
        if t.op in ("u", "abs") and t.args[0] in ("real", "abs"):
            return self.vector(t.args[-1])
        if t.op in ("row", "item") or t.op == "cols" and len(t.args) > 1 and \
                isinstance(t.args[1], Term) and t.args[1].op in ("const", "it") or \
                t.op == "red" or is_mask(t):
            return self.of(t)
        return NO

    def drawn(self, t):
        out = NO
        for args in self.it.draw_args.get(t, ()):
            pos = [x for x in args if isinstance(x, Term)]
            if t.args[1] == "randint":
                hi = pos[0] if len(pos) == 1 else pos[1] if pos and self.zero(pos[0]) else None
                r = self.counted(hi) if hi is not None else NO
            elif t.args[1] in KEEP_DRAW and pos:
                r = self.counted(pos[0]) or self.names(pos[0])
            else:
                r = NO
            if not r:
                return NO
            out |= r
        return out

    def _cols(self, t):
        op, a = t.op, t.args
        alts = self.alternatives(t)
        if alts is not None:
            return self.all("cols", alts)
        if op == "call" and a and a[0] in EIG and len(a) > 2 and is_part(a[1], 1):
            return frozenset([("eigen", a[2])])
        if op == "pdist":
            return self.of(a[1] if len(a) > 1 and isinstance(a[1], Term) else a[0])
        if op in ("T", "row1"):
            return self.of(a[0])
        if op == "cat":
            for x in a:
                s = self.cols(x)
                if s:
                    return s
            return NO
        if op in ("idx", "copy", "astype", "setitem", "upd", "arrof"):
            return self.cols(a[0])
        if op == "u" and a[0] in ELEMENTWISE:
            for x in a[1:]:
                s = self.cols(x) if isinstance(x, Term) else NO
                if s:
                    return s
        return NO


# ------------------------------------------------------------------ relations
def same(a, b):
    return a == b


def inside(a, b):
    """a is a proper selection of b"""
    while a[0] == "sel":
        a = a[1]
        if a == b:
            return True
    return False


def root(a):
    while a[0] == "sel":
        a = a[1]
    return a


def roles(m):
    """the class a mask y == label selects"""
    if m.op == "not":
        r = roles(m.args[0])
        return r and (r[0], not r[1])
    if m.op == "eq" and len(m.args) == 2:
        for x, y in (m.args, m.args[::-1]):
            if x is AY:
                r = label_role(y)
                return (r, True) if r is not None else None
    return None


def disjoint(a, b):
    """selections of the same rows by opposite masks"""
    if a[0] != "sel" or b[0] != "sel" or a[1] != b[1]:
        return False
    m, n = a[2], b[2]
    if m.op == "not" and m.args[0] is n or n.op == "not" and n.args[0] is m:
        return True
    r, s = roles(m), roles(n)
    if r and s:
        return r[0] != s[0] and r[1] == s[1] or r[0] == s[0] and r[1] != s[1]
    return False


def fits(i, a):
    """positions in the row set i used on an array aligned with a: True, False or None"""
    if i == a or a[0] == "cat" and (a[1] == i or fits(i, a[1])):
        return True
    if i[0] == "own" or a[0] == "own":
        return None
    if {i[0], a[0]} == {"eigen", "coord"}:
        return False if i[1] is a[1] else None
    if i[0] == "sel" and root(i)[0] == "cat" and root(i)[1] == a:
        return False        # rows are gone from the array that begins with these
    if inside(i, a) or inside(a, i) or disjoint(i, a):
        return False
    if a[0] == "fit" and i[0] in ("data", "sel") or i[0] == "fit" and a[0] in ("data", "sel"):
        return False
    return None


def verdict(ns, os, rel=fits):
    if not ns or not os:
        return None
    rs = [rel(i, a) for i in ns for a in os]
    if all(r is True for r in rs):
        return True
    if all(r is False for r in rs):
        return False
    return None


def aligned(a, b):
    if a == b:
        return True
    r = fits(a, b)
    return r if r is False or r is None else None if a != b else True


def describe(s):
    if s == DATA:
        return "all samples"
    if s[0] == "sel":
        r = roles(s[2])
        what = {("min", True): "minority", ("maj", True): "majority", ("min", False): "majority",
                ("maj", False): "minority"}.get(r)
        if what and s[1] == DATA:
            return f"the {what} samples"
        from sa.terms import show
        return f"a selection ({show(s[2], 2)[:60]}) of {describe(s[1])}"
    if s[0] == "cat":
        return "the concatenation of " + " and ".join(describe(x) for x in s[1:])
    if s[0] == "fit":
        return "the prototypes of a fitted model"
    if s[0] == "eigen":
        return "the eigenvectors (columns)"
    if s[0] == "coord":
        return "the coordinates of the eigenvectors (rows)"
    return "other rows"
