"""Evaluation of result terms on witness vectors: the symbolic summary of a function (never the
function itself) is compared with a reference formula on assignments of its arguments."""
import math
import numpy as np
from sa.terms import Term, is_const, const_value, show
from sa.lengths import conds_of
from checks.domains import Unknown


class Undefined(Exception):
    """the witness lies outside the domain of the formula"""


def log_loss(t, p):
    t, p = np.asarray(t, float), np.asarray(p, float)
    if not set(np.unique(t)) <= {0.0, 1.0}:
        return math.nan
    e = np.finfo(float).eps
    p = np.clip(p, e, 1 - e)
    return float(-np.mean(t * np.log(p) + (1 - t) * np.log(1 - p)))


def auc(t, p):
    t, p = np.asarray(t, float), np.asarray(p, float)
    if len(np.unique(t)) != 2:
        return math.nan
    hi = t == t.max()
    a, b = p[hi], p[~hi]
    w = (a[:, None] > b[None, :]).sum() + 0.5 * (a[:, None] == b[None, :]).sum()
    return float(w / (len(a) * len(b)))


METRICS = {
    "log_loss": log_loss, "roc_auc_score": auc,
    "brier_score_loss": lambda t, p: float(np.mean((np.asarray(p) - np.asarray(t)) ** 2)),
    "mean_squared_error": lambda t, p: float(np.mean((np.asarray(p) - np.asarray(t)) ** 2)),
}

U1 = {"neg": lambda a: -a, "log": np.log, "sqrt": np.sqrt, "abs": np.abs, "exp": np.exp,
      "floor": np.floor, "ceil": np.ceil, "trunc": np.trunc, "rint": np.rint, "sign": np.sign,
      "log2": np.log2, "log10": np.log10, "square": np.square, "invert": np.logical_not,
      "isnan": np.isnan, "isfinite": np.isfinite, "log1p": np.log1p, "absolute": np.abs,
      "negative": lambda a: -a, "round": np.round, "logical_not": np.logical_not}
U2 = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
      "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b,
      "**": lambda a, b: a ** b, "add": np.add, "subtract": np.subtract,
      "multiply": np.multiply, "divide": np.divide, "true_divide": np.divide,
      "power": np.power, "minimum": np.minimum, "maximum": np.maximum,
      "logical_and": np.logical_and, "logical_or": np.logical_or, "equal": np.equal,
      "not_equal": np.not_equal, "greater": np.greater, "less": np.less,
      "greater_equal": np.greater_equal, "less_equal": np.less_equal,
      "floor_divide": np.floor_divide}
CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b,
       "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}
RED = {"sum": np.sum, "mean": np.mean, "max": np.max, "min": np.min, "amax": np.max,
       "amin": np.min, "std": np.std, "var": np.var, "prod": np.prod, "all": np.all,
       "any": np.any, "median": np.median, "count_nonzero": np.count_nonzero}


class NumEval:
    def __init__(self, env):
        self.env = env          # ("arg", name) -> value
        self.memo = {}

    def ev(self, t):
        if not isinstance(t, Term):
            return t
        if t in self.memo:
            return self.memo[t]
        with np.errstate(all="ignore"):
            v = self._ev(t)
        self.memo[t] = v
        return v

    def cond(self, t, pol):
        v = self.ev(t)
        if isinstance(v, np.ndarray) and v.size != 1:
            raise Unknown
        return bool(v) == pol

    def lit(self, t):
        return t is None or isinstance(t, Term) and is_const(t) and const_value(t) is None

    def _ev(self, t):
        op, a = t.op, t.args
        if is_const(t):
            return const_value(t)
        if op in ("arg", "sym"):
            if a[-1] in self.env:
                return self.env[a[-1]]
            raise Unknown
        if op == "lin":
            r = a[0]
            for x, k in a[1]:
                r = r + k * self.ev(x)
            return r
        if op == "mul":
            r = 1
            for x in a:
                r = r * self.ev(x)
            return r
        if op == "i64":
            v = self.ev(a[0])
            if isinstance(v, int):
                v = (v + 2 ** 63) % 2 ** 64 - 2 ** 63
            return v
        if op == "div":
            x, y = self.ev(a[0]), self.ev(a[1])
            if np.ndim(y) == 0 and y == 0:
                raise Undefined
            return x / y
        if op == "cnt":
            return int(np.sum(self.ev(a[0]).astype(bool)))
        if op == "len":
            return len(self.ev(a[0]))
        if op == "ncols":
            return np.shape(self.ev(a[0]))[1]
        if op in ("band", "and"):
            r = self.ev(a[0])
            for x in a[1:]:
                if op == "and" and not np.all(r):
                    return False
                r = np.logical_and(r, self.ev(x))
            return r
        if op in ("bor", "or"):
            r = self.ev(a[0])
            for x in a[1:]:
                if op == "or" and np.all(r):
                    return True
                r = np.logical_or(r, self.ev(x))
            return r
        if op == "not":
            return np.logical_not(self.ev(a[0]))
        if op == "isnone":
            return self.ev(a[0]) is None
        if op in CMP:
            x, y = self.ev(a[0]), self.ev(a[1])
            if x is None or y is None:
                if op == "eq":
                    return x is y
                if op == "ne":
                    return x is not y
                raise Undefined
            return CMP[op](x, y)
        if op in ("int",):
            v = self.ev(a[-1])
            return v.astype(int) if isinstance(v, np.ndarray) else int(v)
        if op in ("float",):
            v = self.ev(a[-1])
            return v.astype(float) if isinstance(v, np.ndarray) else float(v)
        if op == "bool":
            return bool(self.ev(a[-1]))
        if op == "astype":
            v = self.ev(a[0])
            k = str(a[1]) if len(a) > 1 else ""
            if "int" in k:
                return v.astype(int)
            if "bool" in k:
                return v.astype(bool)
            return v.astype(float)
        if op in ("copy", "asarray", "array"):
            return self.ev(a[0])
        if op == "nan":
            return math.nan
        if op == "inf":
            return math.inf
        if op in ("min", "max"):
            return {"min": min, "max": max}[op](self.ev(x) for x in a)
        if op == "phi":
            for i, x in enumerate(a[1:]):
                cs = conds_of(a[0], i, len(a) - 1)
                if not cs:
                    raise Unknown
                if all(self.cond(c, p) for c, p in cs):
                    return self.ev(x)
            raise Unknown
        if op == "where":
            return np.where(self.ev(a[0]))[0]
        if op == "where3" or op == "u" and a[0] == "where3":
            x = a if op == "where3" else a[1:]
            return np.where(*[self.ev(v) for v in x])
        if op == "slc3":
            return self.ev(a[0])[slice(*[None if self.lit(x) else int(self.ev(x))
                                         for x in a[1:]])]
        if op == "slice":
            return slice(*[None if self.lit(x) else int(self.ev(x)) for x in a])
        if op in ("list", "tuple", "setof", "rows", "setlit"):
            if op in ("setof", "rows") and len(a) == 1 and isinstance(a[0], Term) and \
                    a[0].op in ("list", "tuple"):
                return self.ev(a[0]) if op == "setof" else np.array(self.ev(a[0]), float)
            return [self.ev(x) for x in a]
        if op in ("in", "notin"):
            x, xs = self.ev(a[0]), self.ev(a[1])
            if not isinstance(xs, list):
                raise Unknown(show(t, 2))
            return any(x is v or v is not None and x is not None and x == v
                       for v in xs) == (op == "in")
        if op == "slc":
            return self.ev(a[0])[slice(*[None if self.lit(x) else int(self.ev(x))
                                         for x in a[1:]])]
        if op in ("idx", "item"):
            i = self.ev(a[1])
            return self.ev(a[0])[i]
        if op == "setitem" and len(a) == 3:
            b = self.ev(a[0])
            v = self.ev(a[2])
            b = np.array(b) if not (np.asarray(b).dtype == bool and not isinstance(v, bool)) \
                else np.array(b)
            b[self.ev(a[1])] = v
            return b
        if op in ("rep", "full") and len(a) == 2:
            return np.full(self.ev(a[1]), self.ev(a[0]))
        if op == "cat":
            return np.concatenate([np.atleast_1d(self.ev(x)) for x in a])
        if op == "u":
            xs = [self.ev(x) for x in a[1:]]
            if len(xs) == 1 and a[0] in U1:
                v = float(xs[0]) if isinstance(xs[0], int) and abs(xs[0]) >= 2 ** 63 else xs[0]
                if a[0] in ("neg", "negative") and isinstance(v, np.ndarray) and v.dtype == bool:
                    raise Unknown
                return U1[a[0]](v)
            if len(xs) == 2 and a[0] in U2:
                if a[0] in ("/", "//", "%", "divide") and np.ndim(xs[1]) == 0 and xs[1] == 0:
                    raise Undefined
                return U2[a[0]](*xs)
            if a[0] == "clip" and len(xs) == 3:
                return np.clip(*xs)
            raise Unknown(show(t, 2))
        if op == "b**":
            return self.ev(a[0]) ** self.ev(a[1])
        if op == "red" and a[0] in RED:
            x = self.ev(a[1])
            if len(a) == 2 or len(a) == 3 and is_const(a[2]) and const_value(a[2]) in (0, -1) \
                    and np.ndim(x) == 1:
                return RED[a[0]](x)
            raise Unknown
        if op == "call":
            return self.call(a)
        raise Unknown(show(t, 2))

    def call(self, a):
        name = str(a[0]).split(".")[-1]
        pos = [x for x in a[1:] if not (isinstance(x, Term) and x.op == "k")]
        kw = {x.args[0]: x.args[1] for x in a[1:] if isinstance(x, Term) and x.op == "k"}
        if name in METRICS:
            names = ["y_true", "y_pred" if name != "roc_auc_score" else "y_score"]
            alias = {"y_prob": names[1], "y_proba": names[1]}
            d = dict(zip(names, pos))
            for k, v in kw.items():
                d[alias.get(k, k)] = v
            if set(d) != set(names):
                raise Unknown
            return METRICS[name](self.ev(d[names[0]]), self.ev(d[names[1]]))
        if name == "argsort" and len(pos) == 1 and set(kw) <= {"kind"}:
            return np.argsort(self.ev(pos[0]), kind="stable")
        if name == "flip" and len(pos) == 1 and not kw:
            return self.ev(pos[0])[::-1]
        if name in U1 and len(pos) == 1 and not kw:
            return U1[name](self.ev(pos[0]))
        if name in U2 and len(pos) == 2 and not kw:
            return U2[name](self.ev(pos[0]), self.ev(pos[1]))
        if name == "isclose" and len(pos) == 2 and not kw:
            return np.isclose(self.ev(pos[0]), self.ev(pos[1]))
        raise Unknown


def close(a, b):
    if a is None or b is None:
        return a is b
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
