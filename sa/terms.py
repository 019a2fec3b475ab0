"""Hash-consed symbolic terms (global value numbering) used by the abstract
interpreter.  Two AVs carrying the same Term object hold the same runtime
value on every execution that reaches the point where both are live."""


class Term:
    __slots__ = ("op", "args", "uid", "_vars")

    def __init__(self, op, args, uid):
        self.op = op
        self.args = args
        self.uid = uid
        self._vars = None

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid


_table = {}


def T(op, *args):
    key = (op,) + tuple((type(a).__name__, a) if not isinstance(a, Term) else a
                        for a in args)
    t = _table.get(key)
    if t is None:
        t = Term(op, args, len(_table))
        _table[key] = t
    return t


def reset():
    _table.clear()


def show(t, depth=4):
    if not isinstance(t, Term):
        return repr(t)
    if t.op == "const":
        return repr(t.args[0])
    if t.op in ("arg", "param", "sym"):
        return ".".join(str(a) for a in t.args)
    if t.op == "lin":
        parts = []
        for atom, co in t.args[1]:
            s = show(atom, depth - 1)
            parts.append(s if co == 1 else f"{co}*{s}")
        if t.args[0] != 0 or not parts:
            parts.append(str(t.args[0]))
        return "(" + " + ".join(parts) + ")"
    if depth <= 0:
        return f"{t.op}(..)"
    return t.op + "(" + ", ".join(show(a, depth - 1) for a in t.args) + ")"


# --------------------------------------------------------------- constants
def const(v):
    try:
        hash(v)
    except TypeError:
        return T("const", repr(v))
    return T("const", v)


def is_const(t):
    return isinstance(t, Term) and (t.op == "const" or (t.op == "lin" and not t.args[1]))


def const_value(t):
    if t.op == "const":
        return t.args[0]
    if t.op == "lin" and not t.args[1]:
        return t.args[0]
    raise ValueError


# ------------------------------------------------------- linear normal form
def lin_parts(t):
    """(constant, {atom: coeff}) of a numeric term"""
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    if t.op == "const" and isinstance(t.args[0], (int, float)) \
            and not isinstance(t.args[0], bool):
        return t.args[0], {}
    if t.op == "const" and isinstance(t.args[0], bool):
        return int(t.args[0]), {}
    return 0, {t: 1}


def mk_lin(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return T("lin", c, tuple(sorted(d.items(), key=lambda p: p[0].uid)))


def lin_add(a, b, k=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, v in db.items():
        d[t] = d.get(t, 0) + k * v
    return mk_lin(ca + k * cb, d)


def lin_sub(a, b):
    return lin_add(a, b, -1)


def lin_scale(a, k):
    c, d = lin_parts(a)
    return mk_lin(c * k, {t: v * k for t, v in d.items()})


def num_mul(a, b):
    if is_const(a) and isinstance(const_value(a), (int, float)):
        return lin_scale(b, const_value(a))
    if is_const(b) and isinstance(const_value(b), (int, float)):
        return lin_scale(a, const_value(b))
    fs = []
    for t in (a, b):
        if t.op == "mul":
            fs.extend(t.args)
        else:
            fs.append(t)
    return T("mul", *sorted(fs, key=lambda t: t.uid))


# --------------------------------------------------------------- traversal
def leaves(t, seen=None):
    """all sub-terms (including t)"""
    stack = [t]
    seen = set() if seen is None else seen
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def subst(t, mapping, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(subst(x, mapping, memo) for x in t)
        return t
    if t in mapping:
        return mapping[t]
    if t in memo:
        return memo[t]
    memo[t] = t
    if t.op == "lin":
        r = const(t.args[0])
        for a, k in t.args[1]:
            r = lin_add(r, lin_scale(subst(a, mapping, memo), k))
    else:
        na = tuple(subst(a, mapping, memo) for a in t.args)
        same = all(x is y or x == y for x, y in zip(na, t.args))
        r = t if same else T(t.op, *na)
    memo[t] = r
    return r
