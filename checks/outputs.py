"""Shared by C08, C09, C10: what the terms of a returned dataset mean."""
from sa.terms import T, Term, const, is_const, const_value, lin_parts, lin_add, lin_sub, leaves
from sa.lengths import conds_of, norm_cond, contradictory
from sa import extmodels

AX, AY = T("arg", "X"), T("arg", "y")


def label_role(t):
    """'min' / 'maj' / ('const', v) / None for a label-valued scalar term"""
    if is_const(t):
        return ("const", const_value(t))
    if t.op == "phi" and len(t.args) == 3 and isinstance(t.args[0], Term):
        key, a, b = t.args
        if key.op not in ("if", "ifnot"):
            return None
        c, pol = norm_cond(key.args[0], key.op == "if")
        if not pol:
            a, b = b, a
        if c.op not in ("lt", "le"):
            return None
        x, y = c.args
        ix, iy = _count_index(x), _count_index(y)
        ia, ib = _unique_index(a), _unique_index(b)
        if None in (ix, iy, ia, ib) or {ix[0], iy[0], ia[0], ib[0]} != {ix[0]}:
            return None
        if (ia[1], ib[1]) == (ix[1], iy[1]):
            return "min"
        if (ia[1], ib[1]) == (iy[1], ix[1]):
            return "maj"
        return None
    if t.op == "row" and len(t.args) == 2 and t.args[0].op == "unique":
        i = t.args[1]
        if isinstance(i, Term) and i.op == "red" and i.args[1].op == "ucounts" and \
                i.args[1].args[0] is t.args[0].args[0]:
            if i.args[0] in ("argmin", "nanargmin"):
                return "min"
            if i.args[0] in ("argmax", "nanargmax"):
                return "maj"
    return None


def _count_index(t):
    """(labels, i) if t is the number of occurrences of the i-th distinct label"""
    if t.op == "row" and len(t.args) == 2 and t.args[0].op == "ucounts" and is_const(t.args[1]):
        return t.args[0].args[0], const_value(t.args[1])
    if t.op == "cnt" and t.args[0].op == "eq":
        a, b = t.args[0].args
        for p, q in ((a, b), (b, a)):
            u = _unique_index(q)
            if u is not None and u[0] is p:
                return u
    return None


def _unique_index(t):
    if t.op == "row" and len(t.args) == 2 and t.args[0].op == "unique" and is_const(t.args[1]):
        return t.args[0].args[0], const_value(t.args[1])
    return None


def label_mask(t):
    """role of the class selected by a mask over y, or None"""
    neg = False
    while t.op == "not":
        t = t.args[0]
        neg = not neg
    if t.op == "eq" and len(t.args) == 2:
        a, b = t.args
        for p, q in ((a, b), (b, a)):
            if p is AY:
                r = label_role(q)
                if r in ("min", "maj"):
                    return r if not neg else ("maj" if r == "min" else "min")
    return None


def arms(t, conds=None, limit=64):
    """alternatives of a (possibly nested) join at the top of an array term"""
    out = []

    def go(t, cs):
        if len(out) > limit:
            return
        if t.op == "phi" and isinstance(t.args[0], Term) and label_role(t) is None:
            for i, a in enumerate(t.args[1:]):
                nc = dict(cs)
                ok = True
                for c, p in conds_of(t.args[0], i, len(t.args) - 1):
                    c, p = norm_cond(c, p)
                    if nc.get(c, p) != p:
                        ok = False
                        break
                    nc[c] = p
                if ok and not contradictory(nc):
                    go(a, nc)
            return
        out.append((t, cs))
    go(t, dict(conds or {}))
    return out


def pairs(tx, ty):
    """consistent alternatives of the two returned terms"""
    for x, cs in arms(tx):
        for y, cs2 in arms(ty, cs):
            yield x, y, cs2


def parts(t):
    return list(t.args) if t.op == "cat" else [t]


def unscale(t):
    """strip a scaler round trip: inverse(S, cat(transform(S, X), ...)) -> parts"""
    if t.op == "m" and t.args[0] in ("inverse_transform",) and len(t.args) == 3:
        est, inner = t.args[1], t.args[2]
        if estimator_class(est) in SCALERS:
            res = []
            for p in parts(inner):
                if p.op == "m" and p.args[0] in ("transform", "fit_transform") and \
                        len(p.args) == 3 and p.args[1] is est:
                    res.append(p.args[2])
                else:
                    q = push_unscale(p, est)
                    res.append(q)
            return res
    return parts(t)


SCALERS = {"sklearn.preprocessing.StandardScaler", "sklearn.preprocessing.MinMaxScaler",
           "sklearn.preprocessing.RobustScaler", "sklearn.preprocessing.MaxAbsScaler"}


def push_unscale(p, est):
    """inverse of est applied to a row selection of transformed data"""
    if p.op in ("idx", "del", "slc") and isinstance(p.args[0], Term):
        q = p.args[0]
        if q.op == "m" and q.args[0] in ("transform", "fit_transform") and len(q.args) == 3 \
                and q.args[1] is est:
            return T(p.op, q.args[2], *p.args[1:])
    return T("unscaled", est, p)


def estimator_class(t):
    for _ in range(6):
        if t.op in ("fit", "refit"):
            t = t.args[0]
        elif t.op == "new":
            return t.args[0]
        else:
            return None
    return None


def row_source(t, base):
    """how a part is drawn from the caller's array `base`:
    'all', ('sel', selector) , 'new' (not from base), or None (unknown)"""
    if t is base:
        return "all"
    if t.op in ("idx", "gidx") and t.args[0] is base:
        return ("sel", t.args[1])
    if t.op == "del" and t.args[0] is base:
        return ("del", t.args[1])
    if t.op == "slc" and t.args[0] is base:
        return ("slc",) + t.args[1:]
    return None


def rep_value(t):
    """the label a constant block of labels holds (a term), or None"""
    if t.op == "rep":
        return t.args[0]
    if t.op == "rows" and t.args and isinstance(t.args[0], Term):
        v = t.args[0]
        if v.op == "lmul" and v.args[0].op == "list" and len(v.args[0].args) == 1:
            return v.args[0].args[0]
        if v.op == "list" and v.args and all(a is v.args[0] for a in v.args):
            return v.args[0]
    if t.op == "row1" and t.args[0].op == "const":
        return t.args[0]
    if t.op in ("astype", "arrof") and isinstance(t.args[0], Term):
        return rep_value(t.args[0])
    if t.op == "u" and t.args[0] in ("*", "+") and len(t.args) == 3:
        # ones(n) * label, zeros(n) + label
        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            v = rep_value(a)
            if v is not None and is_const(v) and label_role(b) in ("min", "maj") and \
                    const_value(v) == (1 if t.args[0] == "*" else 0):
                return b
    return None


def part_len(t):
    if t is AX or t is AY:
        return T("len", AX)
    if t.op == "rep":
        return t.args[1]
    if t.op == "unscaled":
        return part_len(t.args[1])
    return extmodels.PART_LEN.get(t)


def walk(xs, ys):
    """aligned (x part, y part) pairs; second result: whether the walk is complete"""
    out = []
    i = j = 0
    rx = ry = None
    while i < len(xs) and j < len(ys):
        lx = part_len(xs[i]) if rx is None else rx
        ly = part_len(ys[j]) if ry is None else ry
        if xs[i].op in ("m", "unscaled") and lx is None and i == 0:
            return out, False
        same = lx is not None and lx is ly
        if not same and len(xs) - i == 1 and len(ys) - j == 1:
            same = True
        if same or (xs[i] is AX and ys[j] is AY):
            out.append((xs[i], ys[j]))
            i, j, rx, ry = i + 1, j + 1, None, None
            continue
        if lx is None or ly is None:
            return out, False
        d = lin_sub(ly, lx)
        c, at = lin_parts(d)
        if rep_value(ys[j]) is not None and c >= 0 and all(k > 0 for k in at.values()):
            out.append((xs[i], ys[j]))
            i, rx, ry = i + 1, None, d
            continue
        d = lin_sub(lx, ly)
        c, at = lin_parts(d)
        if c >= 0 and all(k > 0 for k in at.values()) and rep_value(ys[j]) is not None:
            out.append((xs[i], ys[j]))
            j, ry, rx = j + 1, None, d
            continue
        return out, False
    return out, i == len(xs) and j == len(ys)
