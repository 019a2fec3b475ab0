"""Models of the Python builtins, numpy, scipy, scikit-learn and the standard
library, as far as the package under analysis uses them: for each callable its
result shape, whether the result shares memory with an argument, which
arguments it modifies, and its randomness."""
import ast
import builtins as _bi
import math

from .terms import (T, Term, show, const, is_const, const_value, lin_add, lin_sub,
                    lin_scale, num_mul, lin_parts, leaves)
from .values import (AV, HList, HDict, HObj, HExt, UNDEF, NONE, EMPTY, vconst,
                     vnum, vbool, vany, vstr, vtuple, weak, phi_ln, phi_term)

# --------------------------------------------------------------------------
EXC = {n for n in dir(_bi) if isinstance(getattr(_bi, n), type)
       and issubclass(getattr(_bi, n), BaseException)}
BUILTINS = set(dir(_bi))


def builtin_value(name):
    if name in BUILTINS:
        return AV("builtin", T("builtin", name), data=name)
    return vany(T("unresolved", name))


CONSTS = {"numpy.inf": math.inf, "numpy.infty": math.inf, "numpy.pi": math.pi,
          "numpy.e": math.e, "math.pi": math.pi, "math.e": math.e, "math.inf": math.inf,
          "numpy.newaxis": None}


def ext_const(nm):
    if nm in CONSTS:
        return vconst(CONSTS[nm])
    if nm in ("numpy.nan", "numpy.NaN", "math.nan"):
        return AV("num", T("nan"))
    return None


def construct_override(it, ci):
    return it.ext_override.get(ci.name)


# ------------------------------------------------------------------ helpers
def arr(it, term, node, nd=None, ln=None, data=None, locs=None):
    if locs is None:
        locs = frozenset([it.newloc(node, "a")])
    return AV("arr", term, locs, data, nd, ln)


def is_bool_mask(a):
    return a.kind == "arr" and a.data == "b"


BOOL_NAMES = ("bool", "numpy.bool_", "numpy.bool8", "numpy.bool", "?", "b1", "bool_")
INT_NAMES = ("int", "numpy.int64", "numpy.int32", "numpy.intp", "numpy.int_", "int64", "int32",
             "numpy.uint64", "numpy.uint32", "numpy.int8", "numpy.int16", "i8", "i4")


def dtype_data(args, kwargs, pos):
    """'b' / 'i' / None for the dtype argument of an allocation"""
    d = kwargs.get("dtype")
    if d is None and pos is not None and len(args) > pos:
        d = args[pos]
    if d is None:
        return None
    nm = d.data if d.kind in ("builtin", "mod") else (d.value if d.is_const else None)
    return "b" if nm in BOOL_NAMES else "i" if nm in INT_NAMES else None


INT_CALLS = {"argsort", "argwhere", "flatnonzero", "nonzero", "argpartition", "lexsort",
             "searchsorted", "digitize", "permutation", "setdiff1d", "intersect1d", "union1d"}
INT_METHODS = {"kneighbors", "randint", "permutation", "predict", "fit_predict"}


BOOL_OPS = {"band", "bor", "bxor", "not", "eq", "ne", "lt", "le", "gt", "ge", "and", "or", "in",
            "isin", "isnan"}


def maybe_bool(t, depth=0):
    """the index term may hold truth values rather than row numbers"""
    if depth > 30:
        return True
    o = t.op
    if o in BOOL_OPS or o in ("arg", "param", "attr", "opaque", "dictget", "rest"):
        return True
    if o in ("rep", "const2"):
        v = t.args[0]
        if is_const(v):
            return const_value(v) in (0, 1)
        return v.op in BOOL_OPS
    if o == "call":
        if t.args[0] in ("repeat", "take", "tile", "asarray", "array", "ravel", "sort"):
            return isinstance(t.args[1], Term) and maybe_bool(t.args[1], depth + 1)
        return t.args[0] not in INT_CALLS and t.args[0] not in (
            "sqrt", "linspace", "cumsum", "sum", "ceil", "floor", "round",
            "apply_along_axis", "scipy.signal.find_peaks_cwt")
    if o == "astype":
        return t.args[1] not in INT_NAMES and maybe_bool(t.args[0], depth + 1)
    if o == "setitem":
        return maybe_bool(t.args[0], depth + 1) or (
            isinstance(t.args[-1], Term) and is_const(t.args[-1]) and
            isinstance(const_value(t.args[-1]), bool))
    if o in ("idx", "slc", "cols", "del", "ravel", "flatten", "flat", "T", "arrof", "rows"):
        return isinstance(t.args[0], Term) and maybe_bool(t.args[0], depth + 1)
    if o in ("phi", "alt"):
        return any(maybe_bool(a, depth + 1) for a in t.args[1:] if isinstance(a, Term))
    if o == "cat":
        return any(maybe_bool(a, depth + 1) for a in t.args if isinstance(a, Term))
    return False


def cnt(m):
    """number of True entries of a mask term with known length"""
    return m


def mask_count(it, a):
    t = a.term
    return _cnt(t, it.ln(a))


def _cnt(t, ln):
    if t.op == "not":
        return lin_sub(ln, _cnt(t.args[0], ln))
    return T("cnt", t)


def logical_not(it, v):
    if v.kind == "arr":
        t = v.term.args[0] if v.term.op == "not" else T("not", v.term)
        return AV("arr", t, frozenset([("new", "not%d" % t.uid)]), v.data, v.nd, it.ln(v))
    if v.kind == "bool":
        if v.is_const:
            return vconst(~v.value)
        return vbool(v.term.args[0] if v.term.op == "not" else T("not", v.term))
    return vany(T("not", v.term))


def bcast(it, avs):
    arrs = [a for a in avs if a.kind == "arr"]
    if not arrs:
        return None, None
    nds = [a.nd for a in arrs]
    if any(n is None for n in nds):
        # unknown rank somewhere: keep length of a known 2-d operand if any
        nd = None
        best = [a for a in arrs if a.nd is not None]
        if len(arrs) == 1:
            return arrs[0].nd, it.ln(arrs[0])
        return None, None
    nd = max(nds)
    tops = [a for a in arrs if a.nd == nd]
    ln = it.ln(tops[0])
    for a in tops[1:]:
        l = it.ln(a)
        if is_const(ln) and const_value(ln) == 1:
            ln = l
    return nd, ln


def ufunc(it, name, avs, st, node, data=None):
    avs = [it.strip(a) for a in avs]
    avs = [as_array(it, a, st, node) if a.kind == "list" else a for a in avs]
    if it.trace_ops:
        it.event("arith", node, (name,) + tuple(avs), st)
    arrs = [a for a in avs if a.kind == "arr"]
    if not arrs:
        if all(a.kind in ("num", "bool") for a in avs):
            return vnum(T("u", name, *[a.term for a in avs]))
        return vany(T("u", name, *[a.term for a in avs]))
    if any(a.kind in ("any", "union", "extbound") for a in avs):
        # rank unknown on one side: result is an array of unknown rank unless
        # the known operand is at least 2-d
        nd, ln = bcast(it, avs)
        big = max((a.nd or 0) for a in arrs)
        if big < 2:
            return arr(it, T("u", name, *[a.term for a in avs]), node, None, None, data)
        return arr(it, T("u", name, *[a.term for a in avs]), node, nd, ln, data)
    nd, ln = bcast(it, avs)
    if len(arrs) == 1 and arrs[0].term.op == "rep" and len(avs) == 2:
        v, n = arrs[0].term.args
        vs = [vnum(v) if a.kind == "arr" else a for a in avs]
        if name in ("+", "-", "*", "/"):
            r = num_binop(name, vs[0].term, vs[1].term)
            return arr(it, T("rep", r, n), node, 1, n, data)
    return arr(it, T("u", name, *[a.term for a in avs]), node, nd, ln, data)


# ------------------------------------------------------------------ operators
def num_binop(op, a, b):
    if op == "+":
        return lin_add(a, b)
    if op == "-":
        return lin_sub(a, b)
    if op == "*":
        return num_mul(a, b)
    if op == "/":
        if is_const(b) and isinstance(const_value(b), (int, float)) and const_value(b) != 0:
            k = const_value(b)
            if is_const(a):
                return const(const_value(a) / k)
            return T("div", a, b)
        return T("div", a, b)
    if op == "**" and is_const(b) and const_value(b) == 1:
        return a
    return T("b" + op, a, b)


def fold(op, a, b):
    try:
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return a / b
        if op == "//":
            return a // b
        if op == "%":
            return a % b
        if op == "**":
            return a ** b
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
    except Exception:
        return None
    return None


def binop(it, op, a, b, st, node):
    a, b = it.strip(a), it.strip(b)
    if a.is_const and b.is_const and a.kind != "none" and b.kind != "none":
        r = fold(op, a.value, b.value)
        if r is not None:
            return vconst(r)
    if a.kind == "str" and op in ("+", "%", "*"):
        if op == "%" and b.kind == "tuple" or op in "+%*":
            return vstr(T("s" + op, a.term, b.term))
    if b.kind == "str" and op == "+":
        return vstr(T("s+", a.term, b.term))
    if a.kind == "list" or b.kind == "list":
        if op == "+" and a.kind == "list" and b.kind == "list":
            ha = it.list_h(a, st)
            hb = it.list_h(b, st)
            if ha.items is not None and hb.items is not None:
                return it.mk_list(ha.items + hb.items, st, node, "ladd")
            res = it.mk_list((), st, node, "ladd")
            st.heap[res.data] = ha
            it.list_extend(res, b, st, node)
            return res
        if op == "*" and (a.kind == "list") != (b.kind == "list"):
            l, n = (a, b) if a.kind == "list" else (b, a)
            h = it.list_h(l, st)
            if n.kind in ("num", "bool", "any"):
                if h.items is not None and n.is_const and isinstance(n.value, int) and \
                        len(h.items) * n.value <= 24:
                    return it.mk_list(h.items * n.value, st, node, "lmul")
                e = it.list_elem(h)
                return it.mk_slist(e, num_mul(h.ln, n.term), st, node, "lmul",
                                   T("lmul", it.list_ver(h), n.term))
        if a.kind != "arr" and b.kind != "arr" and op == "+" and \
                (a.kind == "any" or b.kind == "any"):
            return vany(T("b+", a.term, b.term), a.locs | b.locs if False else EMPTY)
    if a.kind == "tuple" and b.kind == "tuple" and op == "+":
        return vtuple(a.data + b.data)
    if a.kind == "tuple" and op == "*" and b.is_const and isinstance(b.value, int):
        return vtuple(a.data * b.value)
    if a.kind == "set" and b.kind == "set":
        e = it.list_elem(it.list_h(a, st))
        return it.mk_slist(e, T("len", T("set" + op, a.term, b.term)), st, node, "sop",
                           kind="set")
    if a.kind == "dict" and b.kind == "dict" and op == "|":
        h = it.dict_merge(st.heap[a.data], b, st)
        loc = it.newloc(node, "dor")
        st.heap[loc] = h
        return AV("dict", T("dictref", it.site(node)), frozenset([loc]), loc)
    if a.kind in ("num", "bool") and b.kind in ("num", "bool"):
        if op in ("&", "|", "^") and a.kind == b.kind == "bool":
            ts = sorted({a.term, b.term}, key=lambda t: t.uid)
            return vbool(T({"&": "and", "|": "or", "^": "xor"}[op], *ts))
        if it.trace_ops:
            it.event("arith", node, (op, a, b), st)
        return vnum(num_binop(op, a.term, b.term))
    if a.kind == "arr" or b.kind == "arr":
        if op == "@":
            return matmul(it, a, b, node)
        data = None
        if op in ("&", "|", "^"):
            data = "b" if (is_bool_mask(a) and is_bool_mask(b)) else None
            ts = sorted([a.term, b.term], key=lambda t: t.uid)
            nd, ln = bcast(it, [a, b])
            return arr(it, T({"&": "band", "|": "bor", "^": "bxor"}[op], *ts), node,
                       nd, ln, data)
        return ufunc(it, op, [a, b], st, node, data)
    if a.kind in ("num", "bool") and b.kind == "any" or \
            b.kind in ("num", "bool") and a.kind == "any":
        if op in ("+", "-", "*", "/"):
            return vany(num_binop(op, a.term, b.term))
    if a.kind == "any" and b.kind == "any" and op in ("+", "-", "*", "/"):
        return vany(num_binop(op, a.term, b.term))
    return vany(T("b" + op, a.term, b.term))


def matmul(it, a, b, node):
    if a.kind == "arr" and b.kind == "arr":
        if a.nd == 2 and b.nd in (1, 2):
            return arr(it, T("dot", a.term, b.term), node, b.nd if b.nd == 2 else 1, it.ln(a))
        if a.nd == 1 and b.nd == 1:
            return vnum(T("dot", a.term, b.term))
        return arr(it, T("dot", a.term, b.term), node, None, None)
    return vany(T("dot", a.term, b.term))


INTLIKE = {"len", "cnt", "int", "ncols"}


def compare(it, op, a, b, st, node):
    if op in ("is", "is not"):
        r = None
        if a.kind == "none" and b.kind == "none":
            r = True
        elif b.kind == "none" or a.kind == "none":
            o = a if b.kind == "none" else b
            if o.kind == "union":
                if not any(x.kind in ("none", "any", "undef") for x in o.data):
                    r = False
            elif o.kind == "any":
                if o.data == "notnone":
                    r = False
            elif o.kind != "undef":
                r = False
            if r is None:
                t = T("isnone", o.term)
                return vbool(t if op == "is" else T("not", t))
        elif a.kind == "mod" and b.kind == "mod":
            r = a.data == b.data
        elif a.kind in ("num", "str", "bool") and b.kind in ("mod", "cls", "func"):
            r = False
        elif a.is_const and b.is_const:
            r = a.value is b.value or (a.value == b.value and type(a.value) == type(b.value))
        elif a.kind == b.kind == "obj":
            if a.data == b.data:
                r = True
        elif a.kind == "arr" and b.kind == "arr" and not (a.locs & b.locs):
            r = False
        if r is None:
            t = T("is", *sorted([a.term, b.term], key=lambda t: t.uid))
            return vbool(t if op == "is" else T("not", t))
        return vconst(r if op == "is" else not r)
    if op in ("in", "not in"):
        r = membership(it, a, b, st)
        if r is None:
            bt = b.term
            b2 = it.strip(b)
            if b2.kind in ("list", "set") and isinstance(st.heap.get(b2.data), HList):
                bt = T("setof", it.list_ver(st.heap[b2.data]))
            elif b2.kind == "tuple":
                bt = T("setof", T("list", *[x.term for x in b2.data]))
            t = T("in", a.term, bt)
            return vbool(t if op == "in" else T("not", t))
        return vconst(r if op == "in" else not r)
    a0, b0 = a, b
    a, b = it.strip(a), it.strip(b)
    if a.kind == "arr" or b.kind == "arr":
        avs = [a, b]
        nd, ln = bcast(it, avs)
        x, y = a.term, b.term
        neg = False
        if op in ("==", "!="):
            if a.kind == "arr" and b.kind == "arr":
                x, y = sorted([x, y], key=lambda t: t.uid)
            elif b.kind == "arr":
                x, y = y, x
            t = T("eq", x, y)
            neg = op == "!="
        elif op == "<":
            t = T("lt", x, y)
        elif op == ">":
            t = T("lt", y, x)
        elif op == "<=":
            t = T("le", x, y)
        else:
            t = T("le", y, x)
        if neg:
            t = T("not", t)
        if nd is None and a.kind == "arr" and b.kind in ("num", "str", "bool", "none"):
            nd, ln = a.nd, it.ln(a)
        it.event("cmp", node, (op, a, b), st)
        return arr(it, t, node, nd, ln, "b")
    if a.kind == "none" or b.kind == "none":
        if a.kind == b.kind:
            return vconst(op in ("==", "<=", ">="))
        o = b if a.kind == "none" else a
        if o.kind not in ("any", "union", "undef") and op in ("==", "!="):
            return vconst(op == "!=")
    if a.is_const and b.is_const:
        try:
            x, y = a.value, b.value
            return vconst({"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y,
                           ">=": lambda: x >= y, "==": lambda: x == y,
                           "!=": lambda: x != y}[op]())
        except TypeError:
            pass
    if op in ("==", "!=") and a.kind in ("num", "str") and b.kind in ("num", "str") \
            and a.kind != b.kind and False:
        return vconst(op == "!=")
    if a.kind in ("num", "bool") and b.kind in ("num", "bool"):
        d = lin_sub(a.term, b.term)
        if is_const(d):
            v = const_value(d)
            return vconst({"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0,
                           "==": v == 0, "!=": v != 0}[op])
    it.event("cmp", node, (op, a, b), st)
    x, y = a.term, b.term
    if op in ("==", "!="):
        x, y = sorted([x, y], key=lambda t: t.uid)
        t = T("eq", x, y)
        return vbool(t if op == "==" else T("not", t))
    if op == "<":
        return vbool(T("lt", x, y))
    if op == ">":
        return vbool(T("lt", y, x))
    if op == "<=":
        return vbool(T("not", T("lt", y, x)))
    return vbool(T("not", T("lt", x, y)))


def membership(it, a, b, st):
    b = it.strip(b)
    if b.kind == "dict":
        h = st.heap.get(b.data)
        if isinstance(h, HDict) and a.is_const:
            if a.value in h.keys:
                return True
            if h.exact():
                return False
        return None
    items = None
    if b.kind == "any" and b.term.op == "sigparams" and a.is_const \
            and isinstance(b.data, tuple):
        return a.value in b.data[1]
    if b.kind == "tuple":
        items = b.data
    elif b.kind in ("list", "set"):
        h = st.heap.get(b.data)
        if isinstance(h, HList):
            items = h.items
    elif b.kind == "str" and b.is_const and a.is_const:
        return a.value in b.value
    elif b.kind == "any" and isinstance(b.data, tuple) and b.data[0] in ("modexpr", "clsexpr"):
        its, _, _ = it.iter_info(b, st, None)
        items = its
    if items is not None:
        if not items:
            return False
        if any(x.term is a.term and x.kind == a.kind for x in items):
            return True
        if a.is_const and all(x.is_const for x in items):
            return any(x.value == a.value for x in items)
    return None


# ------------------------------------------------------------------ indexing
def row_of(it, a, idx):
    if a.term.op == "rep":
        return vnum(a.term.args[0]) if a.nd == 1 else vany(T("row", a.term, idx))
    if a.nd == 1:
        return AV("num", T("row", a.term, idx))
    if a.nd is not None:
        return AV("arr", T("row", a.term, idx), a.locs, a.data, a.nd - 1,
                  T("ncols", a.term) if a.nd == 2 else None)
    return vany(T("row", a.term, idx), weak(a.locs))


def norm_sel(sel):
    t = sel
    if t.op == "where":
        return t.args[0]
    return t


def select_rows(it, a, i, st, node, op="idx"):
    """fancy row selection a[i] with i an array / list of rows"""
    i = it.strip(i)
    if i.kind == "list":
        h = it.list_h(i, st)
        it_term = T("rowsof", it.list_ver(h))
        ln = h.ln
        nd = a.nd
        e = it.list_elem(h)
        if e is not None and e.kind in ("list", "arr", "tuple"):
            nd = None
        if e is not None and e.kind not in ("num", "any"):
            ln = None
        return arr(it, T("idx", a.term, it_term), node, nd, ln, a.data)
    if i.kind == "arr":
        if is_bool_mask(i):
            if i.nd in (1, None):
                return arr(it, T("idx", a.term, norm_sel(i.term)), node, a.nd,
                           mask_count(it, i), a.data)
            return arr(it, T("idx", a.term, i.term), node, 1, None, a.data)
        nd = a.nd + i.nd - 1 if a.nd is not None and i.nd is not None else None
        if a.term.op == "rep" and nd == 1:
            return arr(it, T("rep", a.term.args[0], it.ln(i)), node, 1, it.ln(i), a.data)
        if i.term.op == "arange" and is_const(i.term.args[0]) and \
                const_value(i.term.args[0]) == 0 and i.term.args[1] is it.ln(a):
            return arr(it, a.term, node, a.nd, it.ln(a), a.data)
        ln = it.ln(i)
        if i.data is None and i.nd in (1, None) and maybe_bool(i.term):
            ln = T("nsel", i.term)
        return arr(it, T("idx", a.term, norm_sel(i.term)), node, nd, ln, a.data)
    return None


def slice_arr(it, a, sl, st, node):
    lo, hi, stp = sl.data
    ln = it.ln(a)
    if lo.kind == "none" and hi.kind == "none" and stp.kind == "none":
        return a
    if stp.kind == "none" or (stp.is_const and stp.value == 1):
        if lo.is_const and lo.kind == "num" and lo.value == 0:
            lo = NONE
        if hi.kind == "num" and hi.term is ln:
            hi = NONE
        if lo.kind == "none" and hi.kind == "none":
            return a
        if a.term.op == "cat":
            parts = a.term.args
            lens = [part_len(p) for p in parts]
            if all(l is not None for l in lens):
                acc = const(0)
                cuts = [acc]
                for l in lens:
                    acc = lin_add(acc, l)
                    cuts.append(acc)
                s = 0 if lo.kind == "none" else None
                e = len(parts) if hi.kind == "none" else None
                for n, c in enumerate(cuts):
                    if lo.kind != "none" and c is lo.term:
                        s = n
                    if hi.kind != "none" and c is hi.term:
                        e = n
                if s is not None and e is not None and s <= e:
                    sub = parts[s:e]
                    if not sub:
                        return arr(it, T("empty", a.term), node, a.nd, const(0), a.data, a.locs)
                    nt = sub[0] if len(sub) == 1 else T("cat", *sub)
                    return AV("arr", nt, a.locs, a.data, a.nd, lin_sub(cuts[e], cuts[s]))
        if a.term.op == "rep" and a.nd == 1:
            nl = slice_len(it, ln, lo, hi)
            return AV("arr", T("rep", a.term.args[0], nl), a.locs, a.data, 1, nl)
        nl = slice_len(it, ln, lo, hi)
        return AV("arr", T("slc", a.term, lo.term, hi.term), a.locs, a.data, a.nd, nl)
    nl = None
    if lo.kind == "none" and hi.kind == "none" and stp.is_const and stp.value == -1:
        nl = ln
    return AV("arr", T("slc3", a.term, lo.term, hi.term, stp.term), a.locs, a.data, a.nd, nl)


PART_LEN = {}


def part_len(t):
    return PART_LEN.get(t)


def slice_len(it, ln, lo, hi):
    if lo.kind == "none" and hi.kind == "num":
        return T("slen", ln, const(0), hi.term)
    if hi.kind == "none" and lo.kind == "num":
        if lo.is_const and isinstance(lo.value, int) and lo.value < 0:
            return T("slen", ln, lo.term, const("end"))
        lc, la = lin_parts(lo.term)
        if lc <= 0 and la and all(k < 0 for k in la.values()):
            # the last so many elements
            return T("slen", ln, const(0), lin_scale(lo.term, -1))
        d = lin_sub(ln, lo.term)
        c, atoms = lin_parts(d)
        if all(k >= 0 for k in atoms.values()) and c >= 0 and not (lo.is_const):
            return d
        return T("slen", ln, lo.term, const("end"))
    return T("slen", ln, lo.term, hi.term)


def get_item(it, b, i, st, node):
    if it.trace_ops and (i.kind in ("arr", "num", "tuple") or
                         i.kind == "any" and i.term.op in ("item", "elem")):
        it.event("asindex", node, (b, i), st)
    b0 = b
    b = it.strip(b)
    i = it.strip(i) if i.kind == "union" else i
    k = b.kind
    if k == "any" and isinstance(b.data, tuple) and len(b.data) == 3 and b.data[0] == "modexpr" \
            and isinstance(b.data[2], ast.Dict) and i.is_const:
        for dk, dv in zip(b.data[2].keys, b.data[2].values):
            if isinstance(dk, ast.Constant) and dk.value == i.value and \
                    isinstance(dv, ast.Constant) and dv.value is not None:
                return vconst(dv.value)
    if k == "tuple":
        if i.is_const and isinstance(i.value, int):
            n = len(b.data)
            if -n <= i.value < n:
                return b.data[i.value]
        if i.kind == "slice" and all(x.is_const for x in i.data):
            return vtuple(b.data[slice(*[x.value for x in i.data])])
        if b.data:
            e = b.data[0]
            for x in b.data[1:]:
                e = it.join_elem(e, x)
            return e
        return vany(T("item", b.term, i.term))
    if k in ("list",):
        h = it.list_h(b, st)
        if h.items is not None and i.is_const and isinstance(i.value, int):
            n = len(h.items)
            if -n <= i.value < n:
                return h.items[i.value]
        if i.kind == "slice":
            if h.items is not None and all(x.is_const for x in i.data):
                return it.mk_list(h.items[slice(*[x.value for x in i.data])], st, node, "lsl")
            lo, hi, stp = i.data
            return it.mk_slist(it.list_elem(h), slice_len(it, h.ln, lo, hi)
                               if stp.kind == "none" else None or T("len", T("slice", it.list_ver(h), i.term)),
                               st, node, "lsl", T("lslice", it.list_ver(h), i.term))
        e = it.list_elem(h)
        if e is None:
            return vany(T("el", it.list_ver(h), i.term))
        if e.kind in ("num", "any", "str", "bool"):
            if is_const(e.term):
                return e
            return e.replace(term=T("el", it.list_ver(h), i.term, e.term))
        if e.kind == "arr":
            return e.replace(term=T("el", it.list_ver(h), i.term, e.term),
                             ln=None if it.ln_varies(e) else e.ln)
        if e.kind == "tuple":
            return it.vary(e, T("at", i.term), it.list_ver(h))
        return e
    if k == "dict":
        h = st.heap.get(b.data)
        if isinstance(h, HDict):
            if i.is_const and i.value in h.keys:
                return h.keys[i.value]
            if i.kind in ("str", "num") and not i.is_const and h.exact() and h.keys:
                vs = list(h.keys.values())
                e = vs[0]
                for x in vs[1:]:
                    e = it.join_elem(e, x)
                if e.kind in ("num", "str", "bool", "any"):
                    return e.replace(term=T("item", it.dict_term(h), i.term))
                return e
            locs = EMPTY
            for r in h.rest:
                locs |= r.locs
            vals = [r for r in h.rest]
            if h.ver is not None and vals and all(v.kind == vals[0].kind for v in vals) and \
                    vals[0].kind in ("arr", "num", "list", "obj", "ext", "dict"):
                e = vals[0]
                for x in vals[1:]:
                    e = it.join_elem(e, x)
                if e.kind in ("num",):
                    return e.replace(term=T("item", it.dict_term(h), i.term))
                if e.kind == "arr":
                    return e.replace(term=T("item", it.dict_term(h), i.term),
                                     ln=None if it.ln_varies(e) else e.ln)
                if e.kind in ("list", "dict", "obj", "ext"):
                    return e
            return vany(T("item", it.dict_term(h), i.term), locs)
        return vany(T("item", b.term, i.term), b.locs)
    if k == "arr":
        return arr_item(it, b, i, st, node)
    if k == "str":
        return vstr(T("item", b.term, i.term))
    if k == "obj":
        h = st.heap.get(b.data)
        f = h.cls.find("__getitem__") if isinstance(h, HObj) else None
        if f and f[0] == "method":
            return it.merge_alts(it.call_func(f[1], [b, i], {}, [], st, node, cls=f[2]), st)
        return vany(T("item", b.term, i.term))
    if k == "any":
        if b.term.op == "hist":
            y = b.term.args[0]
            return vnum(_cnt(T("eq", y, i.term), T("len", y)))
        if b.term.op == "shape" and i.is_const:
            if i.value == 0:
                return vnum(b.term.args[1])
            return vnum(T("item", b.term, i.term))
        return vany(T("item", b.term, i.term), b.locs)
    if k == "union":
        vs = [get_item(it, a, i, st, node) for a in b.data if a.kind != "none"]
        e = vs[0]
        for x in vs[1:]:
            e = it.join_elem(e, x)
        return e
    if k == "mod":
        if b.data in ("numpy.r_",):
            return np_rc(it, i, st, node, 0)
        if b.data in ("numpy.c_",):
            return np_rc(it, i, st, node, 1)
        it.event("extread", node, (b.data, i.term), st)
        return vany(T("item", b.term, i.term))
    if k == "iter":
        items, elem, ln = it.iter_info(b, st, node)
        if items is not None and i.is_const and isinstance(i.value, int) \
                and -len(items) <= i.value < len(items):
            return items[i.value]
        if elem is not None:
            return elem
    return vany(T("item", b.term, i.term), weak(b.locs))


def np_rc(it, i, st, node, axis):
    parts = list(i.data) if i.kind == "tuple" else [i]
    if axis == 0:
        return concat(it, parts, st, node, "concatenate")
    return hcat(it, parts, st, node)


def arr_item(it, a, i, st, node):
    ik = i.kind
    if ik == "slice":
        return slice_arr(it, a, i, st, node)
    if ik == "num" or (ik == "bool" and False):
        t = i.term
        if is_const(t) and isinstance(const_value(t), int) and const_value(t) < 0:
            pass
        if a.term.op == "where" and False:
            pass
        return row_of(it, a, t)
    if ik in ("arr", "list"):
        return select_rows(it, a, i, st, node)
    if ik == "none":
        return AV("arr", T("nax", a.term), a.locs, a.data,
                  None if a.nd is None else a.nd + 1, const(1))
    if ik == "str":
        return AV("arr", T("field", a.term, i.term), a.locs, None, None, it.ln(a))
    if ik == "tuple":
        return tuple_index(it, a, i, st, node)
    if ik == "iter":
        items, elem, ln = it.iter_info(i, st, node)
        return arr(it, T("idx", a.term, i.term), node, a.nd, ln, a.data)
    if ik == "any" and i.term.op in ("row", "item", "el", "draw", "it", "elem") and False:
        return row_of(it, a, i.term)
    # unknown index: scalar, row view or selection
    return AV("any", T("gidx", a.term, i.term), weak(a.locs), ("aidx", a.nd))


def is_full(s):
    return s.kind == "slice" and all(x.kind == "none" for x in s.data)


def tuple_index(it, a, i, st, node):
    idx = list(i.data)
    ell = [n for n, x in enumerate(idx) if x.kind not in ("num", "slice", "arr", "list", "none",
                                                          "any", "tuple")]
    adv = [x for x in idx if x.kind in ("arr", "list")]
    unk = [x for x in idx if x.kind in ("any", "union", "extbound")]
    locs = a.locs if not adv else None
    if unk and not adv:
        locs = weak(a.locs)
    if ell:
        return arr(it, T("gidx", a.term, i.term), node, None, None, a.data, locs)
    if not idx:
        return a
    first, rest = idx[0], idx[1:]
    # newaxis only
    if first.kind == "none":
        sub = arr_item(it, a, vtuple(rest) if len(rest) > 1 else rest[0], st, node) if rest else a
        return AV("arr", T("nax0", a.term, i.term), sub.locs, a.data,
                  None if sub.nd is None else sub.nd + 1, const(1))
    if first.kind == "slice" and all(r.kind == "none" for r in rest):
        s = slice_arr(it, a, first, st, node)
        return AV("arr", T("nax", s.term, len(rest)), s.locs, s.data,
                  None if s.nd is None else s.nd + len(rest), it.ln(s))
    if first.kind in ("arr", "list") and all(r.kind == "none" for r in rest):
        s = select_rows(it, a, first, st, node)
        return AV("arr", T("nax", s.term, len(rest)), s.locs, s.data,
                  None if s.nd is None else s.nd + len(rest), it.ln(s))
    if first.kind == "slice" and len(rest) == 1:
        s = slice_arr(it, a, first, st, node)
        r = rest[0]
        if is_full(r):
            return s
        if r.kind == "num":
            return AV("arr", T("cols", s.term, r.term), s.locs, s.data,
                      None if s.nd is None else s.nd - 1, it.ln(s))
        if r.kind == "slice":
            return AV("arr", T("cols", s.term, r.term), s.locs, s.data, s.nd, it.ln(s))
        if r.kind in ("arr", "list"):
            rt = r.term if r.kind == "arr" else T("rowsof", it.list_ver(it.list_h(r, st)))
            return arr(it, T("cols", s.term, rt), node, s.nd if (r.nd in (1, None) or
                       r.kind == "list") else None, it.ln(s), s.data)
        return AV("arr", T("cols", s.term, r.term), weak(s.locs), s.data, None, it.ln(s))
    if len(idx) == 2 and is_full(idx[1]) and first.kind in ("arr", "list"):
        return select_rows(it, a, first, st, node)
    if len(idx) == 2 and is_full(idx[1]) and first.kind == "num":
        return row_of(it, a, first.term)
    if all(x.kind == "num" for x in idx):
        if a.nd is not None and a.nd == len(idx):
            return vnum(T("row", a.term, *[x.term for x in idx]))
        if a.nd is not None and a.nd > len(idx):
            return AV("arr", T("row", a.term, *[x.term for x in idx]), a.locs, a.data,
                      a.nd - len(idx))
        return vany(T("row", a.term, *[x.term for x in idx]), weak(a.locs))
    if first.kind == "arr" and rest and all(r.kind in ("num", "arr") for r in rest):
        nd = None
        nds = [x.nd for x in idx if x.kind == "arr"]
        if all(n == 1 for n in nds) and a.nd == len(idx):
            nd = 1
        ln = it.ln(first) if nd == 1 and not is_bool_mask(first) else None
        if nd == 1 and is_bool_mask(first):
            ln = mask_count(it, first)
        return arr(it, T("gidx", a.term, i.term), node, nd, ln, a.data)
    if first.kind == "arr" and len(rest) == 1 and rest[0].kind == "slice":
        s = select_rows(it, a, first, st, node)
        return AV("arr", T("cols", s.term, rest[0].term), s.locs, s.data, s.nd, it.ln(s))
    if first.kind == "num":
        nd = None
        if a.nd is not None:
            nd = a.nd - sum(1 for x in idx if x.kind == "num")
        if nd == 0:
            return vnum(T("gidx", a.term, i.term))
        return arr(it, T("gidx", a.term, i.term), node, nd, None, a.data, locs)
    nd = None
    if a.nd is not None and all(x.kind in ("num", "slice", "none") for x in idx):
        nd = a.nd - sum(1 for x in idx if x.kind == "num") + \
            sum(1 for x in idx if x.kind == "none")
    ln = None
    if first.kind == "slice":
        ln = it.ln(slice_arr(it, a, first, st, node))
    return arr(it, T("gidx", a.term, i.term), node, nd, ln, a.data, locs)


# ------------------------------------------------------------ concatenation
def as_array(it, a, st, node, copy=True):
    """np.array(a)"""
    a = it.strip(a)
    if a.kind == "arr":
        return a.replace(locs=frozenset([it.newloc(node, "a")])) if copy else a
    if a.kind in ("list", "set"):
        h = it.list_h(a, st)
        e = it.list_elem(h)
        return rows_from_list(it, h, e, st, node)
    if a.kind == "tuple":
        h = HList(items=a.data)
        return rows_from_list(it, h, it.list_elem(h), st, node)
    if a.kind in ("num", "bool"):
        return arr(it, T("arr0", a.term), node, 0, None)
    if a.kind == "iter":
        items, elem, ln = it.iter_info(a, st, node)
        return arr(it, T("arrof", a.term), node, None, ln)
    if a.kind == "union":
        ds = None
        alts = [as_array(it, x, st, node) for x in a.data if x.kind != "none"]
        if alts:
            nd = alts[0].nd if all(x.nd == alts[0].nd for x in alts) else None
            return arr(it, T("arrof", a.term), node, nd, None)
    return arr(it, T("arrof", a.term), node, None, None)


def rows_from_list(it, h, e, st, node):
    nd = None
    data = None
    if e is None:
        nd = 1
        return arr(it, T("emptylist"), node, 1, const(0))
    if e.kind in ("num", "bool", "str"):
        nd = 1
        data = "b" if e.kind == "bool" else None
        if uniform(it, h, e):
            return arr(it, T("rep", e.term, h.ln), node, 1, h.ln, data)
    elif e.kind == "arr" and e.nd is not None:
        nd = e.nd + 1
    elif e.kind == "tuple":
        nd = 2 if all(x.kind in ("num", "bool", "str") for x in e.data) else None
    elif e.kind == "list":
        he = st.heap.get(e.data)
        if isinstance(he, HList):
            e2 = it.list_elem(he)
            if e2 is not None and e2.kind in ("num", "bool", "str"):
                nd = 2
    elif e.kind == "any" and isinstance(e.term, Term) and e.term.op == "draw":
        nd = None
    return elements(it, arr(it, T("rows", it.list_ver(h)), node, nd, h.ln, data), e)


def elements(it, a, e):
    """remembers the summary element of the list an array is made of"""
    it.elem_of.setdefault(a.term, {})[e.term] = e
    return a


def uniform(it, h, e):
    if h.items is not None:
        return all(x.term is e.term for x in h.items)
    if is_const(e.term):
        return True
    return not any(t.op in ("it", "el", "loop", "draw", "sym", "lphi", "lelem", "elem2",
                            "anyof", "any1", "row", "item") and not _labelish(t)
                   for t in leaves(e.term))


def _labelish(t):
    """row of a unique() array: a class label"""
    return t.op == "row" and isinstance(t.args[0], Term) and t.args[0].op in ("unique",)


def seq_parts(it, a, st, node):
    """items of a sequence argument of vstack/hstack/concatenate, or None"""
    a = it.strip(a)
    if a.kind == "tuple":
        return list(a.data), None
    if a.kind == "list":
        h = it.list_h(a, st)
        if h.items is not None:
            return list(h.items), h
        return None, h
    if a.kind == "arr":
        return None, a
    if a.kind == "iter":
        items, elem, ln = it.iter_info(a, st, node)
        if items is not None:
            return items, None
        return None, HList(None, elem, ln, T("lver", a.term))
    return None, None


def part_of(it, x, st, node, kind):
    """(term, length, nd) of one part of a row concatenation"""
    x = it.strip(x)
    if x.kind == "list" or x.kind == "tuple":
        x = as_array(it, x, st, node)
    if x.kind == "arr":
        if kind == "vstack" and x.nd == 1 and x.term.op != "emptylist":
            return T("row1", x.term), const(1), 2
        if kind == "hstack" and x.nd == 0:
            return T("row1", x.term), const(1), 1
        return x.term, it.ln(x), x.nd
    if x.kind in ("num", "bool", "str"):
        return T("rep", x.term, const(1)), const(1), 1
    return T("part", x.term), T("len", x.term), None


def concat(it, parts, st, node, kind):
    ts, lns, nds = [], [], []
    for p in parts:
        t, l, n = part_of(it, p, st, node, kind)
        if is_const(l) and const_value(l) == 0:
            nds.append(n)
            continue
        nds.append(n)
        if t.op == "cat":
            for q in t.args:
                ts.append(q)
        else:
            PART_LEN[t] = l
            ts.append(t)
        lns.append(l)
    ln = const(0)
    for l in lns:
        ln = lin_add(ln, l)
    # merge adjacent replications of one value
    out = []
    for t in ts:
        if out and t.op == "rep" and out[-1].op == "rep" and out[-1].args[0] is t.args[0]:
            n = lin_add(out[-1].args[1], t.args[1])
            m = T("rep", t.args[0], n)
            PART_LEN[m] = n
            out[-1] = m
        else:
            out.append(t)
    nd = None
    ndk = [n for n in nds if n is not None]
    if kind == "vstack":
        nd = 2
        if any(n is not None and n > 2 for n in nds):
            nd = max(ndk)
    elif ndk:
        nd = max(ndk)
    if not out:
        return arr(it, T("emptylist"), node, nd, const(0))
    t = out[0] if len(out) == 1 else T("cat", *out)
    return arr(it, t, node, nd, ln)


def hcat(it, parts, st, node):
    parts = [as_array(it, p, st, node) if it.strip(p).kind in ("list", "tuple") else it.strip(p)
             for p in parts]
    ln = None
    for p in parts:
        if p.kind == "arr" and p.nd == 2:
            ln = it.ln(p)
            break
    if ln is None and parts and parts[0].kind == "arr":
        ln = it.ln(parts[0])
    return arr(it, T("colcat", *[p.term for p in parts]), node, 2, ln)


def stack_seq(it, a, st, node, kind):
    items, h = seq_parts(it, a, st, node)
    if items is not None:
        if kind == "hstack":
            ps = [it.strip(x) for x in items]
            if any(p.kind == "arr" and p.nd is not None and p.nd >= 2 for p in ps):
                return hcat(it, items, st, node)
            return concat(it, items, st, node, "hstack")
        return concat(it, items, st, node, kind)
    if isinstance(h, HList):
        e = h.elem
        ver = h.ver
        if e is None:
            return arr(it, T("emptylist"), node, 2 if kind == "vstack" else 1, const(0))
        if kind == "vstack":
            if e.kind == "arr" and e.nd == 1 or e.kind in ("num", "tuple"):
                return elements(it, arr(it, T("rows", ver), node, 2, h.ln), e)
            if e.kind == "arr" and e.nd == 2:
                return elements(it, arr(it, T("flat", ver), node, 2, flat_len(it, h, e)), e)
            return elements(it, arr(it, T("flat?", ver), node, 2, None), e)
        if e.kind in ("num", "bool", "str"):
            if uniform(it, h, e):
                return arr(it, T("rep", e.term, h.ln), node, 1, h.ln)
            return elements(it, arr(it, T("rows", ver), node, 1, h.ln), e)
        if e.kind == "arr" and e.nd == 1:
            if e.term.op == "rep" and is_const_label(e.term.args[0]):
                l = flat_len(it, h, e)
                return arr(it, T("rep", e.term.args[0], l), node, 1, l)
            return elements(it, arr(it, T("flat", ver), node, 1, flat_len(it, h, e)), e)
        if e.kind == "arr" and e.nd == 2 and kind == "hstack":
            elements(it, AV("arr", T("flat", ver)), e)
            return arr(it, T("colcat", T("flat", ver)), node, 2, it.ln(e))
        return elements(
            it, arr(it, T("flat", ver), node, e.nd if e.kind == "arr" else None, None), e)
    if isinstance(h, AV) and h.kind == "arr":
        # vstack of an array: rows
        if kind == "vstack":
            return arr(it, h.term if h.nd == 2 else T("vst", h.term), node, 2, it.ln(h))
        return arr(it, T("hst", h.term), node, None, None)
    return arr(it, T(kind, a.term), node, 2 if kind == "vstack" else None, None)


def is_const_label(t):
    return not any(x.op in ("it", "el", "loop", "lphi", "draw") for x in leaves(t))


def flat_len(it, h, e):
    if h.items is None and h.tot is not None:
        return h.tot
    l = it.ln(e)
    if is_const(l):
        return num_mul(h.ln, l)
    loop = it.ver_loop.get(h.ver)
    if loop is not None:
        lp, draws = loop
        if not any(x.op == "it" and x.args[0] is lp or draws and x.op == "draw"
                   for x in leaves(l)):
            return num_mul(h.ln, l)
    return T("sumlen", h.ver, l)


# ------------------------------------------------------------- numpy calls
UFUNCS = {"abs", "absolute", "fabs", "sqrt", "exp", "exp2", "expm1", "log", "log2", "log10",
          "log1p", "sin", "cos", "tan", "arccos", "arcsin", "arctan", "sinh", "cosh", "tanh",
          "clip", "round", "around", "rint", "floor", "ceil", "trunc", "nan_to_num",
          "minimum", "maximum", "sign", "power", "square", "real", "imag", "conj", "mod",
          "fmin", "fmax", "add", "subtract", "multiply", "divide", "true_divide", "negative",
          "reciprocal", "floor_divide", "float_power", "hypot", "arctan2", "degrees",
          "radians", "deg2rad", "rad2deg", "nextafter", "remainder", "fmod"}
BOOL_UFUNCS = {"isnan", "isfinite", "isinf", "isclose", "logical_xor",
               "signbit", "isneginf", "isposinf"}
CMP_UFUNCS = {"equal": "==", "not_equal": "!=", "less": "<", "less_equal": "<=",
              "greater": ">", "greater_equal": ">="}
REDUCE = {"sum", "mean", "std", "var", "min", "max", "amin", "amax", "prod", "median", "all",
          "any", "nanmean", "nansum", "nanstd", "nanvar", "nanmin", "nanmax", "nanmedian",
          "argmax", "argmin", "nanargmax", "nanargmin", "ptp", "average", "quantile",
          "percentile", "count_nonzero", "product", "nanprod"}
SAME_LEN = {"argsort", "sort", "cumsum", "cumprod", "flip", "flipud", "fliplr", "roll",
            "sort_complex", "unwrap", "nancumsum"}
VIEWS = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d",
         "atleast_2d", "squeeze", "ravel", "reshape", "transpose", "swapaxes", "moveaxis",
         "rollaxis", "expand_dims", "broadcast_to", "diagonal", "real_if_close", "require",
         "rot90", "asarray_chkfinite", "asmatrix", "split", "array_split", "vsplit", "hsplit",
         "nditer", "lib.stride_tricks.as_strided"}
NP_MUTATE = {"fill_diagonal": 0, "put": 0, "place": 0, "copyto": 0, "putmask": 0,
             "put_along_axis": 0, "add.at": 0, "subtract.at": 0, "multiply.at": 0,
             "maximum.at": 0, "minimum.at": 0, "divide.at": 0, "ndarray.sort": 0,
             "ndarray.fill": 0, "ndarray.partition": 0, "ndarray.put": 0, "ndarray.resize": 0}
INPLACE_KW = {"out"}


def kwget(args, kwargs, i, name, default=None):
    if name in kwargs:
        return kwargs[name]
    if i is not None and len(args) > i:
        return args[i]
    return default


def axis_of(args, kwargs, pos=1):
    a = kwget(args, kwargs, pos, "axis")
    if a is None or a.kind == "none":
        return None
    if a.is_const:
        return a.value
    return "?"


def reduce_(it, name, a, args, kwargs, st, node, pos=1):
    a = it.strip(a)
    if it.trace_ops:
        e = it.list_elem(it.list_h(a, st)) if a.kind == "list" else a
        it.event("reduce", node, (name, e if e is not None else a), st)
    if a.kind in ("list", "tuple"):
        if name in ("min", "max", "amin", "amax"):
            items, h = seq_parts(it, a, st, node)
            if items is not None and all(it.strip(x).kind in ("num", "bool") for x in items) \
                    and items:
                return minmax(name[-3:], items)
        if name == "prod" or name == "product":
            items, h = seq_parts(it, a, st, node)
            if items and all(it.strip(x).kind in ("num", "bool", "any") for x in items) and \
                    not set(kwargs) - {"dtype"}:
                t = items[0].term
                for x in items[1:]:
                    t = num_mul(t, x.term)
                if it.int_prod:
                    dt = kwargs.get("dtype")
                    t = T("float", t) if dt is not None and "float" in show(dt.term) else \
                        T("i64", t)     # the product of integers is a fixed size integer
                return vnum(t)
        if name == "sum":
            items, h = seq_parts(it, a, st, node)
            if items and all(it.strip(x).kind in ("num", "bool", "any") for x in items) and \
                    not kwargs:
                t = items[0].term
                for x in items[1:]:
                    t = lin_add(t, x.term)
                return vnum(t)
        if name == "mean":
            items, h = seq_parts(it, a, st, node)
            if items and all(it.strip(x).kind in ("num", "bool") for x in items) and not kwargs:
                t = items[0].term
                for x in items[1:]:
                    t = lin_add(t, x.term)
                return vnum(num_binop("/", t, const(len(items))))
        if name in ("all", "any"):
            items, h = seq_parts(it, a, st, node)
            if items is not None and all(x.kind in ("bool",) for x in items):
                vals = [it.truth(x, st) for x in items]
                if name == "all":
                    if any(v is False for v in vals):
                        return vconst(False)
                    if all(v is True for v in vals):
                        return vconst(True)
                ts = [x.term for x, v in zip(items, vals) if v is None]
                return vbool(T("and" if name == "all" else "or",
                               *sorted(set(ts), key=lambda t: t.uid)))
        a = as_array(it, a, st, node)
    ax = axis_of(args, kwargs, pos)
    if a.kind == "arr":
        if ax is None:
            if "keepdims" in kwargs:
                return arr(it, T("red", name, a.term), node, a.nd, const(1))
            if name in ("sum", "count_nonzero") and is_bool_mask(a) and a.nd in (1, None):
                return vnum(mask_count(it, a))
            if name in ("all", "any"):
                return vbool(T("red", name, a.term))
            return vnum(T("red", name, a.term))
        if ax == "?":
            return vany(T("red", name, a.term, kwget(args, kwargs, pos, "axis").term))
        ext = [kwargs[k].term for k in sorted(kwargs) if k not in ("axis",)]
        t = T("red", name, a.term, const(ax), *ext)
        nd = None if a.nd is None else a.nd - 1
        if "keepdims" in kwargs:
            nd = a.nd
        data = "b" if name in ("all", "any") else None
        if isinstance(ax, int):
            if nd == 0:
                if name == "sum" and is_bool_mask(a):
                    return vnum(mask_count(it, a))
                return vnum(t)
            if ax in (1, 2) or (ax == -1 and a.nd is not None and a.nd >= 2) or \
                    (ax == -1 and a.nd is None):
                return arr(it, t, node, nd, it.ln(a), data)
            return arr(it, t, node, nd, T("ncols", a.term) if a.nd == 2 else None, data)
        return arr(it, t, node, None, None, data)
    if a.kind in ("num", "bool"):
        return a
    if ax is None:
        r = T("red", name, a.term)
        if name in ("all", "any"):
            return vbool(r)
        return vnum(r)
    return arr(it, T("red", name, a.term, const(ax)), node, None, None)


def minmax(which, items):
    if all(is_const(x.term) for x in items):
        try:
            return vconst((min if which == "min" else max)(const_value(x.term) for x in items))
        except TypeError:
            pass
    ts = set()
    for x in items:
        if x.term.op == which:
            ts.update(x.term.args)
        else:
            ts.add(x.term)
    if len(ts) == 1:
        return vnum(next(iter(ts)))
    return vnum(T(which, *sorted(ts, key=lambda t: t.uid)))


def shape_arr(it, shape, node, fill, st, data=None):
    shape = it.strip(shape)
    if shape.kind == "list":
        h = it.list_h(shape, st)
        if h.items is not None:
            shape = vtuple(h.items)
    if shape.kind in ("num", "bool"):
        t = T("rep", fill, shape.term) if fill is not None else \
            T("alloc", it.site(node), shape.term)
        return arr(it, t, node, 1, shape.term, data)
    if shape.kind == "tuple":
        n = len(shape.data)
        ln = shape.data[0].term if n else None
        if n == 1:
            t = T("rep", fill, ln) if fill is not None else T("alloc", it.site(node), ln)
            return arr(it, t, node, 1, ln, data)
        t = T("const2", fill if fill is not None else const("?"), shape.term)
        return arr(it, t, node, n, ln, data)
    if shape.kind == "any" and shape.term.op == "shape":
        return arr(it, T("const2", fill or const("?"), shape.term), node, None,
                   shape.term.args[1], data)
    return arr(it, T("const2", fill if fill is not None else const("?"), shape.term), node,
               None, None, data)


def write_kw_out(it, kwargs, st, node, name):
    o = kwargs.get("out")
    if o is not None and o.kind != "none":
        it.write(it.strip(o), node, f"out= of {name}", st)
        return o
    return None


def call_numpy(it, fn, args, kwargs, rest, st, node):
    """fn without the 'numpy.' prefix"""
    args = [it.strip(a) for a in args]
    outv = write_kw_out(it, kwargs, st, node, "np." + fn)
    a0 = args[0] if args else kwget(args, kwargs, None, "a") or kwget(args, kwargs, None, "arr") \
        or kwget(args, kwargs, None, "x")
    if a0 is not None:
        a0 = it.strip(a0)
    if fn == "sort" and it.on_sort is not None and a0 is not None and a0.kind == "arr":
        it.on_sort(a0, node, 1)
    if fn in NP_MUTATE:
        if a0 is not None:
            it.write(a0, node, f"np.{fn}", st)
        return NONE
    if fn in CMP_UFUNCS and len(args) >= 2:
        return compare(it, CMP_UFUNCS[fn], args[0], args[1], st, node)
    if fn in ("logical_not", "invert", "bitwise_not"):
        return logical_not(it, a0)
    if fn in ("logical_and", "logical_or", "bitwise_and", "bitwise_or"):
        op = "&" if fn.endswith("and") else "|"
        r = binop(it, op, args[0], args[1], st, node)
        if r.kind == "arr":
            r = r.replace(data="b")
        return r
    if fn in ("logical_and.reduce", "logical_or.reduce"):
        return arr(it, T("call", fn, *[a.term for a in args]), node, 1, None, "b")
    if fn in ("add", "subtract", "multiply", "divide", "true_divide", "power") and \
            len(args) >= 2 and outv is None:
        return binop(it, {"add": "+", "subtract": "-", "multiply": "*", "divide": "/",
                          "true_divide": "/", "power": "**"}[fn], args[0], args[1], st, node)
    if fn in UFUNCS:
        if fn == "nan_to_num" and "copy" in kwargs and not _truthy(kwargs["copy"]):
            it.write(a0, node, "np.nan_to_num(copy=False)", st)
        extra = [kwargs[k] for k in sorted(kwargs) if k not in ("out",)]
        arr_args = [x for x in args]
        r = ufunc(it, fn, arr_args, st, node)
        if extra:
            r = r.replace(term=T("ukw", r.term, *[x.term for x in extra]))
        if r.kind == "arr" and is_bool_mask(a0) and fn in ("abs",):
            r = r.replace(data=None)
        return r
    if fn in BOOL_UFUNCS:
        r = ufunc(it, fn, args, st, node)
        if r.kind == "arr":
            return r.replace(data="b")
        return vbool(r.term)
    if fn in REDUCE:
        if fn in ("quantile", "percentile"):
            ax = axis_of(args, kwargs, 2)
            if ax is None:
                q = kwget(args, kwargs, 1, "q")
                if q is not None and it.strip(q).kind in ("num", "any"):
                    return vnum(T("red", fn, a0.term, q.term))
                return arr(it, T("red", fn, *[a.term for a in args]), node, None, None)
            return arr(it, T("red", fn, *[a.term for a in args], const(ax)), node, None,
                       it.ln(a0) if ax == 1 and a0.kind == "arr" else None)
        return reduce_(it, fn, a0, args, kwargs, st, node)
    if fn in SAME_LEN:
        if a0.kind in ("list", "tuple"):
            a0 = as_array(it, a0, st, node)
        if a0.kind == "arr":
            ext = [x.term for x in args[1:]] + [T("k", k, kwargs[k].term) for k in sorted(kwargs)]
            return arr(it, T("call", fn, a0.term, *ext), node, a0.nd, it.ln(a0))
        return arr(it, T("call", fn, a0.term), node, None, None)
    if fn == "array" or fn == "copy":
        c = kwargs.get("copy")
        if c is not None and not _truthy(c) and a0.kind == "arr":
            return a0
        dt = kwget(args, kwargs, 1, "dtype")
        r = as_array(it, a0, st, node)
        return r
    if fn in ("asarray", "asanyarray", "ascontiguousarray", "require", "asfarray",
              "asarray_chkfinite", "asfortranarray"):
        if a0.kind == "arr":
            return a0
        return as_array(it, a0, st, node)
    if fn in ("atleast_2d", "atleast_1d"):
        if a0.kind == "arr":
            if a0.nd is not None and a0.nd >= (2 if fn[-2] == "2" else 1):
                return a0
            return a0.replace(term=T(fn, a0.term), nd=2 if fn[-2] == "2" else a0.nd,
                              ln=const(1) if fn[-2] == "2" and a0.nd == 1 else None)
        return as_array(it, a0, st, node)
    if fn in ("squeeze", "ravel", "reshape", "transpose", "swapaxes", "expand_dims",
              "moveaxis", "flatten"):
        if a0.kind != "arr":
            a0 = as_array(it, a0, st, node)
        return arr_method(it, a0, fn, args[1:], kwargs, st, node)
    if fn in VIEWS:
        locs = a0.locs if a0 is not None else EMPTY
        if a0 is not None and a0.kind == "arr":
            return AV("arr", T("call", fn, *[a.term for a in args],
                               *[T("k", k, v.term) for k, v in sorted(kwargs.items())]),
                      a0.locs, None, None, None)
        return vany(T("call", fn, *[a.term for a in args]), weak(locs))
    if fn in ("vstack", "row_stack"):
        return stack_seq(it, a0, st, node, "vstack")
    if fn == "hstack":
        return stack_seq(it, a0, st, node, "hstack")
    if fn == "concatenate":
        ax = axis_of(args, kwargs, 1)
        if ax in (None, 0) and "axis" not in kwargs or ax == 0:
            return stack_seq(it, a0, st, node, "concatenate")
        if ax == 1:
            items, h = seq_parts(it, a0, st, node)
            if items is not None:
                r = hcat(it, items, st, node)
                p = [x for x in items if it.strip(x).kind == "arr"]
                if p:
                    r = r.replace(nd=it.strip(p[0]).nd)
                return r
        return arr(it, T("call", fn, a0.term, const(str(ax))), node, None, None)
    if fn == "append":
        ax = axis_of(args, kwargs, 2)
        if ax == 0 or (a0.kind == "arr" and a0.nd == 1):
            return concat(it, [a0, kwget(args, kwargs, 1, "values")], st, node, "concatenate")
        return arr(it, T("call", fn, *[a.term for a in args]), node, None, None)
    if fn in ("column_stack",):
        items, h = seq_parts(it, a0, st, node)
        if items is not None:
            return hcat(it, items, st, node)
        return arr(it, T("call", fn, a0.term), node, 2, None)
    if fn in ("stack", "block", "dstack"):
        ax = axis_of(args, kwargs, 1)
        if fn == "stack" and ax in (None, 0):
            if a0.kind in ("list", "tuple"):
                return as_array(it, a0, st, node)
        if fn == "block":
            items, h = seq_parts(it, a0, st, node)
            if items and all(it.strip(x).kind != "list" for x in items):
                return stack_seq(it, a0, st, node, "hstack")
        return arr(it, T("call", fn, a0.term), node, None, None)
    if fn in ("zeros", "ones", "empty"):
        sh = kwget(args, kwargs, 0, "shape")
        return shape_arr(it, sh, node, {"zeros": const(0.0), "ones": const(1.0),
                                        "empty": None}[fn], st, dtype_data(args, kwargs, 1))
    if fn == "full":
        sh = kwget(args, kwargs, 0, "shape")
        fv = kwget(args, kwargs, 1, "fill_value")
        dd = dtype_data(args, kwargs, 2)
        if dd is None and fv is not None and fv.kind == "bool":
            dd = "b"
        return shape_arr(it, sh, node, fv.term if fv is not None else None, st, dd)
    if fn in ("zeros_like", "ones_like", "empty_like", "full_like"):
        fv = {"zeros_like": const(0.0), "ones_like": const(1.0), "empty_like": const("?")}.get(fn)
        if fn == "full_like":
            fv = kwget(args, kwargs, 1, "fill_value").term
        dd = dtype_data(args, kwargs, 2 if fn == "full_like" else 1)
        if fn == "full_like" and dd is None and is_const(fv) and isinstance(const_value(fv), bool):
            dd = "b"
        if dd is None and "dtype" not in kwargs and a0.kind == "arr":
            dd = a0.data
        if a0.kind == "arr":
            if a0.nd == 1:
                return arr(it, T("rep", fv, it.ln(a0)), node, 1, it.ln(a0), dd)
            return arr(it, T("const2", fv, T("shape", a0.term, it.ln(a0))), node, a0.nd, it.ln(a0),
                       dd)
        return arr(it, T("const2", fv, a0.term), node, None, None)
    if fn == "arange":
        nums = [a for a in args if a.kind in ("num", "bool", "any")]
        if len(args) == 1:
            return arr(it, T("arange", const(0), a0.term, const(1)), node, 1, a0.term, "i")
        if len(args) == 2:
            return arr(it, T("arange", args[0].term, args[1].term, const(1)), node, 1,
                       lin_sub(args[1].term, args[0].term), "i")
        return arr(it, T("arange", *[a.term for a in args]), node, 1, None)
    if fn in ("linspace", "logspace", "geomspace"):
        n = kwget(args, kwargs, 2, "num")
        return arr(it, T("call", fn, *[a.term for a in args],
                         *[kwargs[k].term for k in sorted(kwargs)]), node, 1,
                   n.term if n is not None else const(50))
    if fn in ("eye", "identity"):
        return arr(it, T("eye", a0.term), node, 2, a0.term)
    if fn in ("diag",):
        if a0.kind == "arr" and a0.nd == 1:
            return arr(it, T("diag", a0.term), node, 2, it.ln(a0))
        return arr(it, T("diag", a0.term), node, 1 if a0.kind == "arr" and a0.nd == 2 else None,
                   None, None, a0.locs if a0.kind == "arr" and a0.nd != 1 else None)
    if fn in ("dot", "matmul"):
        return matmul(it, args[0], args[1], node)
    if fn in ("inner", "vdot"):
        if all(a.kind == "arr" and a.nd == 1 for a in args):
            return vnum(T("dot", *[a.term for a in args]))
        return vany(T("call", fn, *[a.term for a in args]))
    if fn == "outer":
        return arr(it, T("call", fn, *[a.term for a in args]), node, 2,
                   it.ln(a0) if a0.kind == "arr" else None)
    if fn == "unique":
        if a0.kind in ("list", "tuple"):
            a0 = as_array(it, a0, st, node)
        ax = axis_of(args, kwargs, 4)
        base = a0.term if ax is None else T("ax", a0.term, const(ax))
        if it.label_model and base is it.label_model[0] and not kwargs.get("return_index") and \
                not kwargs.get("return_inverse"):
            u = it.mk_list([vconst(x) for x in it.label_model[1]], st, node, "ul")
            rc = kwargs.get("return_counts")
            if rc is None or rc.is_const and not rc.value:
                return u
            return vtuple([u, it.mk_list([vnum(t) for t in it.label_model[2]], st, node, "uc")])
        u = arr(it, T("unique", base), node, 1 if ax is None else a0.nd, T("len", T("unique", base)))
        res = [u]
        for n, key in (("return_index", "uidx"), ("return_inverse", "uinv"),
                       ("return_counts", "ucounts")):
            f = kwargs.get(n)
            if f is not None and not (f.is_const and not f.value):
                if n == "return_inverse":
                    ln = it.ln(a0) if a0.kind == "arr" else None
                else:
                    ln = T("len", T("unique", base))
                if n == "return_counts" and a0.kind == "arr" and \
                        (a0.nd == 1 or ax is not None and ax == 0):
                    it.term_total[T(key, base)] = it.ln(a0)
                res.append(AV("arr", T(key, base), frozenset([it.newloc(node, key)]), "i", 1, ln))
        if len(res) == 1 and len(args) > 1:
            return vany(T("call", fn, *[a.term for a in args]))
        return res[0] if len(res) == 1 else vtuple(res)
    if fn in ("where", "nonzero", "flatnonzero", "argwhere"):
        if fn == "where" and len(args) == 3:
            r = ufunc(it, "where3", args, st, node)
            return r
        if a0.kind in ("list", "tuple"):
            a0 = as_array(it, a0, st, node)
        if a0.kind != "arr":
            w = arr(it, T("where", a0.term), node, 1, None, "i")
            return vtuple([w]) if fn in ("where", "nonzero") else w
        c = mask_count(it, a0) if a0.data == "b" and a0.nd == 1 else T("cnt", T("nz", a0.term))
        w = arr(it, T("where", a0.term), node, 1, c, "i")
        if fn == "flatnonzero":
            return w
        if fn == "argwhere":
            return w.replace(nd=2, term=T("argwhere", a0.term))
        if a0.nd == 2:
            w0 = arr(it, T("where2", a0.term, 0), node, 1, c, "i")
            w1 = arr(it, T("where2", a0.term, 1), node, 1, c, "i")
            return vtuple([w0, w1])
        return vtuple([w])
    if fn in ("isin", "in1d"):
        b = args[1] if len(args) > 1 else kwargs.get("test_elements")
        bt = b.term
        if b.kind in ("list", "set"):
            bt = T("setof", it.list_ver(it.list_h(b, st)))
        inv = kwargs.get("invert")
        t = T("isin", a0.term, bt)
        if inv is not None and _truthy(inv):
            t = T("not", t)
        return arr(it, t, node, a0.nd if a0.kind == "arr" else None,
                   it.ln(a0) if a0.kind == "arr" else None, "b")
    if fn == "delete":
        obj = kwget(args, kwargs, 1, "obj")
        ax = axis_of(args, kwargs, 2)
        obj = it.strip(obj)
        if a0.kind == "arr" and (ax == 0 or (ax is None and a0.nd == 1)):
            return delete_rows(it, a0, obj, st, node)
        if a0.kind == "arr" and ax == 1:
            return arr(it, T("delcols", a0.term, obj.term), node, a0.nd, it.ln(a0))
        return arr(it, T("call", fn, a0.term, obj.term, const(str(ax))), node, None, None)
    if fn == "insert":
        return arr(it, T("call", fn, *[a.term for a in args]), node,
                   a0.nd if a0.kind == "arr" else None, None)
    if fn in ("take", "compress"):
        ax = axis_of(args, kwargs, 2)
        if fn == "compress":
            a0, sel = args[1], args[0]
        else:
            sel = args[1] if len(args) > 1 else kwargs.get("indices")
        if it.trace_ops and fn == "take" and sel is not None:
            it.event("astake", node, (a0, sel, ax), st)
        if ax == 0 or (ax is None and a0.kind == "arr" and a0.nd == 1):
            if sel.kind in ("arr", "list"):
                return select_rows(it, a0, sel, st, node)
        return arr(it, T("call", fn, *[a.term for a in args], const(str(ax))), node, None,
                   it.ln(a0) if ax == 1 and a0.kind == "arr" else None)
    if fn == "repeat":
        n = kwget(args, kwargs, 1, "repeats")
        ax = axis_of(args, kwargs, 2)
        n = it.strip(n)
        if a0.kind in ("num", "bool", "str") and n.kind in ("num", "any", "bool"):
            return arr(it, T("rep", a0.term, n.term), node, 1, n.term,
                       "b" if a0.kind == "bool" else None)
        if a0.kind == "any" and ax is None and n.kind in ("num", "any"):
            if a0.data == ("aidx", 1) or scalarish(a0):
                return arr(it, T("rep", a0.term, n.term), node, 1, n.term)
            return arr(it, T("rep", a0.term, n.term), node, 1, n.term)
        if a0.kind in ("arr", "list", "tuple") and n.kind in ("num", "any"):
            if a0.kind != "arr":
                a0 = as_array(it, a0, st, node)
            ln = num_mul(it.ln(a0), n.term) if (ax == 0 or a0.nd == 1) else None
            if a0.term.op == "rep" and ln is not None:
                return arr(it, T("rep", a0.term.args[0], ln), node, 1, ln)
            return arr(it, T("call", fn, a0.term, n.term, const(str(ax))), node,
                       a0.nd if ax is not None else 1, ln)
        if a0.kind in ("arr", "num", "any") and n.kind in ("arr", "list"):
            nt = n if n.kind == "arr" else as_array(it, n, st, node)
            return arr(it, T("call", fn, a0.term, nt.term, const(str(ax))), node,
                       a0.nd if ax is not None else 1, T("red", "sum", nt.term))
        return arr(it, T("call", fn, a0.term, n.term), node, None, None)
    if fn == "tile":
        n = kwget(args, kwargs, 1, "reps")
        n = it.strip(n)
        if a0.kind in ("num", "bool", "str") and n.kind in ("num", "any"):
            return arr(it, T("rep", a0.term, n.term), node, 1, n.term)
        if a0.kind == "any" and n.kind in ("num",):
            return arr(it, T("rep", a0.term, n.term), node, 1, n.term)
        if n.kind == "tuple" and len(n.data) == 2:
            if a0.kind == "arr" and a0.nd == 1:
                return arr(it, T("tile", a0.term, n.term), node, 2, n.data[0].term)
            if a0.kind == "arr" and a0.nd == 2:
                return arr(it, T("tile", a0.term, n.term), node, 2,
                           num_mul(it.ln(a0), n.data[0].term))
        if a0.kind == "arr" and a0.nd == 1 and n.kind == "num":
            return arr(it, T("tile", a0.term, n.term), node, 1, num_mul(it.ln(a0), n.term))
        return arr(it, T("tile", a0.term, n.term), node, None, None)
    if fn == "apply_along_axis" or fn == "apply_over_axes":
        f = kwget(args, kwargs, 0, "func1d")
        ax = kwget(args, kwargs, 1, "axis")
        a = it.strip(kwget(args, kwargs, 2, "arr"))
        sub = AV("arr", T("slice1d", a.term), weak(a.locs), None, 1, None)
        res = None
        if f.kind in ("func", "bound", "partial"):
            res = it.merge_alts(it.call(f, [sub] + args[3:], {}, [], st.copy(), node), st.copy())
        ln = it.ln(a) if a.kind == "arr" and ax is not None and ax.is_const and ax.value == 1 \
            else None
        nd = None
        if f.kind == "mod" and f.data in ("numpy.argsort", "numpy.sort"):
            nd = a.nd
        elif isinstance(res, AV) and a.kind == "arr" and a.nd is not None:
            if res.kind == "arr" and res.nd is not None:
                nd = a.nd - 1 + res.nd
            elif res.kind in ("num", "bool"):
                nd = a.nd - 1
        return arr(it, T("call", fn, f.term, ax.term if ax is not None else const(0), a.term),
                   node, nd, ln)
    if fn in ("linalg.norm",):
        ax = kwget(args, kwargs, 2, "axis")
        if ax is None or ax.kind == "none":
            return vnum(T("call", fn, *[a.term for a in args]))
        if ax.is_const and a0.kind == "arr":
            return arr(it, T("call", fn, *[a.term for a in args], ax.term), node,
                       None if a0.nd is None else a0.nd - 1,
                       it.ln(a0) if ax.value in (1, -1) else None)
        return arr(it, T("call", fn, *[a.term for a in args], ax.term), node, None, None)
    if fn in ("linalg.det", "linalg.cond", "trace", "linalg.matrix_rank"):
        return vnum(T("call", fn, *[a.term for a in args]))
    if fn in ("linalg.inv", "linalg.pinv", "linalg.cholesky", "linalg.solve"):
        return arr(it, T("call", fn, *[a.term for a in args]), node,
                   2 if fn != "linalg.solve" else
                   (args[1].nd if len(args) > 1 and args[1].kind == "arr" else None),
                   it.ln(a0) if a0.kind == "arr" else None)
    if fn in ("linalg.eig", "linalg.eigh"):
        return vtuple([arr(it, T("call", fn, 0, a0.term), node, 1, it.ln(a0)),
                       AV("arr", T("call", fn, 1, a0.term),
                          frozenset([it.newloc(node, "eigw")]), None, 2, it.ln(a0))])
    if fn in ("cov", "corrcoef"):
        return arr(it, T("call", fn, *[a.term for a in args],
                         *[T("k", k, v.term) for k, v in sorted(kwargs.items())]), node,
                   None, None)
    if fn in ("allclose", "array_equal", "array_equiv", "isscalar", "iscomplexobj"):
        return vbool(T("call", fn, *[a.term for a in args]))
    if fn == "bincount":
        if it.trace_ops and args:
            it.event("asindex", node, ("bincount", args[0]), st)
        return arr(it, T("call", fn, *[a.term for a in args],
                         *[T("k", k, v.term) for k, v in sorted(kwargs.items())]), node, 1,
                   None, "i")
    if fn == "digitize" or fn == "searchsorted":
        return arr(it, T("call", fn, *[a.term for a in args]), node, 1, None)
    if fn in ("setdiff1d", "intersect1d", "union1d", "diff", "trim_zeros", "extract"):
        return arr(it, T("call", fn, *[a.term for a in args],
                         *[T("k", k, v.term) for k, v in sorted(kwargs.items())]), node,
                   (a0.nd if fn == "diff" and a0.kind == "arr" else 1), None)
    if fn in ("triu_indices", "tril_indices", "diag_indices"):
        return vtuple([arr(it, T("call", fn, i, *[a.term for a in args],
                                 *[kwargs[k].term for k in sorted(kwargs)]), node, 1,
                           T("len", T("call", fn, *[a.term for a in args],
                                      *[kwargs[k].term for k in sorted(kwargs)])))
                       for i in range(2)])
    if fn == "ix_":
        return vtuple([arr(it, T("call", fn, i, a.term), node, None, None)
                       for i, a in enumerate(args)])
    if fn == "einsum":
        nd, ln = None, None
        if args and args[0].is_const and isinstance(args[0].value, str) and \
                "->" in args[0].value and "." not in args[0].value:
            ins, out = args[0].value.replace(" ", "").split("->")
            nd = len(out)
            if nd == 0:
                return vnum(T("call", fn, *[a.term for a in args]))
            for spec, op in zip(ins.split(","), args[1:]):
                op = it.strip(op)
                if spec[:1] == out[0] and op.kind == "arr":
                    ln = it.ln(op)
                    break
        return arr(it, T("call", fn, *[a.term for a in args]), node, nd, ln)
    if fn in ("int32", "int64", "float64", "float32", "int", "float", "int_", "float_", "bool_",
              "uint8", "str_"):
        if a0 is None:
            return vnum(const(0))
        if a0.kind == "arr":
            return a0
        return vnum(T("cast", fn, a0.term))
    if fn in ("errstate", "seterr", "set_printoptions", "seterrcall", "setbufsize"):
        it.event("extcall", node, ("numpy." + fn, None, tuple(args), dict(kwargs), tuple(rest)), st)
        return vany(T("call", fn))
    if fn in ("load", "loadtxt", "genfromtxt", "save", "savetxt", "fromfile"):
        return vany(T("call", fn, *[a.term for a in args]))
    if fn in ("equal.outer", "subtract.outer", "add.outer", "multiply.outer", "less.outer"):
        return arr(it, T("call", fn, *[a.term for a in args]), node, 2, it.ln(args[0])
                   if args[0].kind == "arr" else None)
    if fn == "vectorize":
        return AV("any", T("vectorize", a0.term), data=None)
    if fn == "poly1d" or fn == "polyfit" or fn == "polyval":
        return vany(T("call", fn, *[a.term for a in args]))
    if fn == "result_type" or fn == "dtype" or fn == "iinfo" or fn == "finfo":
        return vany(T("call", fn, *[a.term for a in args]))
    if fn == "meshgrid":
        return vany(T("call", fn, *[a.term for a in args]))
    it.gap("np." + fn)
    return vany(T("call", fn, *[a.term for a in args],
                  *[T("k", k, v.term) for k, v in sorted(kwargs.items())]),
                weak(frozenset().union(*[a.locs for a in args])) if args else EMPTY)


def scalarish(a):
    return True


def delete_rows(it, a0, obj, st, node):
    if obj.kind == "arr" and is_bool_mask(obj) and obj.nd == 1:
        m = logical_not(it, obj)
        return arr(it, T("idx", a0.term, m.term), node, a0.nd, mask_count(it, m), a0.data)
    if obj.kind in ("list", "set"):
        h = it.list_h(obj, st)
        ot = T("rowsof", it.list_ver(h))
        if h.items is not None and not h.items:
            return arr(it, a0.term, node, a0.nd, it.ln(a0), a0.data)
    else:
        ot = obj.term
    if it.on_delete is not None:
        it.on_delete(a0, ot, st, node)
    if ot.op == "where":
        m = ot.args[0]
        neg = m.args[0] if m.op == "not" else T("not", m)
        # length of the mask equals the length of the array it indexes
        return arr(it, T("idx", a0.term, neg), node, a0.nd,
                   _cnt(neg, it.ln(a0)), a0.data)
    if obj.kind == "num":
        return arr(it, T("del", a0.term, ot), node, a0.nd, lin_sub(it.ln(a0), const(1)), a0.data)
    return arr(it, T("del", a0.term, ot), node, a0.nd, T("dellen", it.ln(a0), ot), a0.data)


def _truthy(a):
    if a.kind == "none":
        return False
    if a.is_const:
        return bool(a.value)
    return True


# ------------------------------------------------------------------- random
DRAWS = {"choice", "random_sample", "random", "ranf", "sample", "rand", "randn", "randint",
         "random_integers", "normal", "standard_normal", "uniform", "permutation", "shuffle",
         "multivariate_normal", "dirichlet", "binomial", "poisson", "exponential", "beta",
         "gamma", "multinomial", "laplace", "logistic", "triangular", "bytes", "integers",
         "permuted", "geometric", "weibull", "lognormal", "vonmises", "chisquare",
         "standard_t", "hypergeometric"}
SIZE_POS = {"choice": 1, "random_sample": 0, "random": 0, "ranf": 0, "sample": 0, "randint": 2,
            "normal": 2, "standard_normal": 0, "uniform": 2, "multivariate_normal": 2,
            "dirichlet": 1, "binomial": 2, "poisson": 1, "exponential": 1, "integers": 2,
            "beta": 2, "gamma": 2}


def draw(it, fn, args, kwargs, st, node, who):
    t = T("draw", it.site(node), fn)
    args = [it.strip(a) for a in args]
    it.draw_args.setdefault(t, {})[tuple(a.term for a in args) +
                                   tuple((k, it.strip(v).term) for k, v in kwargs.items())] = 1
    if fn == "shuffle" or fn == "permuted":
        if args:
            it.write(args[0], node, "rng.shuffle", st)
            if args[0].kind == "list":
                h = it.list_h(args[0], st)
                it.list_havoc(args[0], st, node, ln=h.ln)
        return NONE
    if fn == "permutation":
        a = args[0] if args else kwargs.get("x")
        if a.kind in ("num",):
            return arr(it, T("perm", t, a.term), node, 1, a.term, "i")
        if a.kind == "arr":
            return arr(it, T("permuted", t, a.term), node, a.nd, it.ln(a), a.data)
        if a.kind == "list":
            h = it.list_h(a, st)
            return arr(it, T("permuted", t, it.list_ver(h)), node, 1, h.ln)
        return arr(it, T("permuted", t, a.term), node, 1, T("len", a.term))
    if fn in ("rand", "randn"):
        if not args:
            return vnum(t)
        return arr(it, t, node, len(args), args[0].term)
    size = kwget(args, kwargs, SIZE_POS.get(fn), "size")
    data = "i" if fn in ("randint", "integers") else None
    if fn == "choice" and args:
        a = args[0]
        if a.kind == "num":
            data = "i"
        if size is None or size.kind == "none":
            if a.kind in ("num",):
                return vnum(t)
            items, elem, ln = it.iter_info(a, st, node, T("loop", it.site(node, "ch")))
            if items is not None:
                e = None
                for x in items:
                    e = x if e is None else it.join_elem(e, x)
                if e is None:
                    return vnum(t)
                if e.kind in ("num", "bool", "str", "any"):
                    return AV(e.kind, T("pick", t, e.term))
                return e
            if a.kind in ("arr", "list") and elem is not None:
                if elem.kind in ("num", "any"):
                    return AV("num" if a.kind == "arr" else elem.kind, T("pick", t, a.term))
                if elem.kind == "arr":
                    return AV("num", T("pick", t, a.term))
                return elem.replace(term=T("pick", t, elem.term))
            return vnum(T("pick", t, a.term))
        t = T("picks", t, a.term if a.kind != "list" else it.list_ver(it.list_h(a, st)))
        it.pick_info[t] = (size.term, kwget(args, kwargs, 2, "replace"))
    if size is None or size.kind == "none":
        if fn == "multivariate_normal":
            return arr(it, t, node, 1, None)
        if fn == "dirichlet":
            return arr(it, t, node, 1, None)
        arrs = [a for a in args if a.kind == "arr"]
        if arrs:
            nd, ln = bcast(it, arrs)
            return arr(it, t, node, nd, ln, data)
        if any(a.kind in ("any", "union") for a in args + list(kwargs.values())):
            return vany(t)
        return vnum(t)
    size = it.strip(size)
    if size.kind in ("num", "bool"):
        nd = 1
        if fn in ("multivariate_normal", "dirichlet"):
            nd = 2
        return arr(it, t, node, nd, size.term, data)
    if size.kind == "tuple":
        return arr(it, t, node, len(size.data), size.data[0].term if size.data else None, data)
    if size.kind == "any" and size.term.op == "shape":
        return arr(it, t, node, None, size.term.args[1], data)
    return arr(it, t, node, None, size.term if False else None, data)


# ------------------------------------------------------------ generic calls
CLASSLIKE_FUNCS = set()


def _last(d):
    return d.rsplit(".", 1)[-1]


SK_ARR = {"sklearn.metrics.pairwise_distances": 2, "scipy.special.expit": None,
          "scipy.stats.rankdata": 1, "sklearn.metrics.pairwise.euclidean_distances": 2,
          "sklearn.preprocessing.normalize": 2, "sklearn.preprocessing.scale": 2,
          "sklearn.preprocessing.minmax_scale": 2, "sklearn.utils.shuffle": None,
          "sklearn.utils.resample": None}


def call_ext(it, name, args, kwargs, rest, st, node):
    if name == "inspect.signature" and len(args) == 1 and it.strip(args[0]).kind == "cls":
        ci = it.strip(args[0]).data
        f = ci.find("__init__")
        if f is not None and f[0] == "method":
            a = f[1].node.args
            ns = [x.arg for x in a.posonlyargs + a.args][1:] + \
                ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + \
                ([a.kwarg.arg] if a.kwarg else [])
            return AV("any", T("signature", ci.name), EMPTY, ("signature", tuple(ns)))
    ov = it.ext_override.get(name)
    it.event("extcall", node, (name, None, tuple(args), dict(kwargs), tuple(rest)), st)
    if ov is not None:
        r = ov(it, name, args, kwargs, rest, st, node)
        if r is not None:
            return r
    if name.startswith("numpy.random."):
        fn = name[len("numpy.random."):]
        if fn in DRAWS:
            return draw(it, fn, args, kwargs, st, node, "global")
        if fn in ("RandomState", "default_rng", "Generator", "SeedSequence", "PCG64", "MT19937"):
            return mk_ext(it, name, args, kwargs, rest, st, node)
        return vany(T("call", name, it.site(node)))
    if name.startswith("numpy."):
        fn = name[len("numpy."):]
        return call_numpy(it, fn, args, kwargs, rest, st, node)
    root = name.split(".")[0]
    last = _last(name)
    if root == "random" and last in ("shuffle",):
        if args:
            it.write(it.strip(args[0]), node, "random.shuffle", st)
        return NONE
    if name.startswith("object."):
        return NONE
    if name in ("copy.copy", "copy.deepcopy"):
        return do_copy(it, args[0], st, node, deep=name.endswith("deepcopy"))
    if name in ("functools.partial",):
        return AV("partial", T("partial", it.site(node), *[a.term for a in args]),
                  data=(args[0], tuple(args[1:]), dict(kwargs)))
    if name == "importlib.import_module":
        a = args[0]
        if a.is_const and isinstance(a.value, str):
            return AV("mod", T("mod", a.value), data=a.value)
        return vany(T("module", a.term))
    if name in ("itertools.product", "itertools.combinations", "itertools.chain",
                "itertools.permutations", "itertools.zip_longest", "itertools.islice",
                "itertools.combinations_with_replacement", "itertools.count",
                "itertools.cycle", "itertools.accumulate"):
        return itertools_call(it, last, args, kwargs, st, node)
    if name in ("math.floor", "math.ceil"):
        return vnum(T("u", last, args[0].term))
    if root == "math":
        return vnum(T("call", name, *[a.term for a in args]))
    if name in ("time.time", "time.perf_counter", "time.monotonic", "time.process_time"):
        return vnum(T("time", it.site(node)))
    if name == "scipy.stats.mode" or name == "scipy.stats.mstats.mode":
        return vany(T("call", name, *[a.term for a in args]))
    if root in ("sklearn", "scipy") and last in ("expit", "logit", "erf", "gamma", "gammaln"):
        return ufunc(it, last, args, st, node)
    if name in ("sklearn.metrics.pairwise_distances",
                "sklearn.metrics.pairwise.pairwise_distances",
                "sklearn.metrics.pairwise.euclidean_distances",
                "scipy.spatial.distance.cdist"):
        a = it.strip(args[0]) if args else it.strip(kwargs.get("X", NONE))
        return arr(it, T("call", name, *[x.term for x in args],
                         *[T("k", k, v.term) for k, v in sorted(kwargs.items())]), node, 2,
                   it.ln(a) if a.kind == "arr" else None)
    if root in ("sklearn",) and last in ("normalize", "scale", "minmax_scale", "robust_scale",
                                         "maxabs_scale"):
        a = it.strip(args[0])
        c = kwargs.get("copy")
        if c is not None and not _truthy(c):
            it.write(a, node, f"{last}(copy=False)", st)
        return arr(it, T("call", name, *[x.term for x in args]), node, 2,
                   it.ln(a) if a.kind == "arr" else None)
    if root == "sklearn" and last in ("shuffle", "resample") and args:
        res = []
        site = T("draw", it.site(node), last)
        for a in args:
            a = it.strip(a)
            if a.kind == "arr":
                res.append(arr(it, T("permuted", site, a.term), node, a.nd, it.ln(a)
                               if last == "shuffle" else T("len", T("rs", site)), a.data))
            else:
                res.append(vany(T("permuted", site, a.term)))
        return res[0] if len(res) == 1 else vtuple(res)
    if root == "sklearn" and last == "train_test_split":
        res = []
        site = T("draw", it.site(node), last)
        for a in args:
            a = it.strip(a)
            for n in ("tr", "te"):
                if a.kind == "arr":
                    res.append(AV("arr", T("idx", a.term, T("split", site, n)),
                                  frozenset([it.newloc(node, f"tts{len(res)}")]), a.data, a.nd,
                                  T("cnt", T("split", site, n))))
                else:
                    res.append(vany(T("idx", a.term, T("split", site, n))))
        return vtuple(res)
    if name == "sklearn.base.clone" and args:
        return do_copy(it, args[0], st, node, deep=True)
    if root == "sklearn" and (last.startswith("check_") or last in ("column_or_1d",
                                                                    "as_float_array")):
        if last == "check_X_y":
            return vtuple([it.strip(a) for a in args[:2]])
        if args and it.strip(args[0]).kind == "arr":
            return it.strip(args[0])
    if name in ("joblib.delayed",):
        return args[0]
    if name == "scipy.linalg.circulant":
        a = it.strip(args[0])
        if a.kind in ("list", "tuple"):
            a = as_array(it, a, st, node)
        return arr(it, T("call", name, a.term), node, 2, it.ln(a) if a.kind == "arr" else None)
    if name in ("scipy.stats.rankdata",):
        a = it.strip(args[0])
        return arr(it, T("call", name, a.term), node, a.nd if a.kind == "arr" else None,
                   it.ln(a) if a.kind == "arr" else None)
    if name == "warnings.catch_warnings":
        return vany(T("ctxmgr", "catch_warnings"))
    if name in ("heapq.heappush", "heapq.heapify", "heapq.heappop", "bisect.insort",
                "bisect.insort_left", "bisect.insort_right"):
        if args:
            it.write(it.strip(args[0]), node, name, st)
            if it.strip(args[0]).kind == "list":
                it.list_havoc(it.strip(args[0]), st, node)
        return vany(T("call", name, it.site(node)))
    if name in ("collections.Counter", "collections.OrderedDict", "collections.defaultdict",
                "collections.deque"):
        return vany(T("call", name, *[a.term for a in args]),
                    frozenset([it.newloc(node, "coll")]))
    if name == "operator.itemgetter":
        return vany(T("call", name, *[a.term for a in args]))
    # class-like callables create an external object
    if last[:1].isupper() and root not in ("logging",) and last not in EXC or \
            name in ("minisom.MiniSom",):
        return mk_ext(it, name, args, kwargs, rest, st, node)
    if root in ("sklearn", "scipy", "metric_learn") and last in (
            "accuracy_score", "roc_auc_score", "log_loss", "f1_score", "gmean", "skew"):
        if last in ("accuracy_score", "roc_auc_score", "log_loss", "f1_score"):
            return vnum(T("call", name, *[a.term for a in args],
                          *[T("k", k, v.term) for k, v in sorted(kwargs.items())]))
    if last == "cross_val_score" or last == "cross_val_predict":
        return arr(it, T("call", name, it.site(node), *[a.term for a in args]), node, 1, None)
    if last in ("mutual_info_regression", "mutual_info_classif"):
        a = it.strip(args[0])
        return arr(it, T("call", name, *[x.term for x in args],
                         *[T("k", k, v.term) for k, v in sorted(kwargs.items())]), node, 1,
                   T("ncols", a.term))
    locs = EMPTY
    if root in ("pandas", "sklearn", "scipy", "numpy"):
        for a in args:
            locs |= weak(a.locs)
    extra = [T("k", k, v.term) for k, v in sorted(kwargs.items())]
    impure = root in ("os", "time", "datetime", "random", "uuid", "secrets", "glob", "shutil",
                      "multiprocessing", "threading", "queue")
    if impure:
        extra.append(const(it.site(node)))
    return vany(T("call", name, *[a.term for a in args], *extra), locs)


def mk_ext(it, name, args, kwargs, rest, st, node):
    loc = it.newloc(node, "e:" + _last(name))
    state = T("new", name, *[a.term for a in args],
              *[T("k", k, v.term) for k, v in sorted(kwargs.items())],
              *[T("kr", r.term) for r in rest])
    st.heap[loc] = HExt(name, state, tuple(args), dict(kwargs))
    return AV("ext", T("extobj", it.site(node), name), frozenset([loc]), loc)


def do_copy(it, a, st, node, deep=False):
    a = it.strip(a)
    loc = it.newloc(node, "cp")
    if a.kind == "arr":
        return a.replace(locs=frozenset([loc]))
    if a.kind in ("list", "dict", "set", "obj", "ext") and a.data in st.heap:
        st.heap[loc] = st.heap[a.data]
        return AV(a.kind, T("copy", a.term, it.site(node)), frozenset([loc]), loc)
    if a.kind in ("num", "str", "bool", "none"):
        return a
    if a.kind == "any":
        return vany(a.term if True else None, frozenset([loc]) if deep else
                    frozenset([loc]) | weak(a.locs))
    if a.kind == "union" and any(x.kind == "dict" for x in a.data):
        st.heap[loc] = it.dict_merge(HDict({}), a, st)
        return AV("dict", T("dictref", it.site(node)), frozenset([loc]), loc)
    return a.replace(locs=frozenset([loc])) if a.kind == "union" and deep else a


def itertools_call(it, fn, args, kwargs, st, node):
    if fn == "chain" and all(it.strip(a).kind in ("list", "tuple") for a in args):
        res = it.mk_list((), st, node, "chain")
        for a in args:
            it.list_extend(res, a, st, node)
        return res
    if fn in ("product", "combinations", "permutations"):
        els = []
        if fn == "product" and args and not kwargs and \
                all(it.strip(a).kind in ("list", "tuple") for a in args):
            known = [it.iter_info(a, st, node, T("loop", it.site(node, str(i))))[0]
                     for i, a in enumerate(args)]
            n = 1
            for k in known:
                n *= len(k) if k is not None else 1000
            if n <= 64:
                import itertools
                return it.mk_list([vtuple(list(p)) for p in itertools.product(*known)], st, node,
                                  "product")
        if fn == "product":
            for i, a in enumerate(args):
                items, e, ln = it.iter_info(a, st, node, T("loop", it.site(node, str(i))))
                if items is not None:
                    e = None
                    for x in items:
                        e = x if e is None else it.join_elem(e, x)
                    if e is not None:
                        e = it.vary(e, T("loop", it.site(node, str(i))), a.term)
                els.append(e if e is not None else vany(T("elem", a.term)))
            elem = vtuple(els)
        else:
            items, e, ln = it.iter_info(args[0], st, node, T("loop", it.site(node)))
            n = args[1] if len(args) > 1 else None
            if items is not None:
                e = None
                for x in items:
                    e = x if e is None else it.join_elem(e, x)
            if n is not None and n.is_const and e is not None and n.value <= 4:
                elem = vtuple([it.vary(e, T("loop", it.site(node, str(i))), args[0].term)
                               for i in range(n.value)])
            else:
                elem = vany(T("combo", args[0].term))
        t = T("call", fn, *[a.term for a in args])
        return AV("iter", t, EMPTY, ("gen", elem, T("len", t)))
    return AV("iter", T("call", fn, *[a.term for a in args]), EMPTY,
              ("gen", vany(T("elem", T("call", fn, *[a.term for a in args]))),
               T("len", T("call", fn, *[a.term for a in args]))))


# ------------------------------------------------------- external objects
FIT_RETURNS_SELF = {"fit", "partial_fit"}
QUERIES = {"kneighbors", "radius_neighbors", "predict", "predict_proba", "score", "transform",
           "decision_function", "score_samples"}
MUTATORS_EXT = {"fit", "partial_fit", "fit_transform", "fit_predict", "set_params", "train",
                "train_random", "train_batch", "compile", "random_weights_init",
                "pca_weights_init", "put", "append", "update"}


def ext_state(it, h, st):
    return h.state


def copy_false(h):
    for n in ("copy", "copy_x", "copy_X"):
        v = h.kwargs.get(n)
        if v is not None and v.is_const and v.value is False:
            return True
        if v is not None and v.is_const and v.value == 0:
            return True
    return False


def call_ext_method(it, cls, attr, obj, args, kwargs, rest, st, node):
    h = st.heap.get(obj.data) if obj.kind == "ext" else None
    it.event("extcall", node, (f"{cls}.{attr}", obj, tuple(args), dict(kwargs), tuple(rest)), st)
    if isinstance(h, HExt) and cls.startswith("numpy.random."):
        if attr in DRAWS:
            return draw(it, attr, args, kwargs, st, node, "obj")
        if attr in ("seed", "set_state"):
            it.event("reseed", node, (cls, tuple(args)), st)
            return NONE
        return vany(T("call", attr, h.state, it.site(node)))
    args = [it.strip(a) for a in args]
    state = h.state if isinstance(h, HExt) else obj.term
    a0 = args[0] if args else None
    if a0 is None and "X" in kwargs:
        a0 = it.strip(kwargs["X"])
    if isinstance(h, HExt) and obj.data in it.pre_locs:
        if attr in ("fit", "fit_transform", "fit_predict"):
            st.written = st.written | {(obj.data, "<state>")}
        elif (obj.data, "<state>") not in st.written:
            it.event("hread", node, (obj.data, "<state>"), st)
    if attr in MUTATORS_EXT and isinstance(h, HExt):
        ns = T("fit", h.state if attr in ("partial_fit", "train", "train_random", "train_batch",
                                          "append", "put", "update")
               else T("refit", ctor_state(h.state)), attr, *[a.term for a in args],
               *[T("k", k, v.term) for k, v in sorted(kwargs.items())])
        nh = HExt(h.cls, ns, h.args, dict(h.kwargs))
        if a0 is not None and a0.kind == "arr":
            nh.kwargs["$fit"] = a0
        st.heap[obj.data] = nh
        it.event("extmut", node, (obj.data, attr, frozenset(obj.locs)), st)
        if it.trace_ops:
            it.event("extfit", node, (cls, attr, args, kwargs), st)
        if it.on_write is not None:
            it.on_write(it, obj, node, f"model {attr}", st)
        h = nh
        state = ns
        if copy_false(h) and attr in ("fit_transform", "fit") and a0 is not None and \
                _last(cls) in ("StandardScaler", "MinMaxScaler", "PCA", "KMeans",
                               "RobustScaler", "MaxAbsScaler", "Normalizer", "Binarizer",
                               "LinearRegression", "Ridge", "Lasso", "QuantileTransformer",
                               "PowerTransformer", "FactorAnalysis", "AffinityPropagation"):
            it.write(a0, node, f"{_last(cls)}(copy=False).{attr}", st)
    if attr in QUERIES and a0 is not None and isinstance(state, Term):
        it.event("query", node, (cls, attr, state, a0), st)
    fitav = h.kwargs.get("$fit") if isinstance(h, HExt) else None
    n0 = it.ln(a0) if a0 is not None and a0.kind == "arr" else None
    if attr == "kneighbors" or attr == "radius_neighbors":
        if a0 is None or a0.kind == "none":
            n0 = it.ln(fitav) if fitav is not None else None
        pos = 2
        rd = kwget(args, kwargs, pos, "return_distance")
        tt = [a.term for a in args] + [T("k", k, v.term) for k, v in sorted(kwargs.items())]
        nd = 2 if attr == "kneighbors" else 1
        ind = arr(it, T("m", attr, "ind", state, *tt), node, nd, n0, "i")
        if rd is not None and rd.is_const and not rd.value:
            return ind
        dist = AV("arr", T("m", attr, "dist", state, *tt),
                  frozenset([it.newloc(node, "dist")]), None, nd, n0)
        if rd is not None and not rd.is_const:
            return AV("union", T("m", attr, state, *tt), EMPTY, (ind, vtuple([dist, ind])))
        return vtuple([dist, ind])
    if attr in FIT_RETURNS_SELF or attr == "set_params":
        return obj
    tt = [a.term for a in args] + [T("k", k, v.term) for k, v in sorted(kwargs.items())]
    t = T("m", attr, state, *tt)
    if attr in ("transform", "fit_transform", "inverse_transform"):
        if copy_false(h) and a0 is not None and attr != "fit_transform" if isinstance(h, HExt) else False:
            it.write(a0, node, f"{_last(cls)}(copy=False).{attr}", st)
        return arr(it, t, node, 2, n0)
    if attr in ("predict", "fit_predict", "score_samples", "apply_1"):
        return arr(it, t, node, 1, n0)
    if attr in ("predict_proba", "apply", "predict_log_proba"):
        return arr(it, t, node, 2, n0)
    if attr == "decision_function":
        return arr(it, t, node, 1, n0)
    if attr in ("score", "bic", "aic"):
        return vnum(t)
    if attr == "split":
        # cross validation splitter: (train, test) index arrays
        n = T("spl", state, *tt)
        tr = AV("arr", T("cvtrain", n), frozenset([it.newloc(node, "tr")]), "i", 1,
                T("len", T("cvtrain", n)))
        te = AV("arr", T("cvtest", n), frozenset([it.newloc(node, "te")]), "i", 1,
                T("len", T("cvtest", n)))
        return AV("iter", n, EMPTY, ("gen", vtuple([tr, te]), T("len", n)))
    if attr == "get_mahalanobis_matrix":
        return arr(it, t, node, 2, None)
    if attr == "sample" and cls.endswith("GaussianMixture"):
        return vany(t)
    if attr == "get_params":
        return it.mk_dict({}, st, node, ver=t)
    if attr in ("copy", "clone"):
        return do_copy(it, obj, st, node)
    if attr == "__init__":
        return NONE
    impure = cls.split(".")[0] in ("multiprocessing", "threading", "queue")
    if impure:
        t = T("m", attr, state, it.site(node), *tt)
    return vany(t)


def ctor_state(s):
    while isinstance(s, Term) and s.op in ("fit", "refit"):
        s = s.args[0]
    return s


def ext_attr_value(it, h, attr, b, st, node):
    t = T("eattr", h.state, attr)
    fitav = h.kwargs.get("$fit")
    if attr in ("labels_",):
        return AV("arr", t, frozenset([("new", "ea%d" % t.uid)]), "i", 1,
                  it.ln(fitav) if fitav is not None else None)
    if attr in ("cluster_centers_", "means_", "components_"):
        return AV("arr", t, frozenset([("new", "ea%d" % t.uid)]), None, 2, None)
    if attr in ("explained_variance_ratio_", "coef_", "feature_importances_"):
        return AV("arr", t, frozenset([("new", "ea%d" % t.uid)]), None,
                  1 if attr != "coef_" else None, None)
    return None


# --------------------------------------------------------- values' attributes
ARR_VIEW_ATTRS = {"T", "flat", "real", "imag", "base", "mT"}


def value_attr(it, b, attr, st, node):
    k = b.kind
    if k == "ext":
        h = st.heap.get(b.data)
    if k == "arr":
        if attr == "shape":
            if b.nd == 1:
                return vtuple([vnum(it.ln(b))])
            if b.nd is not None and b.nd >= 2:
                return vtuple([vnum(it.ln(b))] + [vnum(T("ncols", b.term) if i == 1 else
                                                       T("dim", b.term, i))
                                                  for i in range(1, b.nd)])
            return vany(T("shape", b.term, it.ln(b)))
        if attr == "T":
            if b.nd == 1:
                return b
            if b.term.op == "T":
                return AV("arr", b.term.args[0], b.locs, b.data, b.nd, b.term.args[1]
                          if len(b.term.args) > 1 else None)
            return AV("arr", T("T", b.term, it.ln(b)), b.locs, b.data, b.nd,
                      T("ncols", b.term) if b.nd == 2 else None)
        if attr in ARR_VIEW_ATTRS:
            return AV("arr", T("va", attr, b.term), b.locs, b.data,
                      1 if attr == "flat" else b.nd,
                      it.ln(b) if attr != "flat" else None)
        if attr == "size":
            return vnum(it.ln(b) if b.nd == 1 else T("size", b.term))
        if attr == "ndim":
            return vconst(b.nd) if b.nd is not None else vnum(T("ndim", b.term))
        if attr in ("dtype", "nbytes", "itemsize", "flags", "strides"):
            return vany(T("attr", b.term, attr))
        return AV("method", T("method", b.term, attr), b.locs, data=(b, attr))
    if k in ("list", "dict", "set", "tuple", "str", "iter", "num", "bool"):
        return AV("method", T("method", b.term, attr), b.locs, data=(b, attr))
    if k == "extbound":
        # attribute of a method/attribute of an external object
        return AV("extbound", T("attr", b.term, attr), b.locs,
                  data=(f"{b.data[0]}.{b.data[1]}", attr, b))
    if k == "any" and b.term.op == "signature" and attr == "parameters" \
            and isinstance(b.data, tuple):
        return AV("any", T("sigparams", *b.term.args), EMPTY, ("sigparams", b.data[1]))
    if k == "any":
        if attr == "shape":
            return vany(T("shape", b.term, T("len", b.term)))
        if attr == "T":
            return vany(T("T", b.term), b.locs)
        if isinstance(b.data, tuple) and b.data and b.data[0] == "modexpr" and False:
            pass
        return AV("method", T("attr", b.term, attr), b.locs, data=(b, attr))
    if k == "func":
        if attr == "__name__":
            return vconst(b.data[0].name)
        return vany(T("attr", b.term, attr))
    if k == "builtin":
        return AV("method", T("attr", b.term, attr), data=(b, attr))
    if k == "method":
        # attribute of an attribute of an unknown value
        return AV("method", T("attr", b.term, attr), b.locs, data=(b, attr))
    if k == "none":
        return vany(T("attr", b.term, attr))
    return vany(T("attr", b.term, attr))


ARR_MUT = {"sort", "fill", "resize", "put", "itemset", "partition", "setflags", "setfield"}
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear"}
DICT_MUT = {"update", "pop", "setdefault", "clear", "popitem"}
SET_MUT = {"add", "update", "discard", "remove", "clear", "pop", "difference_update",
           "intersection_update", "symmetric_difference_update"}


def call_method(it, b, attr, args, kwargs, rest, st, node):
    b = it.strip(b)
    k = b.kind
    if k == "cls" and attr == "__subclasses__":
        return it.mk_list([AV("cls", T("cls", c.name), data=c) for c in it.prog.classes_all()
                           if b.data in c.bases], st, node, "subcls")
    if k == "any" and b.term.op == "sigparams" and attr == "keys":
        return it.mk_list([vconst(n) for n in b.data[1]], st, node, "sig")
    if k == "arr":
        return arr_method(it, b, attr, args, kwargs, st, node)
    if k == "list":
        return list_method(it, b, attr, args, kwargs, st, node)
    if k == "dict":
        return dict_method(it, b, attr, args, kwargs, st, node)
    if k == "set":
        return set_method(it, b, attr, args, kwargs, st, node)
    if k == "tuple":
        if attr == "index":
            return vnum(T("call", "index", b.term, *[a.term for a in args]))
        if attr == "count":
            return vnum(T("call", "count", b.term, *[a.term for a in args]))
        return vany(T("tm", attr, b.term))
    if k == "str":
        return str_method(it, b, attr, args, kwargs, st, node)
    if k == "num" or k == "bool":
        if attr in ("copy", "item", "astype"):
            return b
        if attr in REDUCE:
            return b
        return vany(T("nm", attr, b.term, *[a.term for a in args]))
    if k == "iter":
        return vany(T("im", attr, b.term))
    if k == "builtin":
        if b.data == "dict" and attr == "fromkeys":
            return it.mk_dict({}, st, node, ver=T("fromkeys", *[a.term for a in args]))
        if b.data in ("list", "dict", "set", "str") and args:
            return call_method(it, args[0], attr, args[1:], kwargs, rest, st, node)
        return vany(T("bm", b.data, attr, *[a.term for a in args]))
    if k == "extbound":
        return call_ext_method(it, f"{b.data[0]}.{b.data[1]}", attr, b, args, kwargs, rest, st,
                               node)
    # unknown receiver
    it.event("anycall", node, (attr, b, tuple(args), dict(kwargs)), st)
    ov = it.func_override.get("any." + attr)
    if ov is not None:
        r = ov(it, b, args, kwargs, rest, st, node)
        if r is not None:
            return r
    if k == "method":
        # value.attr.method(...)
        if attr in ("append", "extend", "insert", "add", "sort", "fill", "clear", "remove",
                    "pop", "update", "shuffle"):
            if b.locs:
                it.write(b.replace(kind="any"), node, f".{attr}() on {b.data[1]}", st)
        return vany(T("am", attr, b.term, *[a.term for a in args]))
    if k == "any":
        strip_args = [it.strip(a) for a in args]
        if attr in ARR_MUT | LIST_MUT | DICT_MUT | SET_MUT and b.locs and \
                attr not in ("put", "copy"):
            it.write(b, node, f".{attr}()", st)
            st_site = it.site(node)
            it.refresh(b.locs, st, node, b)
            return vany(T("am", attr, b.term, st_site))
        if attr in DRAWS:
            # random state of unknown provenance (parameter)
            it.event("anydraw", node, (b, attr), st)
            return draw(it, attr, args, kwargs, st, node, "any")
        if attr == "copy":
            return vany(b.term, frozenset([it.newloc(node, "cp")]))
        if attr in ("reshape", "ravel", "squeeze", "view", "transpose"):
            return vany(T("am", attr, b.term, *[a.term for a in args]), weak(b.locs))
        if attr in ("items", "keys", "values"):
            return AV("iter", T("am", attr, b.term), weak(b.locs),
                      ("any" + attr, b))
        if attr == "get":
            d = args[1].term if len(args) > 1 else const(None)
            return vany(T("get", b.term, args[0].term, d), b.locs)
        if attr in ("astype", "flatten", "tolist"):
            return vany(T("am", attr, b.term, *[a.term for a in strip_args]),
                        frozenset([it.newloc(node, "cp")]))
        if attr in ("sum", "mean", "min", "max", "std"):
            if not args and not kwargs:
                return vnum(T("red", attr, b.term))
            return vany(T("red", attr, b.term, *[a.term for a in args],
                          *[v.term for _, v in sorted(kwargs.items())]))
        if attr in ("kneighbors",):
            pass
        fit_like = attr in ("fit", "partial_fit")
        if fit_like:
            return vany(T("am", attr, b.term, it.site(node), *[a.term for a in args]), b.locs)
        a0 = strip_args[0] if strip_args else None
        n0 = it.ln(a0) if a0 is not None and a0.kind == "arr" else None
        if attr in ("predict", "decision_function"):
            return arr(it, T("am", attr, b.term, *[a.term for a in args]), node, 1, n0)
        if attr in ("predict_proba", "transform", "inverse_transform", "fit_transform"):
            return arr(it, T("am", attr, b.term, *[a.term for a in args]), node, 2, n0)
        if attr == "split" and a0 is not None and a0.kind == "arr":
            return call_split_any(it, b, args, kwargs, st, node)
    return vany(T("am", attr, b.term, *[a.term for a in args],
                  *[T("k", kk, v.term) for kk, v in sorted(kwargs.items())]))


def call_split_any(it, b, args, kwargs, st, node):
    n = T("spl", b.term, *[a.term for a in args])
    tr = AV("arr", T("cvtrain", n), frozenset([it.newloc(node, "tr")]), "i", 1,
            T("len", T("cvtrain", n)))
    te = AV("arr", T("cvtest", n), frozenset([it.newloc(node, "te")]), "i", 1,
            T("len", T("cvtest", n)))
    return AV("iter", n, EMPTY, ("gen", vtuple([tr, te]), T("len", n)))


def arr_method(it, b, attr, args, kwargs, st, node):
    args = [it.strip(a) for a in args]
    write_kw_out(it, kwargs, st, node, "." + attr)
    if attr == "copy":
        return b.replace(locs=frozenset([it.newloc(node, "cp")]))
    if attr in ARR_MUT:
        it.write(b, node, f".{attr}()", st)
        return NONE
    if attr == "astype":
        c = kwargs.get("copy")
        locs = frozenset([it.newloc(node, "as")])
        if c is not None and not _truthy(c):
            locs = weak(b.locs) | locs
            locs = b.locs | locs
        d = args[0] if args else kwargs.get("dtype")
        nm = d.data if d is not None and d.kind in ("builtin", "mod") else \
            (d.value if d is not None and d.is_const else None)
        if nm in ("float", "numpy.float64", "numpy.float_", "float64", "numpy.double") and \
                b.term.op == "astype" and b.term.args[1] == "float":
            return b.replace(locs=locs)
        data = "b" if nm in BOOL_NAMES else ("i" if nm in INT_NAMES else None)
        t = T("astype", b.term, str(nm))
        if b.data == "b" and data == "b":
            t = b.term
        if b.term.op == "rep":
            t = T("rep", T("cast", str(nm), b.term.args[0]), b.term.args[1])
        return AV("arr", t, locs, data, b.nd, it.ln(b))
    if attr in REDUCE:
        return reduce_(it, attr, b, args, kwargs, st, node, pos=0)
    if attr in ("argsort", "cumsum", "cumprod", "round", "clip", "conj", "searchsorted"):
        return arr(it, T("call", attr, b.term, *[a.term for a in args]), node, b.nd,
                   it.ln(b) if attr != "searchsorted" else None)
    if attr in ("reshape",):
        sh = args
        if len(args) == 1 and args[0].kind == "tuple":
            sh = list(args[0].data)
        if "shape" in kwargs and not sh:
            s = it.strip(kwargs["shape"])
            sh = list(s.data) if s.kind == "tuple" else [s]
        nd = len(sh) if all(x.kind in ("num", "bool") for x in sh) else None
        ln = None
        if sh and sh[0].kind == "num":
            if sh[0].is_const and sh[0].value == -1:
                if len(sh) == 2 and sh[1].is_const and sh[1].value == 1 and b.nd == 1:
                    ln = it.ln(b)
                elif len(sh) == 1 and b.nd == 1:
                    return b
            else:
                ln = sh[0].term
        if b.nd == nd and nd is not None and ln is it.ln(b) and nd == 1:
            return b
        return AV("arr", T("reshape", b.term, *[x.term for x in sh]), b.locs, b.data, nd, ln)
    if attr in ("ravel", "flatten", "squeeze"):
        if b.nd == 1:
            return b if attr != "flatten" else b.replace(
                locs=frozenset([it.newloc(node, "fl")]))
        locs = b.locs if attr != "flatten" else frozenset([it.newloc(node, "fl")])
        return AV("arr", T(attr, b.term), locs, b.data, 1 if attr != "squeeze" else None, None)
    if attr in ("transpose", "swapaxes", "view", "diagonal", "newbyteorder"):
        if attr == "transpose" and not args:
            return value_attr(it, b, "T", st, node)
        return AV("arr", T("mv", attr, b.term, *[a.term for a in args]), b.locs, None,
                  b.nd if attr != "diagonal" else None,
                  it.ln(b) if attr == "view" else None)
    if attr == "tolist":
        items, elem, ln = it.iter_info(b, st, node, T("loop", it.site(node)))
        ver = T("tolist", b.term)
        e = elem
        if e is not None and e.kind == "arr":
            e = e.replace(locs=EMPTY)
        return it.mk_slist(e, ln, st, node, "tl", ver)
    if attr in ("dot",):
        return matmul(it, b, args[0], node)
    if attr in ("repeat", "take", "compress"):
        return call_numpy(it, attr, [b] + args, kwargs, [], st, node)
    if attr == "nonzero":
        return call_numpy(it, "where", [b], {}, [], st, node)
    if attr == "item":
        return vnum(T("item0", b.term, *[a.term for a in args]))
    if attr in ("trace",):
        return vnum(T("call", attr, b.term))
    return vany(T("arrm", attr, b.term, *[a.term for a in args]), weak(b.locs))


def list_method(it, b, attr, args, kwargs, st, node):
    if attr == "append":
        it.list_append(b, args[0], st, node)
        return NONE
    if attr == "extend":
        it.list_extend(b, args[0], st, node)
        return NONE
    if attr == "insert":
        it.write(b, node, "list insert", st)
        h = it.list_h(b, st)
        if h.items is not None and args[0].is_const and isinstance(args[0].value, int):
            its = list(h.items)
            its.insert(args[0].value, args[1])
            st.heap[b.data] = HList(tuple(its))
        else:
            it.list_havoc(b, st, node, elem=args[1], ln=lin_add(h.ln, const(1)))
        return NONE
    if attr in ("pop", "remove"):
        it.write(b, node, f"list {attr}", st)
        h = it.list_h(b, st)
        e = it.list_elem(h)
        if h.items is not None and attr == "pop" and (not args or (args[0].is_const and
                                                      isinstance(args[0].value, int))) and h.items:
            its = list(h.items)
            try:
                r = its.pop(args[0].value if args else -1)
                st.heap[b.data] = HList(tuple(its))
                return r
            except IndexError:
                pass
        it.list_havoc(b, st, node, ln=lin_sub(h.ln, const(1)))
        if attr == "remove":
            return NONE
        if e is None:
            return vany(it.fresh(node, "pop"))
        if e.kind in ("num", "any", "str"):
            return e.replace(term=T("el", it.list_ver(h), const("pop"), e.term))
        return e
    if attr in ("sort", "reverse"):
        it.write(b, node, f"list {attr}", st)
        h = it.list_h(b, st)
        it.list_havoc(b, st, node, ln=h.ln)
        for k, v in kwargs.items():
            if v.kind == "func":
                e = it.list_elem(h)
                if e is not None:
                    it.merge_alts(it.call(v, [e], {}, [], st.copy(), node), st.copy())
        return NONE
    if attr == "clear":
        it.write(b, node, "list clear", st)
        st.heap[b.data] = HList(())
        return NONE
    if attr == "copy":
        h = it.list_h(b, st)
        loc = it.newloc(node, "cp")
        st.heap[loc] = h
        return AV("list", T("listref", it.site(node)), frozenset([loc]), loc)
    if attr == "index":
        return vnum(T("call", "index", it.list_ver(it.list_h(b, st)), *[a.term for a in args]))
    if attr == "count":
        return vnum(T("call", "count", it.list_ver(it.list_h(b, st)), *[a.term for a in args]))
    return vany(T("lm", attr, b.term))


def dict_method(it, b, attr, args, kwargs, st, node):
    h = st.heap.get(b.data)
    if not isinstance(h, HDict):
        return vany(T("dm", attr, b.term, *[a.term for a in args]), b.locs)
    if attr == "get":
        d = args[1] if len(args) > 1 else NONE
        if args[0].is_const and args[0].value in h.keys:
            return h.keys[args[0].value]
        if args[0].is_const and h.exact():
            return d
        locs = d.locs
        for r in h.rest:
            locs |= r.locs
        return vany(T("get", it.dict_term(h), args[0].term, d.term), locs)
    if attr in ("items", "keys", "values"):
        return AV("iter", T("dm", attr, it.dict_term(h)), b.locs, ("d" + attr, b))
    if attr == "update":
        if args:
            it.dict_update(b, args[0], st, node)
        else:
            it.write(b, node, "dict update", st)
        if kwargs:
            h = st.heap[b.data]
            st.heap[b.data] = HDict({**h.keys, **kwargs}, h.rest, h.ver)
        return NONE
    if attr in ("pop", "setdefault", "clear", "popitem"):
        it.write(b, node, f"dict {attr}", st)
        if attr == "clear":
            st.heap[b.data] = HDict({})
            return NONE
        if attr == "setdefault" and args and args[0].is_const:
            if args[0].value in h.keys:
                return h.keys[args[0].value]
            v = args[1] if len(args) > 1 else NONE
            if not h.exact():
                v = vany(T("get", it.dict_term(h), args[0].term, v.term), v.locs)
            st.heap[b.data] = HDict({**h.keys, args[0].value: v}, h.rest, h.ver)
            return v
        if attr == "pop" and args and args[0].is_const:
            k = dict(h.keys)
            if args[0].value in k:
                v = k.pop(args[0].value)
                st.heap[b.data] = HDict(k, h.rest, h.ver)
                return v
            if h.exact():
                return args[1] if len(args) > 1 else vany(T("keyerror"))
            st.heap[b.data] = HDict(k, h.rest, T("dpop", h.ver or const(0), args[0].term))
            return vany(T("get", it.dict_term(h), args[0].term), b.locs)
        st.heap[b.data] = HDict({}, h.rest + tuple(h.keys.values()), it.fresh(node, "dictmut"))
        return vany(T("get", it.dict_term(h), *[a.term for a in args]), b.locs)
    if attr == "copy":
        loc = it.newloc(node, "cp")
        st.heap[loc] = h
        return AV("dict", T("dictref", it.site(node)), frozenset([loc]), loc)
    return vany(T("dm", attr, b.term))


def set_method(it, b, attr, args, kwargs, st, node):
    h = it.list_h(b, st)
    if attr in SET_MUT:
        it.write(b, node, f"set {attr}", st)
        e = None
        if attr == "add":
            e = args[0]
        elif attr == "update" and args:
            items, elem, ln = it.iter_info(args[0], st, node)
            e = elem if items is None else (items[0] if items else None)
        it.list_havoc(b, st, node, elem=e)
        if attr == "pop":
            return it.list_elem(h) or vany(it.fresh(node))
        return NONE
    if attr in ("union", "intersection", "difference", "symmetric_difference", "copy"):
        e = it.list_elem(h)
        t = T("setop", attr, it.list_ver(h), *[a.term for a in args])
        return it.mk_slist(e, T("len", t), st, node, "so", t, kind="set")
    return vbool(T("sm", attr, b.term, *[a.term for a in args]))


def str_method(it, b, attr, args, kwargs, st, node):
    if attr in ("split", "rsplit", "splitlines"):
        if b.is_const and isinstance(b.value, str) and all(a.is_const for a in args):
            try:
                return it.mk_list([vconst(x) for x in getattr(b.value, attr)(
                    *[a.value for a in args])], st, node, "split")
            except Exception:
                pass
        t = T("strm", attr, b.term, *[a.term for a in args])
        return it.mk_slist(vstr(T("elem", t)), T("len", t), st, node, "split", t)
    if attr in ("startswith", "endswith", "isdigit", "isalpha"):
        if b.is_const and isinstance(b.value, str) and all(a.is_const for a in args):
            try:
                return vconst(getattr(b.value, attr)(*[a.value for a in args]))
            except Exception:
                pass
        return vbool(T("strm", attr, b.term, *[a.term for a in args]))
    if attr in ("find", "index", "count"):
        return vnum(T("strm", attr, b.term, *[a.term for a in args]))
    if attr == "encode":
        return vany(T("strm", attr, b.term))
    ats = []
    for a in args:
        a = it.strip(a)
        if a.kind == "list":
            ats.append(it.list_ver(it.list_h(a, st)))
        else:
            ats.append(a.term)
    return vstr(T("strm", attr, b.term, *ats))


# ------------------------------------------------------------------ iterables
def iter_parts(it, av, st, node, loop):
    d = av.data
    k = d[0]
    if k == "range":
        lo, hi, step = d[1:]
        if lo.is_const and hi.is_const and step.is_const:
            try:
                r = range(lo.value, hi.value, step.value)
                if len(r) <= 24:
                    return [vconst(x) for x in r], None, const(len(r))
                n = const(len(r))
                return None, vnum(T("it", loop) if loop is not None else T("it0")), n
            except Exception:
                pass
        n = lin_sub(hi.term, lo.term)
        if not (step.is_const and step.value == 1):
            n = T("rangelen", lo.term, hi.term, step.term)
        e = T("it", loop) if loop is not None else T("it0")
        if loop is not None:
            it.range_of[loop] = (lo.term, hi.term)
        if not (lo.is_const and lo.value == 0 and step.is_const and step.value == 1):
            e = lin_add(lo.term, e if step.is_const and step.value == 1
                        else T("stepit", e, step.term))
        return None, vnum(e), n
    if k == "enum":
        items, elem, ln = it.iter_info(d[1], st, node, loop)
        start = d[2]
        if items is not None:
            return [vtuple([vnum(lin_add(const(i), start.term)), x])
                    for i, x in enumerate(items)], None, ln
        idx = T("it", loop) if loop is not None else T("it0")
        return None, vtuple([vnum(lin_add(idx, start.term)), elem]), ln
    if k == "zip":
        infos = [it.iter_info(x, st, node, loop) for x in d[1]]
        if infos and all(i[0] is not None for i in infos):
            return [vtuple(x) for x in zip(*[i[0] for i in infos])], None, \
                const(min(len(i[0]) for i in infos))
        els = []
        ln = None
        for i in infos:
            if i[0] is not None:
                e = None
                for x in i[0]:
                    e = x if e is None else it.join_elem(e, x)
                e = it.vary(e, loop, T("list", *[x.term for x in i[0]])) if e is not None else \
                    vany(T("elem"))
                els.append(e)
            else:
                els.append(i[1] if i[1] is not None else vany(T("elem", av.term)))
                if ln is None:
                    ln = i[2]
        return None, vtuple(els), ln if ln is not None else T("len", av.term)
    if k in ("ditems", "dkeys", "dvalues"):
        b = d[1]
        h = st.heap.get(b.data)
        if isinstance(h, HDict):
            if h.exact():
                if k == "ditems":
                    return [vtuple([vconst(x), v]) for x, v in h.keys.items()], None, \
                        const(len(h.keys))
                if k == "dkeys":
                    return [vconst(x) for x in h.keys], None, const(len(h.keys))
                return list(h.keys.values()), None, const(len(h.keys))
            dt = it.dict_term(h)
            key = vany(T("key", dt, T("it", loop) if loop else const(0)))
            vals = list(h.keys.values()) + list(h.rest)
            v = None
            if h.ver is not None and vals and all(x.kind == vals[0].kind for x in vals) \
                    and vals[0].kind in ("arr", "list", "num", "dict"):
                v = vals[0]
                for x in vals[1:]:
                    v = it.join_elem(v, x)
                v = it.vary(v, loop, dt)
            if v is None:
                locs = EMPTY
                for x in vals:
                    locs |= x.locs
                v = vany(T("val", dt, T("it", loop) if loop else const(0)), locs)
            e = {"ditems": vtuple([key, v]), "dkeys": key, "dvalues": v}[k]
            return None, e, T("len", dt)
        return None, vany(T("elem", av.term)), T("len", av.term)
    if k in ("anyitems", "anykeys", "anyvalues"):
        b = d[1]
        i = T("it", loop) if loop is not None else const(0)
        key = vany(T("key", b.term, i))
        val = vany(T("item", b.term, key.term), b.locs)
        e = {"anyitems": vtuple([key, val]), "anykeys": key, "anyvalues": val}[k]
        return None, e, T("len", b.term)
    if k == "gen":
        return None, it.vary(d[1], loop, av.term), d[2]
    if k == "rev":
        items, elem, ln = it.iter_info(d[1], st, node, loop)
        if items is not None:
            return items[::-1], None, ln
        return None, elem, ln
    if k == "map":
        items, elem, ln = it.iter_info(d[2], st, node, loop)
        if items is not None:
            e = None
            for x in items:
                e = x if e is None else it.join_elem(e, x)
            elem = e
        if elem is None:
            return None, vany(T("elem", av.term)), ln
        r = it.merge_alts(it.call(d[1], [elem], {}, [], st, node or ast.Pass()), st)
        return None, r, ln
    return None, vany(T("elem", av.term)), T("len", av.term)


# ------------------------------------------------------------------ builtins
ISINST = {"int": ("num",), "float": ("num",), "str": ("str",), "list": ("list",),
          "dict": ("dict",), "tuple": ("tuple",), "set": ("set",), "bool": ("bool",)}


def isinstance_(it, a, c, st):
    cs = list(c.data) if c.kind == "tuple" else [c]
    res = False
    unknown = False
    a1 = it.strip(a)
    if a.kind == "union" and any(x.kind == "none" for x in a.data):
        unknown = True
    a = a1
    for x in cs:
        nm = x.data if x.kind in ("builtin", "mod") else None
        if x.kind == "cls":
            if a.kind == "obj":
                h = st.heap.get(a.data)
                if isinstance(h, HObj) and x.data in h.cls.mro():
                    return True
                continue
            if a.kind in ("any", "union"):
                unknown = True
            continue
        if nm is None:
            unknown = True
            continue
        if a.kind in ("any", "union", "undef"):
            unknown = True
            continue
        if nm in ISINST:
            if a.kind in ISINST[nm]:
                if a.kind == "num" and nm in ("int", "float"):
                    if a.is_const:
                        if isinstance(a.value, int if nm == "int" else float):
                            return True
                        continue
                    if a.data in ("int", "float"):
                        if a.data == nm:
                            return True
                        continue
                    other = {y.data for y in cs if y.kind == "builtin"}
                    if {"int", "float"} <= other:
                        return True
                    unknown = True
                    continue
                return True
            if nm == "int" and a.kind == "bool":
                return True
            continue
        if nm == "numpy.ndarray":
            if a.kind == "arr":
                return True
            continue
        if nm in ("numpy.random.RandomState", "numpy.random.mtrand.RandomState"):
            if a.kind == "ext":
                h = st.heap.get(a.data)
                if isinstance(h, HExt) and h.cls == "numpy.random.RandomState":
                    return True
            if a.kind in ("num", "str", "none", "arr", "list", "dict", "mod"):
                continue
            continue
        if nm.startswith("numpy.") and a.kind == "num":
            unknown = True
            continue
        if a.kind in ("num", "str", "none", "bool"):
            if a.kind == "num" and ("Integral" in nm or "Number" in nm or "Real" in nm):
                unknown = True
                continue
            continue
        unknown = True
    return None if unknown else False


FOLDED = {"round": round, "abs": abs, "int": int, "float": float, "str": str, "bool": bool,
          "pow": pow, "ord": ord, "chr": chr}


def call_builtin(it, name, args, kwargs, rest, st, node):
    if it.ext_override:
        ov = it.ext_override.get("builtins." + name)
        if ov is not None:
            return ov(it, name, args, kwargs, rest, st, node)
    a = args[0] if args else None
    if name in FOLDED and args and not kwargs and not rest and all(
            x.is_const and type(x.value) in (int, float, str, bool) for x in args):
        try:
            return vconst(FOLDED[name](*[x.value for x in args]))
        except (TypeError, ValueError, OverflowError, ZeroDivisionError):
            pass
    if name in EXC:
        return vany(T("exc", name, *[x.term for x in args]))
    if name == "len":
        return vnum(it.seq_ln(it.strip(a), st)) if a.kind != "union" else vnum(it.seq_ln(a, st))
    if name == "range":
        if len(args) == 1:
            d = (vconst(0), args[0], vconst(1))
        elif len(args) == 2:
            d = (args[0], args[1], vconst(1))
        else:
            d = tuple(args[:3])
        return AV("iter", T("range", *[x.term for x in d]), EMPTY, ("range",) + d)
    if name == "enumerate":
        s = args[1] if len(args) > 1 else kwargs.get("start", vconst(0))
        return AV("iter", T("enumerate", a.term), a.locs, ("enum", a, s))
    if name == "zip":
        return AV("iter", T("zip", *[x.term for x in args]), EMPTY, ("zip", tuple(args)))
    if name == "reversed":
        return AV("iter", T("reversed", a.term), a.locs, ("rev", a))
    if name == "map":
        return AV("iter", T("map", *[x.term for x in args]), EMPTY, ("map", args[0], args[1]))
    if name == "filter":
        items, elem, ln = it.iter_info(args[1], st, node, T("loop", it.site(node)))
        if items is not None:
            e = None
            for x in items:
                e = x if e is None else it.join_elem(e, x)
            elem = e
        t = T("filter", args[0].term, args[1].term)
        if elem is not None and args[0].kind in ("func", "bound"):
            it.merge_alts(it.call(args[0], [elem], {}, [], st, node), st)
        return AV("iter", t, EMPTY, ("gen", elem or vany(T("elem", t)), T("len", t)))
    if name in ("min", "max"):
        if len(args) == 1:
            s = it.strip(a)
            items, h = seq_parts(it, s, st, node) if s.kind in ("list", "tuple") else (None, None)
            if items and all(it.strip(x).kind in ("num", "bool", "any") for x in items) and \
                    "key" not in kwargs:
                return minmax(name, [it.strip(x) for x in items])
            for k, v in kwargs.items():
                if k == "key" and v.kind in ("func", "bound"):
                    _, e, _ = it.iter_info(s, st, node, T("loop", it.site(node)))
                    if e is not None:
                        it.merge_alts(it.call(v, [e], {}, [], st.copy(), node), st.copy())
            t = s.term if s.kind != "list" else it.list_ver(it.list_h(s, st))
            items2, e, ln = it.iter_info(s, st, node, T("loop", it.site(node)))
            if e is not None and e.kind not in ("num", "any", "bool"):
                return e if e.kind != "arr" else vany(T("red", name, t), e.locs)
            return vnum(T("red", name, t))
        return minmax(name, [it.strip(x) for x in args])
    if name == "sum":
        s = it.strip(a)
        if s.kind == "arr":
            return reduce_(it, "sum", s, [s], {}, st, node)
        if s.kind in ("list", "tuple"):
            items, h = seq_parts(it, s, st, node)
            if items is not None:
                t = const(0)
                for x in items:
                    t = lin_add(t, x.term)
                return vnum(t)
            return vnum(T("red", "sum", h.ver))
        return vnum(T("red", "sum", s.term))
    if name == "abs":
        s = it.strip(a)
        if s.is_const:
            return vconst(abs(s.value))
        return ufunc(it, "abs", [s], st, node)
    if name == "round":
        s = it.strip(a)
        return ufunc(it, "round", [s] + args[1:], st, node)
    if name in ("int", "float", "bool"):
        if a is None:
            return vconst({"int": 0, "float": 0.0, "bool": False}[name])
        s = it.strip(a)
        if s.is_const and s.kind in ("num", "bool", "str"):
            try:
                return vconst({"int": int, "float": float, "bool": bool}[name](s.value))
            except Exception:
                pass
        if name == "bool":
            tv = it.truth(s, st)
            if tv is not None:
                return vconst(tv)
            return vbool(s.term)
        if s.kind == "bool":
            return vnum(T("b2n", s.term))
        if name == "int" and intlike(s.term):
            return vnum(s.term)
        if name == "float":
            return vnum(s.term) if s.kind in ("num",) else vnum(T("float", s.term))
        return AV("num", T("int", s.term), data="int")
    if name == "str" or name == "repr" or name == "format":
        if a is None:
            return vconst("")
        s = a
        if s.is_const and s.kind == "str" and name == "str":
            return s
        t = s.term
        if s.kind == "dict":
            h = st.heap.get(s.data)
            if isinstance(h, HDict):
                t = it.dict_term(h)
        elif s.kind == "list":
            t = it.list_ver(it.list_h(s, st))
        elif s.kind == "obj":
            h = st.heap.get(s.data)
            f = h.cls.find("__str__") if isinstance(h, HObj) else None
            if f and f[0] == "method" and name == "str":
                return it.merge_alts(it.call_func(f[1], [s], {}, [], st, node, cls=f[2]), st)
        return vstr(T(name, t))
    if name in ("list", "tuple", "set", "frozenset", "sorted"):
        return seq_ctor(it, name, a, args, kwargs, st, node)
    if name == "dict":
        return dict_ctor(it, a, kwargs, rest, st, node)
    if name == "isinstance":
        r = isinstance_(it, args[0], args[1], st)
        if r is None:
            return vbool(T("isinstance", args[0].term, args[1].term))
        return vconst(r)
    if name == "issubclass":
        if all(x.kind == "cls" for x in args[:2]):
            return vconst(args[1].data in args[0].data.mro())
        return vbool(T("issubclass", *[x.term for x in args]))
    if name == "hasattr":
        o = it.strip(args[0])
        if o.kind == "obj" and args[1].is_const:
            h = st.heap.get(o.data)
            if isinstance(h, HObj):
                if o.data in it.pre_locs and (o.data, args[1].value) not in st.written:
                    it.event("hread", node, (o.data, args[1].value), st)
                if h.cls.find(args[1].value):
                    return vconst(True)
                if args[1].value in h.attrs:
                    v = h.attrs[args[1].value]
                    if v.kind != "undef":
                        return vconst(True) if o.data not in it.pre_locs else \
                            vbool(T("hasattr", o.term, args[1].term))
                elif o.data not in it.pre_locs:
                    return vconst(False)
        return vbool(T("hasattr", *[x.term for x in args]))
    if name == "getattr":
        if args[1].is_const and isinstance(args[1].value, str):
            o = it.strip(args[0])
            if len(args) > 2 and o.kind == "obj":
                h = st.heap.get(o.data)
                if isinstance(h, HObj) and args[1].value not in h.attrs and \
                        not h.cls.find(args[1].value):
                    it.event("hread", node, (o.data, args[1].value), st) \
                        if o.data in it.pre_locs else None
                    return args[2]
            return it.get_attr(args[0], args[1].value, st, node)
        o = it.strip(args[0])
        return vany(T("getattr", *[x.term for x in args]), weak(o.locs))
    if name == "setattr":
        if args[1].is_const and isinstance(args[1].value, str):
            it.set_attr(args[0], args[1].value, args[2], st, node)
        else:
            it.event("setattr*", node, (args[0], args[1].term, args[2].term), st)
        return NONE
    if name == "delattr":
        it.event("delattr", node, (args[0], args[1].term), st)
        return NONE
    if name == "type":
        o = it.strip(a)
        if o.kind == "obj":
            h = st.heap.get(o.data)
            if isinstance(h, HObj):
                return AV("cls", T("cls", h.cls.name), data=h.cls)
        return vany(T("type", a.term))
    if name == "callable":
        if it.strip(a).kind in ("func", "bound", "cls", "builtin"):
            return vconst(True)
        return vbool(T("callable", a.term))
    if name in ("any", "all"):
        s = it.strip(a)
        if s.kind in ("list", "tuple"):
            items, h = seq_parts(it, s, st, node)
            if items is not None:
                vals = [it.truth(x, st) for x in items]
                if name == "all":
                    if any(v is False for v in vals):
                        return vconst(False)
                    if all(v is True for v in vals):
                        return vconst(True)
                else:
                    if any(v is True for v in vals):
                        return vconst(True)
                    if all(v is False for v in vals):
                        return vconst(False)
                return vbool(T("and" if name == "all" else "or",
                               *sorted({x.term for x, v in zip(items, vals) if v is None},
                                       key=lambda t: t.uid)))
            return vbool(T("red", name, h.ver))
        return vbool(T("red", name, s.term))
    if name in ("next", "iter"):
        if name == "iter":
            return a
        items, elem, ln = it.iter_info(a, st, node, T("loop", it.site(node)))
        if items:
            return items[0]
        return elem if elem is not None else vany(it.fresh(node))
    if name == "print":
        it.event("extcall", node, ("builtins.print", None, tuple(args), dict(kwargs), ()), st)
        return NONE
    if name in ("id", "hash", "open", "input", "eval", "exec", "compile", "globals", "locals",
                "__import__", "vars"):
        it.event("extcall", node, ("builtins." + name, None, tuple(args), dict(kwargs), ()), st)
        if name == "open":
            return mk_ext(it, "builtins.open", args, kwargs, rest, st, node)
        if name in ("vars",) and a is not None:
            return vany(T("vars", a.term), a.locs)
        return vany(T("call", name, *[x.term for x in args]))
    if name == "pow":
        return binop(it, "**", args[0], args[1], st, node)
    if name == "divmod":
        return vtuple([binop(it, "//", args[0], args[1], st, node),
                       binop(it, "%", args[0], args[1], st, node)])
    if name == "slice":
        lo, hi, stp = NONE, NONE, NONE
        if len(args) == 1:
            hi = args[0]
        elif len(args) >= 2:
            lo, hi = args[:2]
            stp = args[2] if len(args) > 2 else NONE
        return AV("slice", T("slice", lo.term, hi.term, stp.term), data=(lo, hi, stp))
    if name in ("object",):
        return vany(T("object", it.site(node)))
    return vany(T("call", name, *[x.term for x in args]))


def intlike(t):
    if t.op in ("len", "cnt", "int", "ncols", "max", "min") and t.op not in ("max", "min"):
        return True
    if t.op in ("max", "min"):
        return all(intlike(x) for x in t.args)
    if t.op == "const":
        return isinstance(t.args[0], int)
    if t.op == "lin":
        return isinstance(t.args[0], int) and all(
            isinstance(k, int) and intlike(a) for a, k in t.args[1])
    if t.op == "mul":
        return all(intlike(x) for x in t.args)
    return False


def seq_ctor(it, name, a, args, kwargs, st, node):
    kind = "list" if name in ("list", "sorted", "tuple") else "set"
    if a is None:
        if name == "tuple":
            return vtuple(())
        return it.mk_list((), st, node, name, kind=kind)
    s = it.strip(a)
    items, elem, ln = it.iter_info(s, st, node, T("loop", it.site(node)))
    if name == "sorted":
        for k, v in kwargs.items():
            if k == "key" and v.kind in ("func", "bound"):
                e = elem
                if items:
                    e = items[0]
                if e is not None:
                    it.merge_alts(it.call(v, [e], {}, [], st.copy(), node), st.copy())
        kf = kwargs.get("key")
        if items is not None and kf is not None and kf.kind in ("func", "bound") and \
                len(items) <= 400 and set(kwargs) <= {"key", "reverse"} and \
                (("reverse" not in kwargs) or kwargs["reverse"].is_const):
            ks = []
            for x in items:
                alts = it.call(kf, [x], {}, [], st.copy(), node)
                if len(alts) != 1 or not alts[0][1].is_const:
                    ks = None
                    break
                ks.append(alts[0][1].value)
            if ks is None and it.sort_witness is not None:
                ks = it.sort_witness(it, kf, items, st, node)
            if ks is not None:
                try:
                    rev = kwargs["reverse"].value if "reverse" in kwargs else False
                    idx = sorted(range(len(ks)), key=lambda i: ks[i], reverse=bool(rev))
                    return it.mk_list([items[i] for i in idx], st, node, name)
                except TypeError:
                    pass
        if items is not None and all(x.is_const for x in items) and not kwargs:
            try:
                return it.mk_list([vconst(v) for v in sorted(x.value for x in items)], st, node,
                                  name)
            except TypeError:
                pass
    if items is not None and name in ("list", "tuple"):
        if name == "tuple":
            return vtuple(items)
        return it.mk_list(items, st, node, name)
    if items is not None and name == "set":
        uniq = []
        for x in items:
            if not any(x.term is y.term for y in uniq):
                uniq.append(x)
        return it.mk_list(uniq, st, node, name, kind="set")
    if items is not None:
        e = None
        for x in items:
            e = x if e is None else it.join_elem(e, x)
        elem = e
        ln = const(len(items))
    src = s.term
    if s.kind in ("list", "set"):
        src = it.list_ver(it.list_h(s, st))
    if elem is not None and elem.kind == "arr" and s.kind == "arr":
        pass
    ver = T("seq", name if name in ("sorted", "set", "frozenset") else "list", src,
            *[v.term for k, v in sorted(kwargs.items())])
    n = ln if name in ("list", "tuple", "sorted") else T("len", ver)
    return it.mk_slist(elem, n, st, node, name, ver, kind=kind)


def dict_ctor(it, a, kwargs, rest, st, node):
    if a is None:
        return it.mk_dict(kwargs, st, node, rest=rest,
                          ver=None if not rest else T("rest", *[r.term for r in rest]))
    s = it.strip(a)
    if s.kind == "dict":
        h = st.heap.get(s.data)
        if isinstance(h, HDict):
            loc = it.newloc(node, "dc")
            st.heap[loc] = HDict({**h.keys, **kwargs}, h.rest, h.ver)
            return AV("dict", T("dictref", it.site(node)), frozenset([loc]), loc)
    if s.kind == "union" and any(x.kind == "dict" for x in s.data) and not rest:
        loc = it.newloc(node, "dc")
        h = it.dict_merge(HDict({}), s, st)
        st.heap[loc] = HDict({**h.keys, **kwargs}, h.rest, h.ver)
        return AV("dict", T("dictref", it.site(node)), frozenset([loc]), loc)
    if s.kind == "iter" and s.data[0] == "zip" and len(s.data[1]) == 2:
        k, v = s.data[1]
        if k.term.op == "unique" and v.term.op == "ucounts" and \
                k.term.args[0] is v.term.args[0]:
            return AV("any", T("hist", k.term.args[0]), frozenset([it.newloc(node, "hist")]))
    items, elem, ln = it.iter_info(s, st, node, T("loop", it.site(node)))
    if items is not None and all(x.kind == "tuple" and len(x.data) == 2 and x.data[0].is_const
                                 for x in items):
        return it.mk_dict({**{x.data[0].value: x.data[1] for x in items}, **kwargs}, st, node)
    r = []
    if elem is not None and elem.kind == "tuple" and len(elem.data) == 2:
        r = [elem.data[1]]
    return it.mk_dict(kwargs, st, node, rest=r, ver=T("dictof", s.term))
