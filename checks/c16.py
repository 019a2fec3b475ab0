"""C16: multiclass oversampling - originals first, every class raised to the majority with rows
generated from (and labelled as) that class."""
import math
import random
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, const, is_const, const_value, show
from sa.values import AV, HDict, vconst, vnum, vtuple
from sa.units import unit_stats, method_args, UnitRun
from sa.drive import ClassRun
from checks.domains import Unknown

R_FRONT = "original-rows-first"
R_TRAIN = "binary-problem-of-the-class"
R_ROWS = "appended-rows-of-the-labelled-class"
R_COUNT = "class-reaches-the-majority"
R_PAR = "user-parameters-forwarded"
R_MAJ = "majority-untouched"

CLS = "MulticlassOversampling"
AX, AY = T("arg", "X"), T("arg", "y")
# class sizes (by label); chosen so that no two partial sums coincide and so that truncation of
# a quotient would show (1/49*49 < 1)
SIZES = [
    {3: 20, 5: 53, 8: 31}, {3: 57, 5: 23, 8: 30}, {3: 9, 5: 29, 8: 211},
    {7: 40, 2: 19}, {7: 25, 2: 111}, {2: 49, 7: 50},
    {1: 13, 4: 71, 6: 37, 9: 5}, {9: 102, 6: 55, 4: 24, 1: 11}, {1: 50, 4: 49, 6: 48, 9: 7},
    {3: 60, 5: 17, 8: 60}, {3: 31, 5: 31, 8: 31}, {0: 30, 1: 77, 2: 11},
    {1: 9, 2: 31, 3: 64, 4: 5, 5: 23}, {0: 18, -1: 41, 1: 29},
    {1: 29, 2: 20, 3: 14}, {1: 33, 2: 20, 3: 17}, {4: 19, 5: 32, 6: 27},
]


class Wit:
    """row-set evaluation of the symbolic result under one assignment of class sizes"""

    def __init__(self, sizes):
        self.n = sizes
        self.total = sum(sizes.values())
        self.maj = max(sizes.values())
        self.draws = {}         # site -> dict

    # ---- numbers
    def num(self, t):
        if not isinstance(t, Term):
            return t
        if is_const(t):
            return const_value(t)
        op, a = t.op, t.args
        if op == "lin":
            return a[0] + sum(c * self.num(x) for x, c in a[1])
        if op == "item" and isinstance(a[0], Term) and a[0].op == "hist" and \
                a[0].args[0] is AY and is_const(a[1]):
            return self.n[const_value(a[1])]
        if op == "len":
            if a[0] is AX or a[0] is AY:
                return self.total
            if a[0].op == "hist":
                return len(self.n)
            return sum(s[2] for s in self.rows(a[0]))
        if op == "cnt":
            return sum(s[2] for s in self.keep(a[0]))
        if op == "div":
            return self.num(a[0]) / self.num(a[1])
        if op == "mul":
            return math.prod(self.num(x) for x in a)
        if op == "phi":
            return self.num(self.chosen(a))
        if op in ("u", "call") and a[0] in ("nextafter", "numpy.nextafter"):
            return math.nextafter(self.num(a[1]), self.num(a[2]))
        if op in ("min", "max") or op == "red" and a[0] in ("min", "max", "sum"):
            f = {"min": min, "max": max, "sum": sum}[op if op != "red" else a[0]]
            xs = a if op != "red" else a[1:]
            if len(xs) == 1:
                return f(self.seq(xs[0]))
            return f(self.num(x) for x in xs)
        if op in ("int", "u") and (op == "int" or a[0] in ("floor", "trunc", "ceil", "rint")):
            f = int if op == "int" else {"floor": math.floor, "trunc": math.trunc,
                                         "ceil": math.ceil, "rint": round}[a[0]]
            return f(self.num(a[-1]))
        if op == "float":
            return float(self.num(a[0]))
        if op == "slen":
            n = self.num(a[0])
            lo = 0 if _open(a[1]) else self.num(a[1])
            hi = n if len(a) < 3 or _open(a[2]) else self.num(a[2])
            return len(range(n)[lo:hi])
        raise Unknown

    def seq(self, t):
        if t.op == "dm" and t.args[0] == "values" and t.args[1].op == "dict":
            xs = list(t.args[1].args)
            out = []
            i = 2
            while i + 1 < len(xs):
                out.append(self.num(xs[i + 1]))
                i += 2
            return out
        if t.op == "dm" and t.args[0] == "values" and t.args[1].op == "hist":
            return list(self.n.values())
        if t.op in ("list", "tuple"):
            return [self.num(x) for x in t.args]
        raise Unknown

    def cond(self, t):
        op, a = t.op, t.args
        if op in ("eq", "lt", "le", "gt", "ge", "ne"):
            x, y = self.num(a[0]), self.num(a[1])
            return {"eq": x == y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y,
                    "ne": x != y}[op]
        if op == "not":
            return not self.cond(a[0])
        raise Unknown

    def chosen(self, a):
        """the alternative of a join that is taken for these class sizes"""
        g = a[0]
        if isinstance(g, Term) and g.op in ("if", "ifnot") and len(a) == 3:
            return a[1] if self.cond(g.args[0]) == (g.op == "if") else a[2]
        raise Unknown

    # ---- rows: segments (source, labels or None, length)
    def xseg(self, labs):
        return ("X", labs, sum(self.n[x] for x in labs))

    def rows(self, t):
        op, a = t.op, t.args
        if t is AX:
            return [self.xseg(frozenset(self.n))]
        if op in ("cat", "part", "copy", "vst"):
            return [s for x in a if isinstance(x, Term) for s in self.rows(x)]
        if op == "osx":
            return self.draws[a[0]]["rows"]
        if op == "phi":
            return self.rows(self.chosen(a))
        if op == "idx":
            m = self.vals(a[1])
            return self.select(self.rows(a[0]), m)
        if op == "slc":
            lo = self.num(a[1]) if not _none(a[1]) else 0
            hi = self.num(a[2]) if not _none(a[2]) else None
            return self.cut(self.rows(a[0]), lo, hi)
        raise Unknown

    def cut(self, segs, lo, hi):
        tot = sum(s[2] for s in segs)
        if lo < 0:
            lo += tot
        if hi is None:
            hi = tot
        if hi < 0:
            hi += tot
        out, pos = [], 0
        for s in segs:
            b, e = pos, pos + s[2]
            pos = e
            if e <= lo or b >= hi:
                continue
            if b >= lo and e <= hi:
                out.append(s)
            else:
                l, h = max(b, lo), min(e, hi)
                out.append((("piece", s[0], l - b, h - b), s[1], h - l) + tuple(s[3:]))
        return out

    # ---- values: segments (source, labels, length, value | {label: value})
    def vals(self, t):
        op, a = t.op, t.args
        if t is AY:
            f = frozenset(self.n)
            return [self.xseg(f) + ({x: x for x in f},)]
        if op in ("cat", "part", "copy"):
            return [s for x in a if isinstance(x, Term) for s in self.vals(x)]
        if op == "rep" and len(a) == 2:
            n = self.num(a[1])
            return [(None, None, n, self.num(a[0]))] if n else []
        if op == "osy":
            return self.draws[a[0]]["vals"]
        if op == "phi":
            return self.vals(self.chosen(a))
        if op == "idx":
            return self.select(self.vals(a[0]), self.vals(a[1]))
        if op == "slc":
            lo = self.num(a[1]) if not _none(a[1]) else 0
            hi = self.num(a[2]) if not _none(a[2]) else None
            return self.cut(self.vals(a[0]), lo, hi)
        if op in ("eq", "ne"):
            for x, c in ((a[0], a[1]), (a[1], a[0])):
                if is_const(c):
                    v = self.num(c)
                    return self.map(self.vals(x), (lambda u: u == v) if op == "eq" else
                                    (lambda u: u != v))
            raise Unknown
        if op == "not":
            return self.map(self.vals(a[0]), lambda u: not u)
        if op in ("astype", "int", "float"):
            return self.map(self.vals(a[0]), int if op != "float" else float)
        if op == "u" and a[0] == "where3" and is_const(a[2]) and is_const(a[3]):
            return self.map(self.vals(a[1]), lambda u: self.num(a[2] if u else a[3]))
        if op == "where3" and is_const(a[1]) and is_const(a[2]):
            return self.map(self.vals(a[0]), lambda u: self.num(a[1] if u else a[2]))
        raise Unknown

    @staticmethod
    def map(segs, f):
        return [s[:3] + ({k: f(v) for k, v in s[3].items()} if isinstance(s[3], dict)
                         else f(s[3]),) for s in segs]

    def keep(self, mask):
        """the true segments of a mask"""
        return self.select([s for s in self.vals(mask)], self.vals(mask))

    def select(self, segs, mask):
        """segs[mask], both lists of aligned segments"""
        out = []
        segs, mask = list(segs), list(mask)
        while segs and mask:
            s, m = segs[0], mask[0]
            n = min(s[2], m[2])
            if s[2] == m[2]:
                segs.pop(0)
                mask.pop(0)
            elif s[2] > m[2] and not isinstance(m[3], dict):
                mask.pop(0)
                segs[0] = (("piece", s[0], n, s[2]), s[1], s[2] - n) + tuple(s[3:])
                s = (("piece", s[0], 0, n), s[1], n) + tuple(s[3:])
            elif s[2] < m[2] and not isinstance(m[3], dict):
                segs.pop(0)
                mask[0] = (m[0], m[1], m[2] - n, m[3])
            else:
                raise Unknown
            v = m[3]
            if isinstance(v, dict):
                if s[1] != m[1]:
                    raise Unknown
                if not all(isinstance(x, bool) for x in v.values()):
                    raise Unknown
                labs = frozenset(k for k, x in v.items() if x)
                if not labs:
                    continue
                if s[0] != "X" and labs != s[1]:
                    raise Unknown
                ns = (s[0], labs, sum(self.n[x] for x in labs)) if s[0] == "X" else s[:3]
                if len(s) > 3:
                    w = s[3]
                    ns = ns + ({k: w[k] for k in labs} if isinstance(w, dict) else w,)
                out.append(ns)
            elif not isinstance(v, bool):
                raise Unknown
            elif v:
                out.append(s)
        if segs or mask:
            raise Unknown
        return out


def _open(t):
    return _none(t) or is_const(t) and const_value(t) == "end"


def _none(t):
    return t is None or is_const(t) and const_value(t) is None or \
        isinstance(t, Term) and t.op == "none"


def tag_counts(w, vals):
    c = {}
    for s in vals:
        if isinstance(s[3], dict):
            for k, v in s[3].items():
                c[v] = c.get(v, 0) + w.n[k]
        else:
            c[s[3]] = c.get(s[3], 0) + s[2]
    return c


def rows_of_tag(w, rows, vals, tag):
    m = w.map(vals, lambda u: u == tag)
    return w.select(rows, m)


def unit(prog, job):
    strat, k = job
    sizes = SIZES[k]
    ci = prog.classes[CLS]
    u = UnitRun()
    r = ClassRun(prog, ci, preset={"strategy": vconst(strat)})
    it = u.it = r.it
    it.unroll_limit = 60
    labs = sorted(sizes)
    hist = T("hist", AY)
    cnts = [T("item", hist, const(x)) for x in labs]
    w = Wit(sizes)
    it.label_model = (AY, labs, cnts)
    tag = f"{strat} {sorted(sizes.values(), reverse=True)}"
    f = ci.find("sample")
    where = f"{f[1].module.path}:{f[1].node.lineno} in {CLS}.sample"
    obs = []

    def wit_sort(it, kf, items, st, node):
        ks = []
        for x in items:
            alts = it.call(kf, [x], {}, [], st.copy(), node)
            if len(alts) != 1:
                return None
            v = alts[0][1]
            try:
                ks.append(tuple(w.num(y.term) for y in v.data) if v.kind == "tuple"
                          else w.num(v.term))
            except (Unknown, KeyError, TypeError, ZeroDivisionError):
                return None
        return ks

    made = {}

    def ucall(it, fn, args, kwargs, rest, st, node):
        loc = it.newloc(node, "made")
        made[loc] = (dict(kwargs), list(rest), list(args), st.copy(), it.site(node))
        return [(st, AV("any", T("made", it.site(node)), frozenset([loc]), ("made", loc)))]

    order = []

    def sample(it, b, args, kwargs, rest, st, node):
        if not (isinstance(b.data, tuple) and b.data[0] == "made") or len(args) < 2 and not kwargs:
            return None
        a = [it.strip(x) for x in args]
        xa = a[0] if a else it.strip(kwargs["X"])
        ya = a[1] if len(a) > 1 else it.strip(kwargs["y"])
        d = it.site(node)
        order.append((d, xa, ya, b.data[1],
                      f"{it.cur_module().path}:{node.lineno} in {CLS}"
                      if hasattr(it, "cur_module") else where))
        evaluate(d, xa, ya, b.data[1])
        n = T("len", T("osx", d))
        x = AV("arr", T("osx", d), frozenset([it.newloc(node, "osx")]), None, 2, n)
        y = AV("arr", T("osy", d), frozenset([it.newloc(node, "osy")]), None, 1, n)
        return vtuple([x, y])

    def evaluate(d, xa, ya, loc):
        """contract of a binary oversampler applied to (xa, ya)"""
        kw, rest, args, st, _ = made[loc]
        pr = kw.get("proportion")
        src = None
        for x in rest:
            h = st.heap.get(x.data) if x.kind == "dict" else None
            if isinstance(h, HDict) and pr is None:
                pr = h.keys.get("proportion")
        try:
            rows, vals = w.rows(xa.term), w.vals(ya.term)
            c = tag_counts(w, vals)
            if len(c) < 2:
                w.draws[d] = {"bad": f"the labels of the binary problem are {sorted(c)}"}
                return
            (t0, n0), (t1, n1) = sorted(c.items(), key=lambda x: x[1])[:2]
            p = w.num(pr.term) if pr is not None else None
            if p is None:
                w.draws[d] = {"bad": "no proportion is set"}
                return
            n = max(0, int(p * (n1 - n0)))
            tie = n0 == n1
            w.draws[d] = {
                "min": t0, "n": n, "tags": c, "tie": tie, "in_rows": rows, "in_vals": vals,
                "rows": rows + ([(("new", d), None, n)] if n else []),
                "vals": vals + ([(None, None, n, t0)] if n else [])}
        except (Unknown, KeyError, TypeError, ZeroDivisionError, OverflowError) as e:
            w.draws[d] = {"unk": f"{type(e).__name__} {e}"}
    it.sort_witness = wit_sort
    it.ucall_hook = ucall
    it.func_override["any.sample"] = sample
    alts = r.call("sample", [], dict(method_args(prog, ci, "sample")), phase="sample")
    maj = sorted(labs, key=lambda x: -sizes[x])[0]
    n_draw = 0
    ups = T("param", "oversampler_params")
    for loc, (kw, rest, args, st, site) in made.items():
        ok = None
        for x in rest:
            h = st.heap.get(x.data) if x.kind == "dict" else None
            ts = [x.term] + ([y.term for y in h.rest if isinstance(y, AV)] +
                             ([h.ver] if isinstance(h.ver, Term) else [])
                             if isinstance(h, HDict) else [])
            if any(t is not None and mentions(t, ups) for t in ts):
                ok = True
        if ok is None and not rest:
            ok = False
        obs.append(Ob(R_PAR, f"{tag}", OK if ok else (BAD if ok is False else UNK), where,
                      "" if ok else "the binary oversampler is not constructed with the user's "
                      "oversampler_params"))
    # the training problem of every draw
    cls_of = {}
    for d, xa, ya, loc, wh in order:
        n_draw += 1
        i = w.draws.get(d, {})
        if "bad" in i:
            obs.append(Ob(R_TRAIN, tag, BAD, wh, i["bad"]))
            continue
        if "unk" in i or not i:
            obs.append(Ob(R_TRAIN, tag, UNK, wh, "binary problem not resolved " +
                          str(i.get("unk")) + " " + show(ya.term, 5)[:120]))
            continue
        if i["tie"] and i["n"] == 0:
            continue
        try:
            pos = rows_of_tag(w, i["in_rows"], i["in_vals"], i["min"])
        except Unknown:
            obs.append(Ob(R_TRAIN, tag, UNK, wh, "positives not resolved"))
            continue
        ls = set()
        for s in pos:
            ls |= s[1] if s[0] == "X" and s[1] else {("?", str(s[0]))}
        ok = len(ls) == 1 and all(s[0] == "X" for s in pos) and \
            sum(s[2] for s in pos) == sizes.get(next(iter(ls)), -1)
        if ok:
            cls_of[d] = next(iter(ls))
        obs.append(Ob(R_TRAIN, tag, OK if ok else BAD, wh, "" if ok else
                      f"the minority of a binary problem consists of {pos} instead of all original "
                      "rows of one class"))
    for s, v in alts:
        v = it.strip(v)
        if v.kind != "tuple" or len(v.data) != 2:
            obs.append(Ob(R_ROWS, tag, UNK, where, "result not resolved"))
            continue
        x, y = (it.strip(a) for a in v.data)
        try:
            rx, vy = w.rows(x.term), w.vals(y.term)
        except (Unknown, KeyError, TypeError, ZeroDivisionError):
            obs.append(Ob(R_ROWS, tag, UNK, where, "result not resolved: " +
                          show(x.term, 5)[:200]))
            continue
        full = frozenset(sizes)
        ok = bool(rx) and rx[0][:2] == ("X", full) and bool(vy) and vy[0][0] == "X" and \
            vy[0][1] == full and vy[0][3] == {k: k for k in full}
        obs.append(Ob(R_FRONT, tag, OK if ok else BAD, where, "" if ok else
                      f"the result starts with {rx[:1]} labelled {vy[:1]} instead of the input"))
        if not ok:
            continue
        total = dict(sizes)
        rest_x, rest_y = list(rx[1:]), list(vy[1:])
        bad = None
        while rest_x and rest_y:
            a, b = rest_x[0], rest_y[0]
            n = min(a[2], b[2])
            if isinstance(b[3], dict) or a[0] == "X":
                bad = f"rows {a[:2]} (original rows) are appended again"
                break
            src = a[0]
            while isinstance(src, tuple) and src[0] == "piece":
                src = src[1]
            if isinstance(src, tuple) and src[0] == "new":
                c = cls_of.get(src[1])
                if c is None:
                    bad = Ellipsis
                    break
                if c != b[3]:
                    bad = f"rows generated for class {c} are labelled {b[3]}"
                    break
                total[b[3]] = total.get(b[3], 0) + n
            else:
                bad = f"rows {a[:2]} are appended with label {b[3]}"
                break
            rest_x[0] = a[:2] + (a[2] - n,)
            rest_y[0] = b[:2] + (b[2] - n, b[3])
            if rest_x[0][2] == 0:
                rest_x.pop(0)
            if rest_y[0][2] == 0:
                rest_y.pop(0)
        if bad is None and (rest_x or rest_y):
            bad = f"different numbers of rows and labels: {rest_x} {rest_y}"
        obs.append(Ob(R_ROWS, tag, OK if bad is None else (UNK if bad is Ellipsis else BAD),
                      where, "" if bad in (None, Ellipsis) else bad))
        if bad is None:
            short = {k: n for k, n in total.items() if n != w.maj}
            obs.append(Ob(R_COUNT, tag, BAD if short else OK, where,
                          f"with class sizes {sizes} the result has {total}" if short else ""))
            obs.append(Ob(R_MAJ, tag, OK if total[maj] == sizes[maj] else BAD, where,
                          "" if total[maj] == sizes[maj] else "majority rows are added"))
    st = unit_stats(u)
    st["binary_problems"] = n_draw
    return obs, st


def mentions(t, p):
    from sa.terms import leaves
    return any(x is p for x in leaves(t))


def main(tier):
    c = Check("C16", tier)
    if tier == "thorough":
        rnd = random.Random(c.seed)
        for k in range(400):
            ls = rnd.sample(range(-3, 30), 2 + k % 6)
            SIZES.append({x: rnd.randint(2, 300) for x in ls})
    jobs = [(s, k) for s in ("eq_1_vs_many_successive", "equalize_1_vs_many")
            for k in range(len(SIZES))]
    if CLS not in c.prog.classes:
        c.add(R_ROWS, CLS, UNK, "", "class not found")
    else:
        c.run_units(unit, jobs)
    c.explanation = (
        "The result of MulticlassOversampling.sample is computed symbolically with the wrapped "
        "oversampler replaced by its contract (originals first, then max(0, int(proportion * "
        "(n_maj - n_min))) rows of the smaller class): class labels are constants, class sizes "
        "symbols, loops over classes unroll. The block lists of both arrays are then decomposed "
        "into row sets: every binary problem must oppose all original rows of one class to the "
        "rest, every appended block must be rows generated for the class it is labelled with, and "
        "the symbolic proportions must bring every class to the majority's size, evaluated in "
        "floating point for a family of class-size assignments.")
    c.assumptions = [f"2 to 7 classes, {len(SIZES)} class-size assignments (ties included)",
                     "the wrapped oversampler satisfies C08 and C15"]
    return c.finish({})
