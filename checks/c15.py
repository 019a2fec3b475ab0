"""C15: how many samples are generated follows the requested proportion."""
import math

from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, is_const, const_value, lin_parts, lin_sub, lin_add, leaves, const, show
from sa.lengths import Cases, simplify_sums, induct, norm_cond
from sa.units import os_classes, run_unit, unit_stats, Unit
from checks.outputs import label_mask, AX, AY

R_N = "count-follows-proportion"
R_SKIP = "no-sampling-only-when-impossible"
R_REQ = "requested-count-is-proportional"
R_DEP = "proportion-is-used"

LX = T("len", AX)
# how the methods that choose the number of samples themselves (documented) are excluded:
# everything they generate is filtered, tuned or fixed by the algorithm
OWN_COUNT = {
    "NoSMOTE": "generates nothing",
    "SPY": "relabels majority samples",
    "AHC": "replaces both classes by cluster centers",
    "VIS_RST": "the generated samples depend on the rough set of each sample",
    "polynom_fit_SMOTE": "the topology fixes the number",
    "polynom_fit_SMOTE_star": "the topology fixes the number",
    "polynom_fit_SMOTE_bus": "the topology fixes the number",
    "polynom_fit_SMOTE_poly": "the topology fixes the number",
    "NEATER": "joins SMOTE candidates with a balancing set of ADASYN candidates and filters them",
    "SMOTE_PSOBAT": "the percentage is tuned by the swarm",
}


class Unknown(Exception):
    pass


class Ev:
    """value of a count term for class sizes lo < hi and proportion p"""

    def __init__(self, lo, hi, p):
        self.lo, self.hi, self.p = lo, hi, p
        self.memo = {}

    def __call__(self, t):
        if t in self.memo:
            r = self.memo[t]
            if r is None:
                raise Unknown(t)
            return r
        self.memo[t] = None
        r = self.ev(t)
        self.memo[t] = r
        return r

    def ev(self, t):
        if is_const(t):
            v = const_value(t)
            if isinstance(v, (int, float)):
                return v
            raise Unknown(t)
        o, a = t.op, t.args
        if o == "lin":
            return a[0] + sum(k * self(x) for x, k in a[1])
        if t is LX:
            return self.lo + self.hi
        if o == "len" and a[0] is AY:
            return self.lo + self.hi
        if o == "param":
            if a[0] in ("proportion", "beta"):
                return self.p
            raise Unknown(t)
        if o == "cnt":
            r = label_mask(a[0])
            if r is None:
                raise Unknown(t)
            return self.lo if r == "min" else self.hi
        if o == "overshoot":
            return const_value(a[1])
        if o == "phi":
            c = class_count(t)
            if c is not None:
                return self.lo if c == "min" else self.hi
            vs = []
            for x in a[1:]:
                vs.append(self(x))
            if all(v == vs[0] for v in vs):
                return vs[0]
            raise Unknown(t)
        try:
            if o == "mul":
                r = 1
                for x in a:
                    r = r * self(x)
                return r
            if o == "b*":
                return self(a[0]) * self(a[1])
            if o == "div":
                return self(a[0]) / self(a[1])
            if o in ("int", "trunc"):
                return int(self(a[0]))
            if o in ("max", "min"):
                return {"max": max, "min": min}[o](self(x) for x in a)
            if o == "u":
                xs = [self(x) for x in a[1:]]
                return {"*": lambda x, y: x * y, "+": lambda x, y: x + y,
                        "-": lambda x, y: x - y, "/": lambda x, y: x / y,
                        "//": lambda x, y: x // y, "%": lambda x, y: x % y,
                        "round": lambda x: float(round(x)), "rint": lambda x: float(round(x)),
                        "floor": lambda x: float(math.floor(x)),
                        "ceil": lambda x: float(math.ceil(x)), "abs": abs,
                        "maximum": max, "minimum": min,
                        "fabs": abs}[a[0]](*xs)
            if o == "b%":
                return self(a[0]) % self(a[1])
            if o == "b**":
                return self(a[0]) ** self(a[1])
            if o == "b//":
                return self(a[0]) // self(a[1])
            if o == "round":
                return round(self(a[0]))
            if o == "cast" and a[0].startswith("int"):
                return int(self(a[1]))
            if o == "cast" and a[0].startswith("float"):
                return float(self(a[1]))
            if o == "abs":
                return abs(self(a[0]))
        except (KeyError, TypeError, ZeroDivisionError, OverflowError):
            raise Unknown(t)
        raise Unknown(t)

    def cond(self, c, pol):
        while c.op == "not":
            c, pol = c.args[0], not pol
        if is_const(c):
            return bool(const_value(c)) == pol
        if c.op == "lt":
            return (self(c.args[0]) < self(c.args[1])) == pol
        if c.op == "eq":
            return (self(c.args[0]) == self(c.args[1])) == pol
        if c.op in ("and", "or", "band", "bor"):
            vs = [self.cond(x, True) for x in c.args]
            return (all(vs) if c.op in ("and", "band") else any(vs)) == pol
        raise Unknown(c)


def class_count(t):
    """phi of two class counts that is the smaller / larger count"""
    return None


GRID = [(lo, hi, p) for lo, hi in ((60, 97), (61, 200), (75, 76), (50, 53), (120, 1000), (80, 80))
        for p in (0.0, 0.1, 0.25, 0.5, 0.77, 1.0, 1.5, 2.0)]


def wanted(lo, hi, p):
    return max(0, int((hi - lo) * p))


def numeric(t):
    """list of values over the grid, or None"""
    out = []
    try:
        for g in GRID:
            out.append(Ev(*g)(t))
    except Unknown:
        return None
    return out


WANT = [wanted(*g) for g in GRID]


def count_cases(it, ln):
    if ln is None:
        return
    cs = Cases(it)
    for t, c in cs.expand(simplify_sums(it, lin_sub(ln, LX))):
        if t is None:
            yield None, c
            continue
        t = induct(it, simplify_sums(it, t))
        for t2, c2 in cs.expand(simplify_sums(it, t), c):
            yield t2, c2


def constant_offset(t):
    """c if the part of the count that the class sizes decide is the request plus c != 0"""
    c, d = lin_parts(t)
    part = const(c)
    for a, k in d.items():
        if numeric(a) is not None:
            part = lin_add(part, a, k)
    vals = numeric(part)
    diffs = {v - w for v, w in zip(vals, WANT) if w > 3}
    if len(diffs) == 1:
        v, = diffs
        if v == int(v):
            return int(v)
    return 0


def only_from_sizes(pc):
    """grid points on which the path is taken, or None when it depends on the data"""
    pts = []
    for g in GRID:
        ev = Ev(*g)
        try:
            if all(ev.cond(c, p) for c, p in pc):
                pts.append(g)
        except Unknown:
            return None
    return pts


def empty_test(c, p):
    """the condition says that something has no elements"""
    while c.op == "not":
        c, p = c.args[0], not p
    if c.op in ("and", "band", "or", "bor"):
        return any(empty_test(a, p) for a in c.args)
    if c.op == "eq" and p:
        return any(is_const(a) and const_value(a) == 0 for a in c.args)
    if c.op == "lt":
        a, b = c.args
        return not p and is_const(a) and const_value(a) <= 0 or \
            p and is_const(b) and const_value(b) <= 1
    return False


SIZES = {"len", "cnt", "lin", "const", "eq", "lt", "not", "and", "or"}


def skips(it, t):
    """the loop leaves out the share of some iterations, apart from which the count is right:
    description of a condition under which it does"""
    c, d = lin_parts(t)
    sk = [x for x in leaves(t) if x.op in ("skipcount", "skipped")]
    if len(sk) != 1:
        return None
    z = sk[0]
    from sa.terms import subst
    vals = numeric(lin_add(t, z, -d[z]) if z in d else subst(t, {z: const(0)}))
    if vals != WANT:
        return None
    for cd in getattr(it, "skip_conds", {}).get(z.args[0], ()):
        own = [(c, p) for c, p in cd.items()]
        if own and not any(empty_test(c, p) for c, p in own) and \
                all(_top(c) in ("eq", "lt", "and", "band", "or", "bor") for c, p in own):
            return " and ".join(("" if p else "not ") + show(c, 4) for c, p in own)
    return None


def _top(c):
    while c.op == "not":
        c = c.args[0]
    return c.op


def ignorable(c):
    """conditions on the configuration alone (other than the proportion)"""
    ls = leaves(c)
    return any(x.op == "param" for x in ls) and not any(
        x.op in ("arg", "draw", "cnt", "lphi", "sym", "it", "el", "new", "fit", "exc") or
        x.op == "param" and x.args[0] in ("proportion", "beta") for x in ls)


def unit(prog, un):
    u = run_unit(prog, un)
    it = u.it
    ci = prog.classes[un.name]
    where = f"{ci.module.path}:{un.name}.sample"
    obs = []
    params = {n for n, _ in u.run.params}
    n = 0
    used = False
    for st, v in u.outs.get("sample", ()):
        v = it.strip(v)
        if v.kind != "tuple" or len(v.data) != 2:
            continue
        x, y = (it.strip(a) for a in v.data)
        for src in (x.ln, y.ln):
            if src is not None and any(l.op == "param" and l.args[0] in ("proportion", "beta")
                                       for l in leaves(src)):
                used = True
        for c, _ in st.pc:
            if any(l.op == "param" and l.args[0] in ("proportion", "beta") for l in leaves(c)):
                used = True
        if "proportion" not in params or un.name in OWN_COUNT:
            continue
        verdicts = []
        for a in (x, y):
            for t, conds in count_cases(it, a.ln):
                n += 1
                if t is None:
                    verdicts.append((UNK, "too many cases"))
                    continue
                vals = numeric(t)
                if vals is None:
                    sk = skips(it, t)
                    if sk:
                        verdicts.append((BAD, f"samples are left out when {sk}"))
                        continue
                    off = constant_offset(t)
                    verdicts.append((BAD, f"{off:+d} samples compared with the request ({t!r})")
                                    if off else (UNK, f"{t!r} rows are added"))
                elif vals == WANT:
                    verdicts.append((OK, "n"))
                elif not any(vals):
                    pc = [(c, p) for c, p in list(st.pc) + list(conds.items())
                          if not ignorable(c)]
                    pts = only_from_sizes(pc)
                    if pts:
                        bad = [g for g in pts if wanted(*g) > 0]
                        if bad:
                            verdicts.append((BAD, "nothing is generated for %d minority and %d "
                                             "majority samples with proportion %g" % bad[0]))
                            obs.append(Ob(R_SKIP, un.name, BAD, where, verdicts[-1][1]))
                            continue
                    obs.append(Ob(R_SKIP, un.name, OK, where))
                    verdicts.append((OK, "0"))
                else:
                    i = [i for i in range(len(GRID)) if vals[i] != WANT[i]][0]
                    lo, hi, p = GRID[i]
                    verdicts.append((BAD, f"{vals[i]} instead of {WANT[i]} samples are generated for "
                                     f"{lo} minority and {hi} majority samples with proportion {p} "
                                     f"({t!r})"))
        for r, m in verdicts:
            obs.append(Ob(R_N, un.name, r, where, m if r != OK else ""))
    if "proportion" in params and un.name not in OWN_COUNT:
        for t in list(it.loop_count.values()) + list(it.while_cond.values()):
            if t is not None and any(l.op == "param" and l.args[0] in ("proportion", "beta")
                                     for l in leaves(t)):
                used = True
        roots = [t for t in list(it.loop_count.values()) + list(it.while_cond.values()) if t is not None]
        for st, v in u.outs.get("sample", ()):
            v = it.strip(v)
            roots += [c for c, _ in st.pc]
            if v.kind == "tuple":
                roots += [it.strip(a).ln for a in v.data if it.strip(a).ln is not None]
        seen = set()
        for t in roots:
            leaves(t, seen)
        for t in seen:
            if t.op == "max" and const(0) in t.args and any(isinstance(a, Term) and a.op == "int" for a in t.args):
                vals = numeric(t)
                if vals is None:
                    continue
                if vals == WANT:
                    obs.append(Ob(R_REQ, un.name, OK, where))
                else:
                    i = [i for i in range(len(GRID)) if vals[i] != WANT[i]][0]
                    lo, hi, p = GRID[i]
                    obs.append(Ob(R_REQ, un.name, BAD, where,
                                  f"{vals[i]} instead of {WANT[i]} samples are asked for with {lo} "
                                  f"minority and {hi} majority samples, proportion {p} ({t!r})"))
        obs.append(Ob(R_DEP, un.name, OK if used else BAD, where,
                      "" if used else "no row count, loop bound or branch depends on proportion"))
    s = unit_stats(u)
    s["count_cases"] = n
    return obs, s


def main(tier):
    c = Check("C15", tier)
    us = [Unit("oversampler", k.name, ("sample",)) for k in os_classes(c.prog)]
    c.run_units(unit, us)
    c.explanation = (
        "The number of rows each return path adds is a symbolic term (list lengths, loop trip counts, "
        "mask counts, totals of counts drawn over clusters; loops by induction, while loops by their "
        "exit condition).  Terms over the class sizes and the proportion are compared with "
        "max(0, int(proportion * (n_maj - n_min))) as functions, i.e. on a grid of class sizes and "
        "proportions; paths that add nothing must not be taken for class sizes alone that ask for "
        "samples; every request computed on the way must be the same function of the proportion.")
    return c.finish({R_N: 60})
