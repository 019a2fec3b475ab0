"""Comparing symbolic row counts: case splitting over joins, induction over
loops, and facts from path conditions."""
from .terms import (T, Term, const, is_const, const_value, lin_parts, lin_add, lin_sub, lin_scale,
                    mk_lin, num_mul, leaves, subst, _table)


def by_uid(uid):
    lst = by_uid.cache
    if len(lst) < len(_table):
        lst = by_uid.cache = list(_table.values())
    return lst[uid]


by_uid.cache = []


def conds_of(key, i, n):
    """path conditions [(term, polarity)] of arm i of a phi with this key"""
    if not isinstance(key, Term):
        return []
    if key.op == "if":
        return [(key.args[0], i == 0)] if n == 2 else []
    if key.op == "ifnot":
        return [(key.args[0], i != 0)] if n == 2 else []
    if key.op == "sel":
        sig = key.args[0]
        if i < len(sig):
            return [(by_uid(u), p) for u, p in sig[i]]
    return []


class Cases:
    """enumerate the arms of all phis in a numeric term, consistently"""

    def __init__(self, it, limit=6000):
        self.it = it
        self.limit = limit
        self.n = 0

    def expand(self, t, conds=None, choice=None):
        """yields (term without top-level phi atoms, conds)"""
        conds = dict(conds or {})
        choice = dict(choice or {})
        yield from self._go(t, conds, choice)

    def _go(self, t, conds, choice):
        t = self.reduce(t, conds)
        c, d = lin_parts(t)
        phi = None
        for a in d:
            if a.op == "phi":
                phi = a
                break
        if phi is None:
            self.n += 1
            yield t, conds
            return
        if self.n > self.limit:
            yield None, conds
            return
        key = phi.args[0]
        arms = phi.args[1:]
        if key in choice:
            idxs = [choice[key]]
        else:
            idxs = range(len(arms))
        k = d[phi]
        rest = lin_sub(t, lin_scale(phi, k))
        for i in idxs:
            if i >= len(arms):
                continue
            cs = conds_of(key, i, len(arms))
            nc = dict(conds)
            ok = True
            for cond, pol in cs:
                cond, pol = norm_cond(cond, pol)
                if nc.get(cond, pol) != pol:
                    ok = False
                    break
                nc[cond] = pol
            if not ok or contradictory(nc):
                continue
            ch = dict(choice)
            ch[key] = i
            yield from self._go(lin_add(rest, lin_scale(arms[i], k)), nc, ch)

    def reduce(self, t, conds):
        t = apply_eqs(simplify_sums(self.it, t), conds)
        return t


def norm_cond(c, p):
    while c.op == "not":
        c = c.args[0]
        p = not p
    return c, p


def contradictory(conds):
    """eq(x, c1) and eq(x, c2) both true with different constants"""
    seen = {}
    for c, p in conds.items():
        if p and c.op == "eq" and len(c.args) == 2:
            a, b = c.args
            if is_const(a):
                a, b = b, a
            if is_const(b):
                v = const_value(b)
                if a in seen and seen[a] != v:
                    return True
                seen[a] = v
    return False


def apply_eqs(t, conds):
    """use numeric equalities among the path conditions"""
    for c, p in conds.items():
        if not p or c.op != "eq" or len(c.args) != 2:
            continue
        a, b = c.args
        if not (isinstance(a, Term) and isinstance(b, Term)):
            continue
        d = lin_sub(a, b)
        k0, parts = lin_parts(d)
        if not parts or isinstance(k0, float):
            continue
        # solve for a reduction atom (a derived quantity) that occurs in t
        _, td = lin_parts(t)
        for atom, k in parts.items():
            if atom.op in ("red", "sumof") and atom in td and k in (1, -1):
                rest = lin_sub(d, lin_scale(atom, k))
                t = lin_add(lin_sub(t, lin_scale(atom, td[atom])),
                            lin_scale(rest, -k * td[atom]))
                break
    return t


def loop_of(ver):
    """the loop of a list/array version built in a loop"""
    if ver.op == "lphi":
        return ver.args[0]
    return None


def induct(it, t, depth=4, busy=frozenset()):
    """rewrite loop-carried lengths: if the combination of loop-carried lengths
    in t is invariant, replace it by its initial value; otherwise use the trip
    count of the loop when every iteration adds the same number of rows."""
    for _ in range(depth):
        c, d = lin_parts(t)
        by_loop = {}
        for a in d:
            if a.op == "len" and isinstance(a.args[0], Term) and a.args[0].op == "lphi" and \
                    a.args[0] in it.phi_def:
                by_loop.setdefault(a.args[0].args[0], []).append(a)
        if not by_loop:
            return t
        progress = False
        for loop, atoms in by_loop.items():
            if loop in busy or len(busy) > 3:
                continue
            init = t
            step = const(0)
            ok = True
            for a in atoms:
                ini, nxt = it.phi_def[a.args[0]]
                il, nl = it.ln(ini) if ini.ln is None else ini.ln, \
                    it.ln(nxt) if nxt.ln is None else nxt.ln
                if il is None or nl is None:
                    ok = False
                    break
                k = d[a]
                init = lin_add(lin_sub(init, lin_scale(a, k)), lin_scale(il, k))
                step = lin_add(step, lin_scale(lin_sub(nl, a), k))
            if not ok:
                continue
            orig = step
            part = const(0)
            for a in atoms:
                part = lin_add(part, lin_scale(a, d[a]))
            if len(atoms) == 2 and d[atoms[0]] == -d[atoms[1]]:
                # induction hypothesis: the two are equal at the loop head
                step = subst(step, {atoms[0]: atoms[1]})
            steps = set()
            cs = Cases(it, 60)
            found = []
            for s, cd in cs.expand(step):
                if s is None:
                    steps.add(None)
                    continue
                found.append((induct(it, s, 1, busy | {loop}), cd))
            vals = {s for s, _ in found}
            for s, cd in found:
                if is_const(s) and len(vals) == 2:
                    # on this path the other value is known to equal s
                    o, = vals - {s}
                    if any(p and c is T("eq", *sorted((o, s), key=lambda t: t.uid))
                           for c, p in cd.items()):
                        continue
                steps.add(s)
            if None in steps:
                continue
            if steps == {const(0)} and (len(atoms) != 2 or step is orig or
                                        all(is_const(x) and const_value(x) == 0
                                            for x, _ in Cases(it, 60).expand(
                                                lin_sub(init, lin_sub(t, part)))
                                            if x is not None)):
                t = init
                progress = True
                break
            if step is not orig:
                continue
            r = exact_while(it, loop, atoms, d, steps, init, part) or \
                full_sweep(it, loop, atoms, d, steps, init)
            zero = [cd for x, cd in found if x is const(0)]
            if r is None and len(steps) == 2 and const(0) in steps:
                r = full_sweep(it, loop, atoms, d, steps - {const(0)}, init)
                if r is not None:
                    r = lin_sub(r, T("skipcount", loop))
            if zero and const(0) in steps:
                it.__dict__.setdefault("skip_conds", {})[loop] = zero
            if r is not None:
                t = r
                progress = True
                break
            count = it.loop_count.get(loop)
            if count is not None and loop not in it.loop_brk and len(steps) <= 2:
                vals = []
                for s in steps:
                    if any(x.op in ("it", "el", "lphi", "draw", "row", "loop")
                           for x in leaves(s)):
                        vals = None
                        break
                    vals.append(s)
                if vals is not None:
                    if len(vals) == 1:
                        t = lin_add(init, num_mul(count, vals[0]))
                        progress = True
                        break
                    if const(0) in vals:
                        o = [v for v in vals if v is not const(0)][0]
                        # some iterations add nothing
                        t = lin_add(init, num_mul(lin_sub(count, T("skipped", loop)), o))
                        progress = True
                        break
        if not progress:
            return t
    return t


def stays_below(it, loop):
    """(quantity, bound) if the while loop runs as long as quantity < bound"""
    c = it.while_cond.get(loop)
    if c is None or loop in it.loop_brk:
        return None
    pol = True
    while c.op == "not":
        c, pol = c.args[0], not pol
    if c.op == "lt" and pol:
        return c.args[0], c.args[1]
    return None


def loop_free(t, loop):
    return not any(x.op == "lphi" and x.args[0] is loop or x.op == "it" and x.args[0] is loop
                   for x in leaves(t))


def at_least_zero(t):
    c, d = lin_parts(t)
    return c >= 0 and all(k > 0 and nonneg(a) for a, k in d.items())


def exact_while(it, loop, atoms, d, steps, init, part):
    """while len(L) < N, adding at most one row at a time: len(L) == N on exit"""
    if len(atoms) != 1 or d[atoms[0]] != 1:
        return None
    sb = stays_below(it, loop)
    if sb is None or not all(is_const(s) and isinstance(const_value(s), int) and
                             const_value(s) >= 0 for s in steps) or steps == {const(0)}:
        return None
    top = max(const_value(s) for s in steps)
    q, bound = sb
    n = lin_add(lin_sub(atoms[0], q), bound)
    if not loop_free(n, loop):
        return None
    rest = lin_sub(init, it.phi_def[atoms[0].args[0]][0].ln)
    start = it.phi_def[atoms[0].args[0]][0].ln
    if is_const(start) and const_value(start) == 0:
        r = lin_add(rest, n if at_least_zero(n) else T("max", const(0), n))
        return r if top == 1 else lin_add(r, T("overshoot", loop, const(top - 1)))
    return None


def full_sweep(it, loop, atoms, d, steps, init):
    """for i over all positions of A, adding A[i] rows each time"""
    if len(steps) != 1 or loop in it.loop_brk:
        return None
    s, = steps
    count = it.loop_count.get(loop)
    c, parts_ = lin_parts(s)
    if count is None or c != 0 or len(parts_) != 1:
        return None
    (a, k), = parts_.items()
    if a.op == "row" and len(a.args) == 2 and a.args[1] is T("it", loop) and \
            loop_free(a.args[0], loop) and \
            (count is T("len", a.args[0]) or same_len(it, count, a.args[0])):
        return lin_add(init, lin_scale(total(it, a.args[0]), k))
    return None


def same_len(it, count, A):
    if A.op == "ucounts":
        return count is T("len", T("unique", A.args[0]))
    return False


NONNEG = {"len", "cnt", "sumlen", "skipped", "dropped", "dellen", "max0", "nsplit"}


def nonneg(a):
    if a.op in NONNEG:
        return True
    if a.op == "max" and any(is_const(x) and const_value(x) >= 0 for x in a.args
                             if isinstance(x, Term)):
        return True
    return False


def can_be_positive(a):
    """quantities that are positive for some dataset"""
    if a.op in ("cnt", "skipped", "dropped"):
        return True
    if a.op == "max":
        return True
    if a.op == "len" and isinstance(a.args[0], Term) and a.args[0].op == "arg":
        return True
    return False


def simplify_sums(it, t):
    """sumlen over repeat(i, S[i]) for all i  ->  sum of S"""
    c, d = lin_parts(t)
    out = const(c)
    for a, k in d.items():
        out = lin_add(out, lin_scale(_simp(it, a), k))
    return out


def _simp(it, a):
    if a.op == "phi":
        return T("phi", a.args[0], *[simplify_sums(it, x) for x in a.args[1:]])
    if a.op == "sumlen":
        ver, l = a.args
        # comp(elem, src(enumerate(S)), filt())
        if ver.op == "comp" and l.op == "row" and len(l.args) == 2 and l.args[1].op == "it":
            src = ver.args[1]
            S = l.args[0]
            if src.op == "src" and len(src.args) == 1 and not ver.args[2].args:
                s0 = src.args[0]
                if s0 is S or (s0.op in ("enumerate", "iter") and s0.args and s0.args[0] is S):
                    return total(it, S)
        # sum over c in 1..max(C), c in C, of c * #{C == c}  ->  sum of C
        if ver.op == "comp" and l.op == "mul" and len(l.args) == 2:
            r = by_value(it, ver, l)
            if r is not None:
                return r
    if a.op == "slen" and len(a.args) == 3 and a.args[0].op == "len" and \
            is_const(a.args[1]) and const_value(a.args[1]) == 0 and \
            isinstance(a.args[0].args[0], Term) and a.args[0].args[0].op == "lphi":
        # the first N of the rows collected while there are fewer than N
        sb = stays_below(it, a.args[0].args[0].args[0])
        if sb is not None and lin_add(lin_sub(a.args[0], sb[0]), sb[1]) is a.args[2]:
            return a.args[2]
    if a.op == "dellen":
        return simplify_sums(it, lin_sub(a.args[0], T("dropped", *a.args[1:])))
    if a.op == "red" and a.args[0] == "sum" and len(a.args) == 2:
        return it.term_total.get(a.args[1], a)
    return a


def total(it, S):
    return it.term_total.get(S, T("red", "sum", S))


def by_value(it, ver, l):
    elem, src, filt = ver.args
    for v, n in ((l.args[0], l.args[1]), (l.args[1], l.args[0])):
        if n.op != "cnt" or n.args[0].op != "eq" or v not in n.args[0].args:
            continue
        C = [x for x in n.args[0].args if x is not v]
        if len(C) != 1 or src.op != "src" or len(src.args) != 1 or src.args[0].op != "range":
            continue
        C = C[0]
        if any(f.op != "in" or f.args[0] is not v or f.args[1] is not C for f in filt.args):
            continue
        lo, hi, st = (list(src.args[0].args) + [const(1)])[:3]
        top = T("red", "max", C)
        if not (is_const(lo) and const_value(lo) in (0, 1) and is_const(st) and const_value(st) == 1):
            continue
        gap = lin_sub(lin_add(top, const(1)), hi)
        if is_const(gap) and const_value(gap) <= 0:
            return total(it, C)
        if is_const(gap):
            # the largest multiplicities are left out
            return lin_sub(total(it, C), T("skipped", src.args[0]))
    return None


def compare(it, a, b):
    """'eq', ('ne', why) or ('unk', why) for two row counts; also the number of
    cases examined"""
    if a is None or b is None:
        return "unk", "row count not tracked", 0
    d = simplify_sums(it, lin_sub(a, b))
    cs = Cases(it)
    unk = ne = None
    n = 0
    for t, conds in cs.expand(d):
        n += 1
        if t is None:
            unk = unk or "too many cases"
            continue
        t = induct(it, simplify_sums(it, t))
        # induction may expose further joins
        for t2, conds2 in cs.expand(simplify_sums(it, t), conds):
            if t2 is None:
                unk = unk or "too many cases"
                continue
            r = decide(t2)
            if r == "eq":
                continue
            if r == "ne":
                ne = ne or f"row counts differ by {t2!r}"
            else:
                unk = unk or f"difference {t2!r} not decided"
    if ne:
        return "ne", ne, n
    if unk:
        return "unk", unk, n
    return "eq", "", n


def decide(t):
    c, d = lin_parts(t)
    if not d:
        return "eq" if c == 0 else "ne"
    signs = {k > 0 for k in d.values()}
    if len(signs) == 1 and all(nonneg(a) for a in d) and any(can_be_positive(a) for a in d):
        s = 1 if True in signs else -1
        if c == 0 or (c > 0) == (s > 0):
            return "ne"
    return "unk"
