"""C17: cleaning and undersampling select original rows - nothing synthetic, nothing twice, every
label with its row, and only majority samples leave unless the user asked otherwise."""
import itertools
import random
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, const, is_const, const_value, leaves, subst, show
from sa.values import AV, vconst, vtuple
from sa.units import nf_classes, us_classes, method_args, unit_stats, UnitRun
from sa.drive import ClassRun
from sa.lengths import by_uid

R_ROW = "returned-rows-are-distinct-originals"
R_LAB = "rows-keep-their-labels"
R_MIN = "minority-samples-survive"
R_CNT = "majority-reduced-to-the-minority-size"
R_DEL = "removed-sample-is-majority"
R_SAME = "rows-and-labels-removed-together"

AX, AY = T("arg", "X"), T("arg", "y")
LA, LB = 3, 5
HI = T("hist", AY)
# the user choices which allow the removal of minority samples, and the class then removed
CHOICE = {("TomekLinkRemoval", "strategy", "remove_both"): "any",
          ("EditedNearestNeighbors", "remove", "both"): "any",
          ("EditedNearestNeighbors", "remove", "min"): "min"}


class Unknown(Exception):
    pass


class Infeasible(Exception):
    """the arbitrary choices made lead to an empty class: no result to judge"""


class Lazy:
    """vector known only through its (arbitrary) elements"""

    def __init__(self, get):
        self.get = get


class Perm:
    """arbitrary permutation of the rows it is applied to, with pending slices"""

    def __init__(self, key, cuts=()):
        self.key, self.cuts = key, cuts


class Put:
    """boolean vector with the listed positions overwritten"""

    def __init__(self, base, t, env, value):
        self.base, self.t, self.env, self.value = base, t, env, value


class Rows:
    """domain of row sets: a dataset with labelled row ids, everything that depends on the feature
    values chosen arbitrarily (seeded), so equal terms get equal choices"""

    def __init__(self, it, minority, rnd, sizes=(4, 7), removed="maj"):
        self.it = it
        self.rnd = rnd
        self.m, self.M = (LA, LB) if minority == LA else (LB, LA)
        n = {self.m: sizes[0], self.M: sizes[1]}
        y = [self.m] * sizes[0] + [self.M] * sizes[1]
        rnd.shuffle(y)
        self.y = y
        self.n = n
        self.x = [("r", i) for i in range(len(y))]
        self.memo = {}
        self.arb = {}
        self.removed = removed

    def pick(self, key, choices):
        r = self.arb.get(key)
        if r is None:
            r = self.arb[key] = self.rnd.choice(choices)
        return r

    def ev(self, t, env=()):
        if not isinstance(t, Term):
            return t
        k = (t, env)
        if k in self.memo:
            r = self.memo[k]
            if r is Ellipsis:
                raise Unknown(f"recursive {show(t, 3)}")
            return r
        self.memo[k] = Ellipsis
        try:
            r = self._ev(t, env)
        except (Unknown, Infeasible):
            del self.memo[k]
            raise
        self.memo[k] = r
        return r

    def vec(self, t, env):
        v = self.ev(t, env)
        if not isinstance(v, list):
            raise Unknown(show(t, 3))
        return v

    def unknown(self, t, env):
        """arbitrary value; the elements of an unknown label vector are labels"""
        key = (t, tuple(x for x in env if x[0] in loops_of(t)))
        return Lazy(lambda i: self.pick((key, i), [LA, LB]))

    def index(self, base, ix, env, t):
        if isinstance(ix, Put):
            v = ix.base
            if not isinstance(v, list) or len(v) != len(base):
                raise Unknown("mask of another length")
            v = [bool(x) for x in v]
            for i in self.positions(ix.t, ix.env, base):
                v[i] = ix.value
            return [b for b, k in zip(base, v) if k]
        if isinstance(ix, Perm):
            n = len(base)
            p = self.arb.setdefault(("perm", ix.key, n), self.rnd.sample(range(n), n))
            for lo, hi in ix.cuts:
                p = p[lo:hi]
            return [base[i] for i in p]
        if isinstance(ix, Lazy):
            out = []
            for i, b in enumerate(base):
                v = ix.get(i)
                if not isinstance(v, bool):
                    raise Unknown(show(t, 4))
                if v:
                    out.append(b)
            return out
        if isinstance(ix, list):
            if ix and all(isinstance(v, bool) for v in ix):
                if len(ix) != len(base):
                    raise Unknown("mask of another length")
                return [b for b, v in zip(base, ix) if v]
            if all(isinstance(v, int) for v in ix):
                if any(not -len(base) <= v < len(base) for v in ix):
                    raise Unknown("index out of range")
                return [base[v] for v in ix]
        raise Unknown(show(t, 4))

    def positions(self, t, env, base):
        """row positions named by a deletion argument"""
        if t.op == "rowsof":
            key = ("del", t.args[0], tuple(x for x in env if x[0] in loops_of(t)))
            out = []
            for i, b in enumerate(base):
                if isinstance(b, tuple) and b[0] == "r":
                    b = self.y[b[1]]
                if self.removed == "maj" and b != self.M:
                    continue
                if self.removed == "min" and b != self.m:
                    continue
                if self.pick((key, i), [True, False]):
                    out.append(i)
            return out
        v = self.ev(t, env)
        if isinstance(v, Lazy):
            return [i for i in range(len(base)) if v.get(i) is True]
        if isinstance(v, int):
            return [v]
        if isinstance(v, list) and v and all(isinstance(x, bool) for x in v):
            return [i for i, x in enumerate(v) if x]
        if isinstance(v, list) and all(isinstance(x, int) for x in v):
            return v
        raise Unknown(show(t, 4))

    def _ev(self, t, env):
        if is_const(t):
            return const_value(t)
        op, a = t.op, t.args
        if t is AX:
            return self.x
        if t is AY:
            return self.y
        if op == "none":
            return None
        if op in ("cat",):
            return [e for x in a if isinstance(x, Term) for e in self.vec(x, env)]
        if op in ("part", "copy", "arrof", "astype", "rows") and isinstance(a[0], Term):
            return self.ev(a[0], env)
        if op == "row1":
            return [self.ev(a[0], env)]
        if op == "row" and len(a) == 2:
            b = self.ev(a[0], env)
            i = self.ev(a[1], env)
            if isinstance(i, int) and isinstance(b, list):
                if not -len(b) <= i < len(b):
                    raise Infeasible
                return b[i]
            if isinstance(i, int) and isinstance(b, Lazy):
                return b.get(i)
            raise Unknown(show(t, 3))
        if op == "idx":
            return self.index(self.vec(a[0], env), self.ev(a[1], env), env, t)
        if op == "slc":
            lo, hi = self.ev(a[1], env), self.ev(a[2], env)
            b = self.ev(a[0], env)
            if isinstance(b, Perm):
                return Perm(b.key, b.cuts + ((lo, hi),))
            if isinstance(b, list):
                return b[lo:hi]
            raise Unknown(show(t, 3))
        if op == "del":
            b = self.vec(a[0], env)
            drop = set(self.positions(a[1], env, b))
            return [x for i, x in enumerate(b) if i not in drop]
        if op == "rep" and len(a) == 2:
            n, v = self.ev(a[1], env), self.ev(a[0], env)
            if isinstance(n, int):
                return [v] * n
            raise Unknown(show(t, 3))
        if op in ("eq", "ne", "lt", "le", "gt", "ge", "and", "or", "not", "xor"):
            return self.logic(t, env)
        if op == "setitem" and len(a) == 3:
            b, v = self.ev(a[0], env), self.ev(a[2], env)
            if isinstance(b, list) and all(x in (True, False) for x in b) and v in (True, False):
                return Put(b, a[1], env, bool(v))
            raise Unknown(show(t, 3))
        if op in ("cnt", "len"):
            v = self.ev(a[0], env)
            if isinstance(v, list):
                return sum(v) if op == "cnt" else len(v)
            raise Unknown(show(t, 3))
        if op == "slen" and len(a) == 3:
            n, lo, hi = (self.ev(x, env) for x in a)
            hi = None if hi == "end" else hi
            if not isinstance(n, int):
                raise Unknown(show(t, 3))
            return len(range(n)[lo:hi])
        if op == "dellen" and len(a) == 2:
            raise Unknown("dellen")
        if op == "lin":
            r = a[0]
            for x, c in a[1]:
                v = self.ev(x, env)
                if not isinstance(v, (int, float)):
                    raise Unknown(show(t, 3))
                r += c * v
            return r
        if op == "item" and len(a) == 2 and a[0] is HI:
            return self.n[self.ev(a[1], env)]
        if op == "item" and len(a) == 2 and isinstance(a[0], Term) and a[0].op == "dict":
            k = self.ev(a[1], env)
            xs = a[0].args[2:]
            for i in range(0, len(xs) - 1, 2):
                if isinstance(xs[i], Term) and self.ev(xs[i], env) == k:
                    return self.ev(xs[i + 1], env)
            raise Unknown(show(t, 3))
        if op in ("min", "max") and all(isinstance(self.ev(x, env), (int, float)) for x in a):
            return {"min": min, "max": max}[op](self.ev(x, env) for x in a)
        if op == "int":
            v = self.ev(a[0], env)
            if isinstance(v, (int, float)):
                return int(v)
        if op in ("b//", "b%", "mul") and len(a) == 2:
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(x, int) and isinstance(y, int) and (y or op == "mul"):
                return x * y if op == "mul" else {"b//": x // y, "b%": x % y}[op]
        if op == "div":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and y:
                return x / y
        if op == "arange":
            xs = [self.ev(x, env) for x in a]
            if all(isinstance(x, int) for x in xs):
                return list(range(*xs))
        if op in ("where", "nonzero"):
            v = self.ev(a[0], env)
            if isinstance(v, list):
                return [i for i, x in enumerate(v) if x]
            return v
        if op in ("argsort",) or op in ("call", "u", "arrm") and a[0] in ("argsort", "lexsort"):
            return Perm((t, env))
        if op in ("perm", "permuted"):
            v = self.ev(a[1], env)
            if isinstance(v, int):
                v = list(range(v))
            if isinstance(v, list):
                return self.arb.setdefault((t, len(v)), self.rnd.sample(v, len(v)))
            raise Unknown(show(t, 3))
        if op == "picks":
            v = self.ev(a[1], env)
            if isinstance(v, int):
                v = list(range(v))
            info = self.it.pick_info.get(t)
            if info is None or not isinstance(v, list):
                raise Unknown(show(t, 3))
            n = self.ev(info[0], env)
            rep = info[1]
            rep = True if rep is None else rep.value if rep.is_const else \
                self.ev(rep.term, env)
            rep = rep if isinstance(rep, (bool, int)) else None
            if not isinstance(n, int) or rep is None:
                raise Unknown("size or replacement of the draw")
            key = (t, env)
            if key not in self.arb:
                if rep:
                    self.arb[key] = [self.rnd.choice(v) for _ in range(n)]
                elif n > len(v):
                    raise Unknown("draw larger than its source")
                else:
                    self.arb[key] = self.rnd.sample(v, n)
            return self.arb[key]
        if op == "draw" and len(a) > 1 and a[1] in ("randint", "integers"):
            raise Unknown(show(t, 3))
        if op == "osx":
            return self.x + [("syn", i) for i in range(3)]
        if op == "osy":
            return self.y + [self.m] * 3
        if op == "phi":
            return self.ev(self.branch(t, env), env)
        if op == "lphi":
            return self.loop(t, env)
        if op == "m" and a[0] == "predict":
            try:
                n = len(self.vec(a[2], env))
            except (Unknown, IndexError):
                return self.unknown(t, env)
            return [self.pick((t, env, i), [LA, LB]) for i in range(n)]
        if op == "unique" and a[0] is AY:
            return sorted({LA, LB})
        return self.unknown(t, env)

    def branch(self, t, env):
        g, alts = t.args[0], t.args[1:]
        if g.op in ("if", "ifnot") and len(alts) == 2:
            c = self.ev(g.args[0], env)
            if not isinstance(c, bool):
                c = self.pick((g.args[0], env), [True, False])
            return alts[0] if c == (g.op == "if") else alts[1]
        if g.op == "sel" and isinstance(g.args[0], tuple) and len(g.args[0]) == len(alts):
            fit = []
            for pcs, alt in zip(g.args[0], alts):
                ok = True
                for uid, pol in pcs:
                    c = by_uid(uid)
                    try:
                        v = self.ev(c, env)
                    except (Unknown, Infeasible):
                        v = None
                    if not isinstance(v, bool):
                        v = self.pick((c, env), [True, False])
                    if v != pol:
                        ok = False
                        break
                if ok:
                    fit.append(alt)
            if len(fit) == 1:
                return fit[0]
        return self.pick((g, env), list(alts))

    def loop(self, t, env):
        d = self.it.phi_def.get(t)
        if d is None:
            raise Unknown(f"loop value {show(t, 3)}")
        lp = t.args[0]
        e = dict(env)
        k = e.get(lp)
        if k is None:
            k = self.pick(("iterations", lp), [0, 1, 2, 3])
        if k == 0:
            e[lp] = 0
            return self.ev(d[0].term, tuple(sorted(((a, b) for a, b in env if a is not lp),
                                                   key=str)))
        e[lp] = k - 1
        return self.ev(d[1].term, tuple(sorted(e.items(), key=str)))

    def logic(self, t, env):
        op, a = t.op, t.args
        vs = [self.ev(x, env) for x in a]
        if op == "not" and isinstance(vs[0], Put):
            p = vs[0]
            return Put([not x for x in p.base], p.t, p.env, not p.value)
        if op == "and" and any(v is False for v in vs):
            return False
        if op == "or" and any(v is True for v in vs):
            return True
        f = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "lt": lambda x, y: x < y,
             "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y,
             "not": lambda x: not x, "and": lambda *x: all(x), "or": lambda *x: any(x),
             "xor": lambda x, y: x != y}[op]
        n = [len(v) for v in vs if isinstance(v, list)]
        if any(isinstance(v, Perm) for v in vs):
            raise Unknown(show(t, 3))
        if n:
            if len(set(n)) != 1:
                raise Unknown(f"lengths {n} in {show(t, 3)}")
            return [f(*[v[i] if isinstance(v, list) else v.get(i) if isinstance(v, Lazy) else v
                        for v in vs]) for i in range(n[0])]
        if any(isinstance(v, Lazy) for v in vs):
            if op in ("lt", "le", "gt", "ge"):
                key = (t, env)
                return Lazy(lambda i: self.pick((key, i), [True, False]))
            return Lazy(lambda i: f(*[v.get(i) if isinstance(v, Lazy) else v for v in vs]))
        try:
            return f(*vs)
        except TypeError:
            raise Unknown(show(t, 3))


_loops = {}


def loops_of(t):
    r = _loops.get(t)
    if r is None:
        r = _loops[t] = {x.args[0] for x in leaves(t) if x.op in ("lphi", "it")}
    return r


# ------------------------------------------------------------- removal lists
def sources(t, out):
    """list versions whose elements are the deleted positions"""
    if t.op in ("seq", "call", "sorted", "setof") or t.op == "u":
        for x in t.args:
            if isinstance(x, Term):
                sources(x, out)
    elif t.op in ("unique", "arrof", "rowsof", "listof"):
        sources(t.args[0], out)
    elif t.op in ("lphi", "append", "comp", "extend", "lhavoc"):
        out.append(t)
    elif t.op == "list" and not t.args:
        pass
    else:
        out.append(None)
    return out


class Labels:
    """label facts on one removed position, decided over all labellings of the positions"""

    def __init__(self, m, M, sizes):
        self.m, self.M = m, M
        self.n = {m: sizes[0], M: sizes[1]}
        self.parent = {}
        self.vars = []
        self.asg = {}
        self.collect = True

    def find(self, t):
        while t in self.parent:
            t = self.parent[t]
        return t

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is not b:
            self.parent[a] = b

    def canon(self, t, depth=0):
        """t with equal positions replaced by their representative"""
        if not isinstance(t, Term) or not self.parent:
            return t
        t = self.find(t)
        return t

    def var(self, key, kind):
        if key not in self.asg:
            if self.collect:
                self.vars.append((key, kind))
                self.asg[key] = self.m if kind == "label" else False
            else:
                raise Unknown
        return self.asg[key]

    def label(self, t):
        """value of a label expression"""
        if is_const(t):
            return const_value(t)
        if t.op == "phi":
            g = t.args[0]
            if g.op in ("if", "ifnot") and len(t.args) == 3:
                if self.collect:
                    self.cond(g.args[0]), self.label(t.args[1]), self.label(t.args[2])
                return self.label(t.args[1] if self.cond(g.args[0]) == (g.op == "if")
                                  else t.args[2])
        if t.op in ("row", "item", "elem") and len(t.args) == 2 and isinstance(t.args[1], Term):
            return self.var(("lab", t.args[0], self.find(t.args[1])), "label")
        return self.var(("val", t), "label")

    def numeric(self, t):
        if is_const(t) and isinstance(const_value(t), (int, float)):
            return const_value(t)
        if t.op == "item" and t.args[0] is HI and is_const(t.args[1]):
            return self.n[const_value(t.args[1])]
        if t.op == "lin":
            r = t.args[0]
            for x, c in t.args[1]:
                v = self.numeric(x)
                if v is None:
                    return None
                r += c * v
            return r
        return None

    def cond(self, t):
        op, a = t.op, t.args
        if is_const(t):
            return bool(const_value(t))
        if op == "not":
            return not self.cond(a[0])
        if op in ("and", "or"):
            vs = [self.cond(x) for x in a]
            return all(vs) if op == "and" else any(vs)
        if op in ("lt", "le", "gt", "ge", "eq", "ne") and len(a) == 2:
            x, y = self.numeric(a[0]), self.numeric(a[1])
            if x is not None and y is not None:
                return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y,
                        "ne": x != y}[op]
        if op in ("eq", "ne") and len(a) == 2:
            if all(is_const(x) for x in a):
                return (const_value(a[0]) == const_value(a[1])) == (op == "eq")
            if self.index_like(a[0], a[1]):
                p, q = self.find(a[0]), self.find(a[1])
                if p is q:
                    return op == "eq"
                return self.var(("idx", frozenset((p, q))), "bool") == (op == "eq")
            return (self.label(a[0]) == self.label(a[1])) == (op == "eq")
        if op == "phi" and a[0].op in ("if", "ifnot") and len(a) == 3:
            if self.collect:
                self.cond(a[0].args[0]), self.cond(a[1]), self.cond(a[2])
            return self.cond(a[1] if self.cond(a[0].args[0]) == (a[0].op == "if") else a[2])
        return self.var(("cond", t), "bool")

    @staticmethod
    def index_like(a, b):
        """comparison of two positions"""
        def pos(t):
            return t.op == "it" or t.op == "el" or t.op == "row" and \
                any(x.op in ("m", "kneighbors") or x.op == "call" for x in leaves(t.args[0])) and \
                not t.args[0].op == "unique"
        return a.op == "it" or b.op == "it" or pos(a) and pos(b)


def bound_by_mask(e):
    """[(mask, position)] when the position is taken from where(mask)"""
    out = []
    for x in leaves(e):
        if x.op in ("row", "el", "elem", "item") and isinstance(x.args[0], Term) and \
                x.args[0].op in ("where", "nonzero"):
            out.append((x.args[0].args[0], x))
    return out


def at(mask, pos):
    """the condition a mask states at one position"""
    op = mask.op
    if op in ("eq", "ne", "and", "or", "not", "lt", "gt", "le", "ge"):
        return T(op, *[at(x, pos) for x in mask.args])
    if is_const(mask) or mask.op == "phi" and all(is_const(x) for x in mask.args[1:]):
        return mask
    return T("row", mask, pos)


def removals(term, appends):
    """alternatives [(position term, facts)] of the positions a deletion removes; None = unknown"""
    out = []
    for s in sources(term, []):
        if s is None:
            return None
        if s.op == "comp":
            facts = [(c, True) for c in s.args[2].args]
            out += expand(s.args[0], facts, appends)
            continue
        found = False
        for x in leaves(s):
            if x.op == "lphi" and x.args[1] == "list":
                found = True
                for e, pc in appends.get(x.args[2], ()):
                    out += expand(e, pc, appends)
        if not found:
            return None
    return out


def expand(e, facts, appends):
    """positions taken from a list of an earlier loop bring the facts of that loop along"""
    facts = list(facts)
    terms = [e] + [c for c, _ in facts]
    for t in terms:
        for x in leaves(t):
            if x.op != "el" or len(x.args) != 3:
                continue
            v, it = x.args[0], x.args[1]
            sub = v.op == "sub"
            base = v.args[0] if sub else v
            if base.op == "lphi" and base.args[1] == "list" and base.args[2] in appends:
                recs = appends[base.args[2]]
            elif base.op == "comp":
                recs = [(base.args[0], [(c, True) for c in base.args[2].args])]
            else:
                continue
            res = []
            for el, pc in recs:
                if sub:
                    if el.op not in ("tuple", "list"):
                        continue
                mp = {}
                for y in {y for t2 in terms for y in leaves(t2)}:
                    if y.op == "el" and len(y.args) == 3 and y.args[1] is it:
                        if sub and y.args[0].op == "sub" and y.args[0].args[0] is base and \
                                isinstance(y.args[0].args[1], int) and \
                                y.args[0].args[1] < len(el.args):
                            mp[y] = el.args[y.args[0].args[1]]
                        elif not sub and y.args[0] is base:
                            mp[y] = el
                if x not in mp:
                    continue
                e2 = subst(e, mp)
                f2 = [(subst(c, mp), p) for c, p in facts] + list(pc)
                res += expand(e2, f2, appends)
            if res:
                return res
    if e.op == "phi" and e.args[0].op in ("if", "ifnot") and len(e.args) == 3:
        c, pol = e.args[0].args[0], e.args[0].op == "if"
        return expand(e.args[1], facts + [(c, pol)], appends) + \
            expand(e.args[2], facts + [(c, not pol)], appends)
    return [(e, facts)]


def simple_position(e):
    """a loop index or an entry of a neighbour table: nothing which could filter by class"""
    todo = [e]
    while todo:
        x = todo.pop()
        if not isinstance(x, Term) or x.op in ("it", "m", "call", "len", "loop"):
            continue
        if x.op not in ("row", "item", "el", "elem", "slc", "phi", "cols", "sub", "lphi", "if",
                        "const", "lin", "none", "list", "rows", "slice", "tuple") or x.op == "phi" and x is e:
            return False
        if x.op == "phi":
            todo.extend(x.args[1:])
        else:
            todo.extend(x.args)
    return True


def decide(e, facts, ylab, want, m, M, sizes):
    """None when every labelling allowed by the facts gives the removed sample the wanted class,
    else a counterexample; raises Unknown"""
    L = Labels(m, M, sizes)
    facts = list(facts)
    for x in [e] + [c for c, _ in facts]:
        for mask, pos in bound_by_mask(x):
            facts.append((at(mask, pos), True))
    # equal positions first
    changed = True
    while changed:
        changed = False
        for c, p in flat(facts):
            if c.op == "eq" and p and len(c.args) == 2 and L.index_like(*c.args):
                if L.find(c.args[0]) is not L.find(c.args[1]):
                    L.union(c.args[0], c.args[1])
                    changed = True
    target = T("row", ylab, e)
    # collect the variables of relevant facts: those connected to the target
    L.label(target)
    fs = []
    for c, p in facts:
        L2 = Labels(m, M, sizes)
        L2.parent = L.parent
        L2.cond(c)
        fs.append((c, p, {k for k, _ in L2.vars}, L2.vars))
    have = {("lab", ylab, L.find(e))}
    use = []
    grew = True
    while grew:
        grew = False
        for f in fs:
            if f in use:
                continue
            if f[2] & have:
                use.append(f)
                have |= f[2]
                grew = True
    vs = {("lab", ylab, L.find(e)): "label"}
    for f in use:
        for k, kind in f[3]:
            vs[k] = kind
    if len(vs) > 14:
        raise Unknown("too many labels involved")
    keys = list(vs)
    for vals in itertools.product(*[[m, M] if vs[k] == "label" else [True, False]
                                    for k in keys]):
        L.asg = dict(zip(keys, vals))
        L.collect = False
        if all(L.cond(c) == p for c, p, _, _ in use) and L.label(target) != want:
            return not use
    return None


def flat(facts):
    for c, p in facts:
        if c.op == "and" and p:
            yield from flat([(x, True) for x in c.args])
        elif c.op == "or" and not p:
            yield from flat([(x, False) for x in c.args])
        elif c.op == "not":
            yield from flat([(c.args[0], not p)])
        else:
            yield c, p


# ---------------------------------------------------------------------- units
def choices(prog, ci):
    """parameter presets: the string options of the constructor"""
    opts = [{}]
    pars = {"TomekLinkRemoval": ("strategy", ["remove_majority", "remove_both"]),
            "EditedNearestNeighbors": ("remove", ["both", "min", "maj"]),
            "OversamplingDrivenUndersampling": ("mode", ["random", "farthest"])}
    if ci.name in pars:
        p, vs = pars[ci.name]
        opts = [{p: v} for v in vs]
    return opts


def unit(prog, job):
    name, preset, meth, runs, seed = job
    ci = prog.classes[name]
    u = UnitRun()
    r = ClassRun(prog, ci, preset={k: vconst(v) for k, v in preset.items()})
    it = u.it = r.it
    it.label_model = (AY, [LA, LB], [T("item", HI, const(x)) for x in (LA, LB)])
    tag = name + "".join(f" {k}={v}" for k, v in preset.items())
    f = ci.find(meth)
    where = f"{f[1].module.path}:{f[1].node.lineno} in {name}.{meth}"
    appends = {}
    dels = []
    orig = it.list_append

    def la(av, x, st, node):
        rec(av, x, st, node)
        return orig(av, pair(x, st), st, node)

    def pair(x, st):
        """a list display kept as an element is seen as the tuple of its items"""
        x = it.strip(x)
        if x.kind == "list" and x.data in st.heap:
            h = st.heap[x.data]
            if h.items is not None:
                return vtuple(list(h.items))
        return x

    def rec(av, x, st, node):
        x = pair(x, st)
        t = T("tuple", *[y.term for y in x.data]) if x.kind == "tuple" else x.term
        lst = appends.setdefault(str(av.data), [])
        lst.append((t, tuple(st.pc)))

    it.list_append = la
    ohav = it.list_havoc

    def hav(av, st, node, elem=None, ln=None):
        if elem is not None:
            rec(av, elem, st, node)
        return ohav(av, st, node, elem=elem, ln=ln)
    it.list_havoc = hav
    it.on_delete = lambda a0, ot, st, node: dels.append(
        (a0.term, ot, f"{it.stack[-1][0].module.path}:{node.lineno}"))

    def sample(it, b, args, kwargs, rest, st, node):
        if not args or it.strip(args[0]).term is not AX:
            return None
        d = it.site(node)
        n = T("len", T("osx", d))
        return vtuple([AV("arr", T("osx", d), frozenset([it.newloc(node, "osx")]), None, 2, n),
                       AV("arr", T("osy", d), frozenset([it.newloc(node, "osy")]), None, 1, n)])
    it.func_override["any.sample"] = sample
    alts = r.call(meth, [], dict(method_args(prog, ci, meth)), phase="sample")
    for s, v in alts:
        v = it.strip(v)
        for x in leaves(v.term) if v.kind != "tuple" else \
                {z for d in v.data for z in leaves(d.term)}:
            if x.op == "idx" and isinstance(x.args[1], Term):
                m = x.args[1]
                m = m.args[0] if m.op == "not" else m
                if m.op == "setitem":
                    dels.append((x.args[0], m.args[1], where))
    obs = []
    removed = "maj"
    for k, v in preset.items():
        removed = CHOICE.get((name, k, v), removed)
    # ------------------------------------------------ the removed positions
    seen = {}
    for base, ot, w in dels:
        seen.setdefault((base, ot), w)
    lists = {}
    for (base, ot), w in seen.items():
        lists.setdefault(ot, []).append((base, w))
    listok = True
    for ot, bases in lists.items():
        if ot.op != "rowsof":
            continue
        rem = removals(ot, appends)
        ybase = [b for b, _ in bases if is_labels(it, b)]
        key = f"{tag} list"
        if rem is None or not ybase:
            obs.append(Ob(R_DEL, key, UNK, bases[0][1], "positions not understood"))
            listok = False
            continue
        for e, facts in rem:
            v, msg = OK, ""
            if removed != "any":
                want = removed
                for m, M in ((LA, LB), (LB, LA)):
                    try:
                        res = decide(e, facts, ybase[0], m if want == "min" else M, m, M, (4, 7))
                    except Unknown as ex:
                        v, msg = (UNK, str(ex)) if v != BAD else (v, msg)
                        continue
                    if res is not None:
                        if res and not simple_position(e):
                            v, msg = UNK, "position not understood"
                        else:
                            v = BAD
                            msg = (f"the sample at {show(e, 4)[:90]} is removed on a path which "
                                   f"does not establish that it belongs to the "
                                   f"{'minority' if want == 'min' else 'majority'} class")
            obs.append(Ob(R_DEL, f"{key} {show(e, 3)[:60]}", v, bases[0][1], msg))
    # ------------------------------------------------ the returned rows
    sizes = ((4, 7), (3, 9), (5, 6))
    for m in (LA, LB):
        world = f"{tag} minority {'first' if m == LA else 'last'}"
        bad, unk, n_ok = {}, None, 0
        for k in range(runs):
            rnd = random.Random(f"{seed}{name}{k}{m}")
            for s, v in alts:
                v = it.strip(v)
                if v.kind != "tuple" or len(v.data) != 2:
                    unk = "result is not a pair"
                    continue
                w = Rows(it, m, rnd, sizes[k % 3], removed)
                try:
                    if not feasible(w, s):
                        continue
                    X = w.ev(v.data[0].term)
                    y = w.ev(v.data[1].term)
                    if not isinstance(X, list) or not isinstance(y, list):
                        raise Unknown("result not a row set")
                    if any(not isinstance(e, tuple) for e in X) or \
                            any(isinstance(e, (Lazy, Perm)) for e in y):
                        raise Unknown("rows of unknown origin")
                except Infeasible:
                    continue
                except Unknown as ex:
                    unk = str(ex) or "unknown construct"
                    continue
                n_ok += 1
                judge(w, X, y, meth, removed, bad)
        for rule in (R_ROW, R_LAB, R_MIN) + ((R_CNT,) if meth == "sample" else ()):
            if rule in bad:
                obs.append(Ob(rule, world, BAD, where, bad[rule]))
            elif n_ok == 0 or unk is not None:
                obs.append(Ob(rule, world, UNK, where, f"undecided: {unk}"))
            else:
                obs.append(Ob(rule, world, OK, where, ""))
    st = unit_stats(u)
    st["removal_sites"] = len(seen)
    return obs, st


def feasible(w, s):
    for c, p in s.pc:
        try:
            v = w.ev(c)
        except (Unknown, Infeasible):
            continue
        if isinstance(v, bool) and v != p:
            return False
    return True


def is_labels(it, t):
    """t is built from the caller's labels"""
    x = t
    while isinstance(x, Term):
        if x is AY:
            return True
        if x.op in ("del", "idx", "slc", "copy", "cat", "part") and isinstance(x.args[0], Term):
            x = x.args[0]
        elif x.op == "rep":
            return True
        elif x.op == "lphi" and x in it.phi_def:
            x = it.phi_def[x][0].term
        else:
            return False
    return False


def judge(w, X, y, meth, removed, bad):
    syn = [e for e in X if e[0] != "r"]
    if syn:
        bad.setdefault(R_ROW, "a returned row is generated, not one of the input rows")
    ids = [e[1] for e in X if e[0] == "r"]
    if len(set(ids)) != len(ids):
        bad.setdefault(R_ROW, "an input row is returned more than once")
    if len(X) != len(y):
        bad.setdefault(R_LAB, f"{len(X)} rows but {len(y)} labels are returned")
    else:
        for e, l in zip(X, y):
            if e[0] == "r" and w.y[e[1]] != l:
                bad.setdefault(R_LAB, "a row is returned with the label of the other class")
                break
    keep = w.M if removed == "min" else w.m
    if removed != "any":
        lost = [i for i, l in enumerate(w.y) if l == keep and i not in set(ids)]
        if lost:
            bad.setdefault(R_MIN, f"{'majority' if removed == 'min' else 'minority'} samples are "
                           "missing from the result")
    if meth == "sample":
        n = sum(1 for i in set(ids) if w.y[i] == w.M)
        if n != w.n[w.m]:
            bad.setdefault(R_CNT, f"{n} majority samples are kept for {w.n[w.m]} minority samples")


def main(tier):
    c = Check("C17", tier)
    runs = 24 if tier == "quick" else 300
    jobs = []
    for ci in us_classes(c.prog):
        for p in choices(c.prog, ci):
            jobs.append((ci.name, p, "sample", runs, c.seed))
    for ci in nf_classes(c.prog):
        for p in choices(c.prog, ci):
            jobs.append((ci.name, p, "remove_noise", runs, c.seed))
    c.run_units(unit, jobs)
    c.explanation = (
        "The result terms of every undersampler and noise filter (callees inlined, both class "
        "orders) are evaluated in a domain of row sets: rows carry identities and labels, every "
        "quantity that depends on feature values is arbitrary, loops run 0 to 3 times. Returned "
        "rows must be distinct input rows with their own labels, every minority row present, and "
        "for undersamplers as many majority rows as minority ones. For deletion lists every append "
        "is a site whose path facts (with the facts of lists it iterates over) must imply, for "
        "every labelling they allow, that the removed sample belongs to the majority of the "
        "caller's data.")
    c.assumptions = ["two classes", "loops beyond three iterations behave like the third",
                     "kneighbors and classifiers return arbitrary values"]
    return c.finish({})
