"""C29: every step looks at the element it is about."""
import ast
from sa.framework import Check, OK, BAD
from checks.c28 import functions
from checks.c27 import own
from checks.aliasing import text
from checks.liveness import FUNCS, target_defs, loads

R_STALE = "no-index-of-a-loop-that-has-ended"
R_WRAP = "no-element-before-the-first"
R_SHIFT = "positions-in-a-part-are-not-used-on-the-whole"
R_LIST = "a-list-is-not-compared-to-one-of-its-elements"

COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def parents(fn):
    par = {}
    for n in ast.walk(fn):
        for x in ast.iter_child_nodes(n):
            par[x] = n
    return par


def chain(par, n):
    while n in par:
        n = par[n]
        yield n


# ------------------------------------------------------------------ loops that have ended
def breaks(loop):
    """the loop may be left early"""
    todo = list(loop.body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While) + FUNCS):
            todo.extend(getattr(n, "orelse", []) if not isinstance(n, FUNCS) else [])
            continue
        todo.extend(x for x in ast.iter_child_nodes(n)
                    if isinstance(x, (ast.stmt, ast.ExceptHandler)))
    return False


class Reach:
    """the definitions of one name that reach its uses: a forward walk"""

    def __init__(self, fn, name):
        self.name, self.uses, self.stop = name, {}, []
        self.run(fn.body, frozenset({"entry"}))

    def use(self, node, d):
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id == self.name and isinstance(n.ctx, ast.Load):
                self.uses[n] = self.uses.get(n, frozenset()) | d

    def run(self, ss, d):
        for s in ss:
            d = self.one(s, d)
            if d is None:
                return None
        return d

    def one(self, s, d):
        if isinstance(s, ast.If):
            self.use(s.test, d)
            a, b = self.run(s.body, d), self.run(s.orelse, d)
            return a if b is None else b if a is None else a | b
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            head = d
            isfor = not isinstance(s, ast.While)
            self.use(s.iter if isfor else s.test, d)
            while True:
                self.stop.append([frozenset(), frozenset()])
                cur = head
                if isfor and self.name in target_defs(s.target):
                    cur = frozenset({s})
                elif not isfor:
                    self.use(s.test, cur)
                out = self.run(s.body, cur)
                c, b = self.stop.pop()
                new = head | c | (out or frozenset())
                if new == head:
                    break
                head = new
            if isfor and self.name in target_defs(s.target):
                # the value of the last round (an empty loop leaves the old one)
                pass
            e = self.run(s.orelse, head) if s.orelse else head
            return (e or frozenset()) | b
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.stop:
                self.stop[-1][isinstance(s, ast.Break)] |= d
            return None
        if isinstance(s, ast.Try):
            a = self.run(s.body, d)
            h = d | (a or frozenset())
            outs = [self.run(s.orelse, a) if a is not None else None]
            outs += [self.run(x.body, h) for x in s.handlers]
            outs = [x for x in outs if x is not None]
            r = frozenset().union(*outs) if outs else None
            return self.run(s.finalbody, r if r is not None else h) if s.finalbody else r
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, d)
                if i.optional_vars is not None and self.name in target_defs(i.optional_vars):
                    d = frozenset({i})
            return self.run(s.body, d)
        if isinstance(s, FUNCS):
            return d
        if isinstance(s, (ast.Return, ast.Raise)):
            self.use(s, d)
            return None
        self.use(s, d)
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(self.name in target_defs(t) for t in ts):
                return frozenset({s})
        for n in ast.walk(s):
            if isinstance(n, ast.NamedExpr) and n.target.id == self.name:
                return frozenset({s})
        return d


def stale(m, q, fn, obs):
    """in a later loop, the index of a loop that has run to its end stands for its last element in
    every round; nothing in the later loop depends on it any more"""
    par = None
    for loop in own(fn):
        if not isinstance(loop, ast.For) or breaks(loop):
            continue
        for v in sorted(target_defs(loop.target)):
            if v.startswith("_"):
                continue
            if not counts(loop, v):
                continue
            r = None
            bad = None
            for n in ast.walk(fn):
                if not (isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load)):
                    continue
                par = par or parents(fn)
                up = list(chain(par, n))
                if loop in up and n is not loop.iter:
                    continue
                if any(isinstance(c, COMPS) and any(v in target_defs(g.target)
                                                    for g in c.generators) for c in up) or \
                        any(isinstance(c, ast.Lambda) and v in [a.arg for a in c.args.args]
                            for c in up):
                    continue
                r = r or Reach(fn, v)
                d = r.uses.get(n, frozenset())
                # only this loop defines it, and the use is in another loop that does not
                # contain the finished one
                if d - {"entry"} == {loop} and v not in params(fn):
                    for c in up:
                        if isinstance(c, (ast.For, ast.While)) and loop not in ast.walk(c):
                            bad = n
            obs.append((R_STALE, f"{m.path}:{q}:{loop.lineno} {v}", bad is None,
                        f"{m.path}:{bad.lineno if bad else loop.lineno} in {q}",
                        f"{v} is the last value of the loop at line {loop.lineno}, which has ended, "
                        "in every round of this loop"))


def counts(loop, v):
    it = loop.iter
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
        if it.func.id == "range":
            return isinstance(loop.target, ast.Name)
        if it.func.id == "enumerate":
            return True
    return True


def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}


# ------------------------------------------------------------------ before the first
def wraps(m, q, fn, obs):
    """x[i - c] where i counts from below c: the last elements are taken for the ones before the
    first"""
    par = None
    for loop in own(fn):
        if not isinstance(loop, ast.For):
            continue
        v, start = start_of(loop)
        if v is None:
            continue
        for n in (y for s in loop.body for y in ast.walk(s)):
            if not isinstance(n, ast.Subscript):
                continue
            for e in index_parts(n.slice):
                if not (isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub) and
                        isinstance(e.left, ast.Name) and e.left.id == v and
                        isinstance(e.right, ast.Constant) and isinstance(e.right.value, int)):
                    continue
                par = par or parents(fn)
                bad = start - e.right.value < 0 and not guarded(par, n, loop, v) and \
                    not redefined(loop, v)
                obs.append((R_WRAP, f"{m.path}:{q}:{n.lineno} {text(n)}", not bad,
                            f"{m.path}:{n.lineno} in {q}",
                            f"{v} starts at {start}: {text(n)} is the last element in the first "
                            "round, not one before the first"))


def index_parts(s):
    return s.elts if isinstance(s, ast.Tuple) else [s]


def start_of(loop):
    it, t = loop.iter, loop.target
    if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name)):
        return None, None
    if it.func.id == "range" and isinstance(t, ast.Name):
        if len(it.args) == 1:
            return t.id, 0
        if len(it.args) == 2 and isinstance(it.args[0], ast.Constant) and \
                isinstance(it.args[0].value, int):
            return t.id, it.args[0].value
    if it.func.id == "enumerate" and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
        st = it.args[1] if len(it.args) > 1 else None
        for k in it.keywords:
            if k.arg == "start":
                st = k.value
        if st is None:
            return t.elts[0].id, 0
        if isinstance(st, ast.Constant) and isinstance(st.value, int):
            return t.elts[0].id, st.value
    return None, None


def guarded(par, n, loop, v):
    """a condition on the index decides whether the element is looked at"""
    prev = n
    for c in chain(par, n):
        if c is loop:
            break
        if isinstance(c, (ast.If, ast.IfExp, ast.While)) and v in bare(c.test) and \
                prev is not c.test:
            return True
        if isinstance(c, ast.BoolOp) and any(v in bare(x) for x in c.values if x is not prev):
            return True
        prev = c
    # an earlier `if i == 0: continue` in the loop
    for s in loop.body:
        if s.lineno >= n.lineno:
            break
        if isinstance(s, ast.If) and v in bare(s.test) and any(
                isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.Raise))
                for x in ast.walk(s)):
            return True
    return False


def bare(e):
    """names looked at outside of subscripts"""
    if isinstance(e, ast.Subscript):
        return set()
    out = {e.id} if isinstance(e, ast.Name) else set()
    for x in ast.iter_child_nodes(e):
        out |= bare(x)
    return out


def redefined(loop, v):
    return any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store)
               for s in loop.body for x in ast.walk(s))


# ------------------------------------------------------------------ positions in a part
def shifts(m, q, fn, obs):
    """for i, x in enumerate(a[k:]): i counts in the part, a[i] is another element"""
    for loop in ast.walk(fn):
        gens = [(loop.iter, loop.target, loop.body)] if isinstance(loop, ast.For) else \
            [(g.iter, g.target, [loop]) for g in loop.generators] if isinstance(loop, COMPS) else []
        for it, t, body in gens:
            a, v = part(it, t)
            if a is None:
                continue
            bad = None
            if not any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store) and
                       x not in list(ast.walk(t)) for s in body for x in ast.walk(s)):
                for s in body:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Subscript) and text(n.value) == a and \
                                any(isinstance(x, ast.Name) and x.id == v
                                    for x in index_parts(n.slice)[:1]):
                            bad = n
            line = it.lineno
            obs.append((R_SHIFT, f"{m.path}:{q}:{line} {v}", bad is None,
                        f"{m.path}:{bad.lineno if bad else line} in {q}",
                        f"{v} counts in {text(it.args[0])}, not in {a}"))


def part(it, t):
    if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.args):
        return None, None
    a = it.args[0]
    if it.func.id == "enumerate" and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
        if len(it.args) > 1 or it.keywords:
            return None, None
        v = t.elts[0].id
    elif it.func.id == "range" and len(it.args) == 1 and isinstance(t, ast.Name) and \
            isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and \
            a.args:
        a, v = a.args[0], t.id
    else:
        return None, None
    if isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice) and \
            a.slice.lower is not None and not (isinstance(a.slice.lower, ast.Constant) and
                                               a.slice.lower.value in (0, None)):
        return text(a.value), v
    return None, None


# ------------------------------------------------------------------ lists
def lists(m, q, fn, obs):
    """a list compared to a scalar is one False, not one answer per element"""
    kinds = {}
    for n in own(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for v in target_defs(t):
                    e = n.value if isinstance(t, ast.Name) else None
                    kinds.setdefault(v, []).append(e)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            for v in target_defs(n.target):
                kinds.setdefault(v, []).append(None)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            if isinstance(n, ast.AnnAssign) or isinstance(n.value, ast.Name) or \
                    not isinstance(n.value, (ast.List, ast.ListComp)):
                for v in target_defs(n.target):
                    kinds.setdefault(v, []).append(None)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    for v in target_defs(i.optional_vars):
                        kinds.setdefault(v, []).append(None)
    for v in params(fn):
        kinds.setdefault(v, []).append(None)

    def islist(e):
        if isinstance(e, (ast.List, ast.ListComp)):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id in ("list", "sorted"):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                e.func.attr == "tolist":
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult)):
            return isinstance(e.left, (ast.List, ast.ListComp)) or \
                isinstance(e.right, (ast.List, ast.ListComp))
        if isinstance(e, ast.Name):
            ds = kinds.get(e.id)
            return bool(ds) and all(d is not None and not isinstance(d, ast.Name) and islist(d)
                                    for d in ds)
        return False

    def scalar(e):
        if isinstance(e, ast.Constant):
            return e.value is not None
        if isinstance(e, ast.Attribute):
            return e.attr in ("min_label", "maj_label")
        if isinstance(e, ast.Name):
            ds = kinds.get(e.id, [])
            return any(k in e.id for k in ("label",)) and not any(
                d is not None and islist(d) for d in ds) and not e.id.endswith("s") or \
                bool(ds) and all(isinstance(d, ast.Constant) for d in ds)
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
                n.ops[0], (ast.Eq, ast.NotEq, ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            a, b = n.left, n.comparators[0]
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (ast.Name, ast.ListComp, ast.Call)) and islist(x):
                    bad = scalar(y)
                    obs.append((R_LIST, f"{m.path}:{q}:{n.lineno} {text(n)}", not bad,
                                f"{m.path}:{n.lineno} in {q}",
                                f"{text(x)} is a list: {text(n)} is one answer for the whole list, "
                                "not one per element"))


def main(tier):
    c = Check("C29", tier)
    obs = []
    nf = nsub = ncmp = 0
    for m, q, fn, cls in functions(c.prog):
        nf += 1
        for f in (stale, wraps, shifts, lists):
            f(m, q, fn, obs)
        nsub += sum(isinstance(n, ast.Subscript) for n in ast.walk(fn))
        ncmp += sum(isinstance(n, ast.Compare) for n in ast.walk(fn))
    seen = {}
    for rule, key, ok, where, msg in obs:
        k = (rule, key)
        if k not in seen or not ok:
            seen[k] = (ok, where, msg)
    for (rule, key), (ok, where, msg) in seen.items():
        c.add(rule, key, OK if ok else BAD, where, "" if ok else msg)
    c.stats.update(functions_read=nf, subscripts_read=nsub, comparisons_read=ncmp)
    c.explanation = (
        "On the syntax tree of every function of the package: reaching definitions of each loop "
        "variable (one that only an ended loop without break has set is not read inside another "
        "loop), the first value of each counted loop against the offsets it is indexed with "
        "(x[i - 1] with i starting at 0 and no condition on i), the array a position was counted "
        "in (enumerate or range(len()) over a slice) against the array it is used on, and the "
        "Python lists compared to a label or constant.")
    c.assumptions = ["a name is taken for a list when all its assignments build lists"]
    return c.finish({R_STALE: 80})
