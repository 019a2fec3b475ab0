"""C28: what is put aside keeps its value: no changes through a second name, exchanges of old values."""
import ast
import copy
from sa.framework import Check, OK, BAD
from checks.aliasing import Flow, Summaries, text, root, names
from checks.c27 import own
from checks.liveness import FUNCS

R_KEEP = "no-change-in-place-of-an-object-kept-under-another-name"
R_PUT = "collected-objects-are-distinct"
R_REP = "rows-of-a-repeated-list-are-distinct"
R_FIELD = "kept-attribute-is-not-changed-through-its-source"
R_COPY = "a-copy-carries-the-state"
R_SWAP = "an-exchange-uses-the-old-values"


def functions(prog):
    """(module, qualified name, function, class)"""
    for m in prog.modules.values():
        stack = [(m.tree, "", None)]
        while stack:
            n, q, c = stack.pop()
            for x in ast.iter_child_nodes(n):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, f"{q}{x.name}", x, c
                    stack.append((x, f"{q}{x.name}.", c))
                elif isinstance(x, ast.ClassDef):
                    stack.append((x, f"{q}{x.name}.", x))
                else:
                    stack.append((x, q, c))


# ---------------------------------------------------------------------- repeated lists
def mutable(e, fn):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Attribute) and f.attr in (
                "copy", "zeros", "ones", "array", "empty", "full", "zeros_like", "ones_like"):
            return True
        return isinstance(f, ast.Name) and f.id in ("list", "dict", "set", "deepcopy")
    if isinstance(e, ast.Name):
        ds = [n.value for n in own(fn) if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        return bool(ds) and all(not isinstance(d, ast.Name) and mutable(d, fn) for d in ds)
    return False


def repeated(m, q, fn, obs):
    """[x] * n gives n times the same x: its rows must not be changed in place"""
    for s in own(fn):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and
                isinstance(s.targets[0], ast.Name)):
            continue
        e = s.value
        if not (isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult)):
            continue
        li = e.left if isinstance(e.left, ast.List) else e.right
        if not isinstance(li, ast.List) or not any(mutable(x, fn) for x in li.elts):
            continue
        v = s.targets[0].id
        bad = None
        items = {v}
        for n in ast.walk(fn):
            if isinstance(n, ast.For):
                t = n.target
                if isinstance(n.iter, ast.Name) and n.iter.id == v and isinstance(t, ast.Name):
                    items.add(t.id + "*")
                if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and \
                        n.iter.func.id == "enumerate" and isinstance(n.iter.args[0], ast.Name) and \
                        n.iter.args[0].id == v and isinstance(t, ast.Tuple) and \
                        isinstance(t.elts[1], ast.Name):
                    items.add(t.elts[1].id + "*")

        def item(x):
            return isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and \
                x.value.id == v or isinstance(x, ast.Name) and x.id + "*" in items
        for n in own(fn):
            ts = n.targets if isinstance(n, ast.Assign) else \
                [n.target] if isinstance(n, ast.AugAssign) else []
            for t in ts:
                if isinstance(t, ast.Subscript) and item(t.value):
                    bad = n
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and \
                    isinstance(n.value.func, ast.Attribute) and n.value.func.attr in (
                        "append", "extend", "insert", "add", "update", "sort", "fill", "pop",
                        "remove", "clear") and item(n.value.func.value):
                bad = n
        obs.append((R_REP, f"{m.path}:{q}:{s.lineno} {v}", bad is None,
                    f"{m.path}:{s.lineno} in {q}",
                    f"{v} holds the same object many times; the change at line "
                    f"{bad.lineno if bad else 0} changes all of them"))


# ---------------------------------------------------------------------- exchanges
class Swap(ast.NodeTransformer):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def generic_visit(self, n):
        if isinstance(n, ast.expr):
            t = text(n)
            if t == self.a or t == self.b:
                new = ast.parse(self.b if t == self.a else self.a, mode="eval").body
                return new
        return super().generic_visit(n)

    visit_Name = visit_Subscript = visit_Attribute = generic_visit


def blocks(fn):
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, FUNCS):
            continue
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def exchanges(m, q, fn, obs):
    """a = f(a, b); b = f(b, a): the second must not see the new a"""
    for b in blocks(fn):
        for s, r in zip(b, b[1:]):
            if not all(isinstance(x, ast.Assign) and len(x.targets) == 1 for x in (s, r)):
                continue
            ta, tb = text(s.targets[0]), text(r.targets[0])
            if ta == tb or not isinstance(s.targets[0], (ast.Name, ast.Subscript, ast.Attribute)):
                continue
            used = {text(x) for x in ast.walk(s.value) if isinstance(x, ast.expr)}
            later = {text(x) for x in ast.walk(r.value) if isinstance(x, ast.expr)}
            if tb not in used or not {ta, tb} & later:
                continue
            if isinstance(s.value, (ast.Tuple, ast.List, ast.Dict)):
                continue
            mirror = text(Swap(ta, tb).visit(copy.deepcopy(s.value)))
            bad = ta in later and mirror == text(r.value)
            obs.append((R_SWAP, f"{m.path}:{q}:{r.lineno} {ta} {tb}", not bad,
                        f"{m.path}:{r.lineno} in {q}",
                        f"{tb} is computed from the new {ta}, the way {ta} was computed from {tb}: "
                        f"what {ta} held is gone"))


# ---------------------------------------------------------------------- attributes
def fields(m, fns, obs):
    """o.kept = o.current, and o.current changed in place somewhere in the module"""
    kept = []
    for q, fn in fns:
        for s in own(fn):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Attribute) and \
                    root(s.value) not in (None, "self", "np"):
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and t.attr != s.value.attr and \
                            root(t) not in (None, "self"):
                        kept.append((q, s, t, s.value.attr))
    if not kept:
        return
    read = {n.attr for _, fn in fns for n in ast.walk(fn)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
    for q, s, t, g in kept:
        bad = None
        for q2, fn in fns:
            bad = bad or changed(fn, g)
        obs.append((R_FIELD, f"{m.path}:{q}:{s.lineno} {text(t)}",
                    bad is None or t.attr not in read, f"{m.path}:{s.lineno} in {q}",
                    f"{text(t)} is the same object as {text(s.value)}, which "
                    f"{m.path}:{bad.lineno if bad else 0} changes in place"))


def changed(fn, g):
    """a statement that changes an attribute g in place before giving it a new value"""
    out = []

    def walk(b, new, alias):
        for s in b:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and t.attr == g:
                        new = True
                    if isinstance(t, ast.Name):
                        if isinstance(s.value, ast.Attribute) and s.value.attr == g and not new:
                            alias = alias | {t.id}
                        else:
                            alias = alias - {t.id}
                    if isinstance(t, ast.Subscript):
                        hit(t.value, s, new, alias)
            if isinstance(s, ast.AugAssign):
                t = s.target
                if isinstance(t, ast.Subscript):
                    hit(t.value, s, new, alias)
                elif array(fn, g):
                    hit(t, s, new, alias)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                    isinstance(s.value.func, ast.Attribute) and s.value.func.attr in (
                        "sort", "fill", "append", "extend", "clear", "update"):
                hit(s.value.func.value, s, new, alias)
            if isinstance(s, FUNCS):
                continue
            for f in ("body", "orelse", "finalbody"):
                x = getattr(s, f, None)
                if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                    walk(x, new, alias)
            for h in getattr(s, "handlers", []):
                walk(h.body, new, alias)

    def hit(e, s, new, alias):
        if isinstance(e, ast.Attribute) and e.attr == g and not new:
            out.append(s)
        if isinstance(e, ast.Name) and e.id in alias:
            out.append(s)
    walk(fn.body, False, frozenset())
    return out[0] if out else None


def array(fn, g):
    """attribute g is used as an array (+= works in place)"""
    return any(isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and
               n.value.attr == g for n in ast.walk(fn)) or any(
        isinstance(n, ast.AugAssign) and isinstance(n.value, (ast.Attribute, ast.BinOp))
        for n in ast.walk(fn))


# ---------------------------------------------------------------------- copies of the object itself
COPIES = {"clone", "copy", "__copy__", "duplicate"}


def mentions(e, attr):
    return any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.value, ast.Name) and
               n.value.id == "self" for n in ast.walk(e))


def copies(m, obs):
    """the method that copies an object hands over what its other methods change of what the
    constructor was given"""
    for cls in [c for c in ast.walk(m.tree) if isinstance(c, ast.ClassDef)]:
        meth = {f.name: f for f in cls.body if isinstance(f, ast.FunctionDef)}
        init = meth.get("__init__")
        if init is None:
            continue
        params = [a.arg for a in init.args.args[1:] + init.args.kwonlyargs]
        env = {p: {p} for p in params}
        made = {}
        for s in sorted(own(init), key=lambda s: s.lineno):
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1):
                continue
            t = s.targets[0]
            got = set().union(*[env.get(n.id, set()) for n in ast.walk(s.value)
                                if isinstance(n, ast.Name)] or [set()])
            if isinstance(t, ast.Name):
                env[t.id] = got
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
                    t.value.id == "self":
                made[t.attr] = made.get(t.attr, set()) | got
        state = set()
        for n, f in meth.items():
            if n == "__init__" or n in COPIES:
                continue
            for s in own(f):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target] \
                    if isinstance(s, ast.AugAssign) else []
                for t in ts:
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                                x.value.id == "self" and made.get(x.attr):
                            state.add(x.attr)
        for n in COPIES & set(meth):
            f = meth[n]
            handed = handed_over(cls, meth, f, params)
            if handed is None:
                continue
            node, kw, after = handed
            for a in sorted(state):
                ps = [p for p in made[a] if p in kw and mentions(kw[p], a)]
                ok = bool(ps) or a in after
                obs.append((R_COPY, f"{m.path}:{cls.name}.{n}:{a}", ok,
                            f"{m.path}:{node.lineno} in {cls.name}.{n}",
                            f"the copy does not get the present value of self.{a}, which other "
                            "methods of the class change: it starts with the one the constructor "
                            "makes"))


def handed_over(cls, meth, f, params):
    """(the constructor call, what each parameter is given, attributes set on the copy later)"""
    local = {s.targets[0].id: s.value for s in own(f) if isinstance(s, ast.Assign) and
             len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)}
    calls = []
    for c in ast.walk(f):
        if not isinstance(c, ast.Call):
            continue
        g = c.func
        if isinstance(g, (ast.Name, ast.Attribute)) and \
                (g.id if isinstance(g, ast.Name) else g.attr) in ("deepcopy", "copy") and \
                any(isinstance(a, ast.Name) and a.id == "self" for a in c.args):
            return None
        if isinstance(g, ast.Name) and g.id == cls.name or isinstance(g, ast.Attribute) and \
                g.attr == "__class__" or isinstance(g, ast.Call) and \
                isinstance(g.func, ast.Name) and g.func.id == "type":
            calls.append(c)
    if len(calls) != 1:
        return None
    kw = {}
    for p, a in zip(params, calls[0].args):
        if isinstance(a, ast.Starred):
            return None
        kw[p] = a

    def put(d):
        if isinstance(d, ast.Name):
            d = local.get(d.id)
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and \
                isinstance(d.func.value, ast.Name) and d.func.value.id == "self" and \
                d.func.attr in meth:
            rs = [s.value for s in own(meth[d.func.attr]) if isinstance(s, ast.Return)]
            return len(rs) == 1 and put(rs[0])
        if isinstance(d, ast.Dict):
            for k, v in zip(d.keys, d.values):
                if k is None:
                    put(v)
                elif isinstance(k, ast.Constant):
                    kw[k.value] = v
            return True
        # a dictionary made by the constructor holds what the constructor was given
        return isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and \
            d.value.id == "self" and not any(
                isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and
                mentions(x.value, d.attr) or isinstance(x, ast.Call) and
                isinstance(x.func, ast.Attribute) and x.func.attr == "update" and
                mentions(x.func.value, d.attr)
                for g in meth.values() for x in ast.walk(g))

    for k in calls[0].keywords:
        if k.arg is None:
            if not put(k.value):
                return None
    for k in calls[0].keywords:
        if k.arg is not None:
            v = k.value
            kw[k.arg] = local.get(v.id, v) if isinstance(v, ast.Name) else v
    after = set()
    for s in own(f):
        if isinstance(s, ast.Assign) and any(
                isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and
                t.value.id != "self" for t in s.targets):
            for t in s.targets:
                if mentions(s.value, getattr(t, "attr", "")):
                    after.add(t.attr)
    if any(isinstance(s, ast.Name) and s.id in ("setattr", "vars") or
           isinstance(s, ast.Attribute) and s.attr == "__dict__" for s in ast.walk(f)):
        return None
    return calls[0], kw, after


def main(tier):
    c = Check("C28", tier)
    sums = Summaries(c.prog)
    obs = []
    nf = 0
    bymod = {}
    for m, q, fn, cls in functions(c.prog):
        nf += 1
        f = Flow(m, fn, cls, sums)
        for (_, rule), (node, bad) in f.events.items():
            obs.append((R_KEEP if rule == "keep" else R_PUT,
                        f"{m.path}:{q}:{node.lineno}:{node.col_offset}", not bad,
                        f"{m.path}:{node.lineno} in {q}", bad))
        repeated(m, q, fn, obs)
        exchanges(m, q, fn, obs)
        bymod.setdefault(m.path, (m, []))[1].append((q, fn))
    for m, fns in bymod.values():
        fields(m, fns, obs)
        copies(m, obs)
    seen = {}
    for rule, key, ok, where, msg in obs:
        k = (rule, key)
        if k not in seen or not ok:
            seen[k] = (ok, where, msg)
    for (rule, key), (ok, where, msg) in seen.items():
        c.add(rule, key, OK if ok else BAD, where, "" if ok else msg)
    c.stats["functions_read"] = nf
    c.explanation = (
        "A forward alias analysis of every function of the package, with recency for objects made "
        "in loops and summaries of the functions called. At every change in place (item and "
        "augmented assignment of arrays, list, dict and set methods, shuffles, calls of functions "
        "that change a parameter) no other name that is looked at afterwards (backward liveness) "
        "may stand for the same object or, for arrays, for a view of it that is kept beyond the "
        "round of the loop; a function that returns its changed argument may not be used as if it "
        "had made a new object; no object is collected twice with a change in between; rows of "
        "[x] * n are not changed in place; an attribute kept as the best so far is not the object "
        "another statement changes in place; a method that copies its object hands over the "
        "present value of every attribute the constructor takes from a parameter and other methods "
        "change; and of two mirrored assignments the second does not "
        "use what the first has just overwritten.")
    c.assumptions = ["numpy view/copy semantics: basic indices give views, masks and index arrays "
                     "copies", "a name may stand for several objects: such changes are not judged"]
    return c.finish({R_KEEP: 80, R_PUT: 30})
