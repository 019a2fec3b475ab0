"""Backward liveness of local names over the syntax tree of one function.

after(node id) is the set of names whose current value may still be looked at once the statement
is done.  Storing into a name (v[i] = x, v.attr = x, v.sort(), v.append(x)) is not a look at v."""
import ast

MUT = {"append", "extend", "insert", "remove", "sort", "reverse", "add", "discard", "update",
       "fill", "clear", "itemset", "resize", "partition"}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def loads(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def base_name(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def target_uses(t):
    """the names looked at when t is assigned to, apart from the one stored into"""
    if isinstance(t, (ast.Subscript, ast.Attribute)):
        out = set()
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            if isinstance(t, ast.Subscript):
                out |= loads(t.slice)
            t = t.value
        if not isinstance(t, ast.Name):
            out |= loads(t)
        return out
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[target_uses(x) for x in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return target_uses(t.value)
    return set()


def target_defs(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[target_defs(x) for x in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return target_defs(t.value)
    return set()


class Liveness:
    def __init__(self, fn):
        self.after = {}
        self.head = {}          # loop id -> names looked at in a later round or after the loop
        self.always = set()
        body = fn.body if isinstance(fn.body, list) else []
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, FUNCS):
                self.always |= loads(n)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always |= set(n.names)
        self.block(body, set(), [], set())

    def mark(self, s, out):
        self.after[id(s)] = self.after.get(id(s), set()) | out | self.always

    def block(self, ss, out, loops, exc):
        for s in reversed(ss):
            out = self.stmt(s, out, loops, exc)
        return out

    def stmt(self, s, out, loops, exc):
        out = out | exc
        self.mark(s, out)
        if isinstance(s, ast.Return):
            return (loads(s.value) if s.value else set()) | exc
        if isinstance(s, ast.Raise):
            return (loads(s) if s else set()) | exc
        if isinstance(s, ast.Break):
            return set(loops[-1][0]) | exc if loops else out
        if isinstance(s, ast.Continue):
            return set(loops[-1][1]) | exc if loops else out
        if isinstance(s, ast.Assign):
            d = set().union(*[target_defs(t) for t in s.targets])
            u = set().union(*[target_uses(t) for t in s.targets])
            return (out - d) | u | loads(s.value) | exc
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out
            return (out - target_defs(s.target)) | target_uses(s.target) | loads(s.value) | exc
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                return out | {s.target.id} | loads(s.value)
            return out | target_uses(s.target) | loads(s.value)
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                    v.func.attr in MUT and isinstance(v.func.value, ast.Name):
                u = set()
                for a in v.args:
                    u |= loads(a)
                for k in v.keywords:
                    u |= loads(k.value)
                return out | u
            return out | loads(v)
        if isinstance(s, ast.If):
            a = self.block(s.body, out, loops, exc)
            b = self.block(s.orelse, out, loops, exc)
            return a | b | loads(s.test)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            brk = out
            end = self.block(s.orelse, out, loops, exc)
            test = loads(s.test) if isinstance(s, ast.While) else set()
            d = target_defs(s.target) if not isinstance(s, ast.While) else set()
            head = end | test
            while True:
                body = self.block(s.body, head, loops + [(brk, head)], exc)
                new = head | (body - d) | test
                if new == head:
                    break
                head = new
            self.head[id(s)] = head
            return head | (loads(s.iter) if not isinstance(s, ast.While) else set())
        if isinstance(s, (ast.With, ast.AsyncWith)):
            r = self.block(s.body, out, loops, exc)
            for i in s.items:
                if i.optional_vars is not None:
                    r = r - target_defs(i.optional_vars)
                r = r | loads(i.context_expr)
            return r
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out, loops, exc)
            hs = set()
            for h in s.handlers:
                hs |= self.block(h.body, fin, loops, exc)
                if h.type is not None:
                    hs |= loads(h.type)
            els = self.block(s.orelse, fin, loops, exc)
            return self.block(s.body, els, loops, exc | hs | fin)
        if isinstance(s, ast.Delete):
            return out - {t.id for t in s.targets if isinstance(t, ast.Name)}
        if isinstance(s, ast.Match):
            r = set(out)
            for c in s.cases:
                r |= self.block(c.body, out, loops, exc)
                if c.guard is not None:
                    r |= loads(c.guard)
            return r | loads(s.subject)
        if isinstance(s, FUNCS):
            return out - {getattr(s, "name", None)}
        return out | loads(s)


def statement_of(fn, line, col):
    """the innermost simple statement at a source position"""
    best = None
    for n in ast.walk(fn):
        if isinstance(n, ast.stmt) and not isinstance(n, FUNCS) and \
                (n.lineno, n.col_offset) <= (line, col) <= (n.end_lineno, n.end_col_offset):
            if best is None or (n.lineno, n.col_offset) >= (best.lineno, best.col_offset):
                best = n
    return best
