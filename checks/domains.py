"""Shared by C11 and C12: the acceptance condition of a constructor, as the disjunction of the
path conditions of its raise statements, evaluated exactly at any value of one parameter."""
import ast
from sa.terms import Term, T, leaves, is_const, const_value
from sa.values import vany, vtuple
from sa.drive import ClassRun, ctor_params

TRUE, FALSE, MAYBE = True, False, None


class Unknown(Exception):
    pass


TYPES = {"int": int, "float": float, "str": str, "bool": bool, "list": list, "tuple": tuple,
         "dict": dict}


def val(t, env):
    """concrete value of a term under the assignment env, or Unknown"""
    if not isinstance(t, Term):
        return t
    if is_const(t):
        return const_value(t)
    op, a = t.op, t.args
    if op == "param":
        if a[0] in env:
            return env[a[0]]
        raise Unknown
    if op == "item" and len(a) == 2:
        return val(a[0], env)[val(a[1], env)]
    if op == "el":
        return val(a[0], env)[val(a[1], env)]
    if op == "strm":
        s = val(a[1], env)
        if a[0] == "startswith" and isinstance(s, str):
            return s.startswith(val(a[2], env))
        if a[0] == "endswith" and isinstance(s, str):
            return s.endswith(val(a[2], env))
        if a[0] == "split" and isinstance(s, str):
            return s.split(val(a[2], env)) if len(a) > 2 else s.split()
        raise Unknown
    if op == "am" and a[0] in ("startswith", "endswith", "split"):
        return val(T("strm", *a), env)
    if op in ("float", "int"):
        return {"float": float, "int": int}[op](val(a[0], env))
    if op == "str":
        return str(val(a[0], env))
    if op == "s+":
        return "".join(str(val(x, env)) for x in a)
    if op in ("list", "tuple", "setof"):
        if op == "setof":
            return val(a[0], env)
        return [val(x, env) for x in a]
    if op == "lin":
        tot = a[0]
        for atom, co in a[1]:
            tot = tot + co * val(atom, env)
        return tot
    if op == "isnone":
        return val(a[0], env) is None
    if op == "phi" and isinstance(a[0], Term) and a[0].op == "if":
        return val(a[1] if truth(a[0].args[0], env) else a[2], env)
    if op in ("lt", "le", "eq", "in", "not", "and", "or", "isinstance", "ne"):
        return truth(t, env)
    raise Unknown


def truth(t, env):
    op, a = t.op, t.args
    if op == "not":
        return not truth(a[0], env)
    if op == "and":
        unk = False
        for x in a:
            try:
                if not truth(x, env):
                    return False
            except Unknown:
                unk = True
        if unk:
            raise Unknown
        return True
    if op == "or":
        unk = False
        for x in a:
            try:
                if truth(x, env):
                    return True
            except Unknown:
                unk = True
        if unk:
            raise Unknown
        return False
    if op == "lt":
        return val(a[0], env) < val(a[1], env)
    if op == "le":
        return val(a[0], env) <= val(a[1], env)
    if op == "eq":
        return val(a[0], env) == val(a[1], env)
    if op == "ne":
        return val(a[0], env) != val(a[1], env)
    if op == "in":
        return val(a[0], env) in val(a[1], env)
    if op == "isinstance":
        v = val(a[0], env)
        names = []
        for x in leaves(a[1]):
            if x.op == "builtin":
                names.append(x.args[0])
        if not names or any(n not in TYPES for n in names):
            raise Unknown
        return isinstance(v, tuple(TYPES[n] for n in names))
    return bool(val(t, env))


def mentions(t, p=None):
    r = {x.args[0] for x in leaves(t) if x.op == "param"}
    return r if p is None else p in r


PLAIN = {"param", "const", "lin", "lt", "le", "eq", "isnone", "isinstance", "builtin", "not",
         "and", "or", "in", "list", "setof", "tuple"}


def plain(c):
    """a condition over constructor parameters and constants only"""
    return bool(mentions(c)) and all(x.op in PLAIN for x in leaves(c))


class Ctor:
    """acceptance condition of the constructor of one class"""

    def __init__(self, prog, ci):
        self.fi, self.params, _ = ctor_params(ci)
        preset = {}
        self.defaults = {}
        for n, d in self.params:
            if d is not None:
                try:
                    self.defaults[n] = ast.literal_eval(d)
                except (ValueError, SyntaxError):
                    pass
            if n not in ("random_state", "nn_params", "ss_params"):
                preset[n] = vany(T("param", n), frozenset([("param", n)]))
        self.run = ClassRun(prog, ci, preset=preset)
        self.paths = []
        for e in self.run.it.events:
            if e.kind == "raise":
                self.paths.append((e.pc, e))
        # conditions whose other outcome is another rejection
        self.guards = {(pc[-1][0].uid, not pc[-1][1]) for pc, _ in self.paths if pc}

    def relevant(self, p):
        return [(pc, e) for pc, e in self.paths if any(mentions(c, p) for c, _ in pc)]

    def rejects(self, p, v, others=None):
        """(verdict, event): True - every execution with p=v and the other parameters at their
        accepted values raises; False - none does; None - undecided"""
        env = {**self.defaults, **(others or {})}
        env[p] = v
        und = guarded = None
        for pc, e in self.paths:
            if not pc or not mentions(pc[-1][0], p):
                continue
            sat, mine = True, False
            for c, pol in pc:
                m = mentions(c)
                if p not in m:
                    if (c.uid, pol) not in self.guards and sat:
                        sat, und = None, e      # only in some configurations
                        if plain(c):
                            guarded = e
                    continue
                try:
                    r = truth(c, env)
                except Unknown:
                    r = None
                except (TypeError, ValueError, IndexError, KeyError):
                    # the comparison itself raises: the value is not accepted
                    return True, e
                if r is None:
                    und = e
                    sat = None
                elif r != pol:
                    sat = False
                    break
                if c is pc[-1][0]:
                    mine = True
            if sat and mine:
                return True, e
        if guarded is not None and guarded is und:
            return False, guarded
        if und is not None:
            return None, und
        return False, None

    def constants(self, p):
        """numeric and string constants the parameter is compared with"""
        nums, strs = set(), set()
        for pc, _ in self.paths:
            for c, _ in pc:
                if mentions(c, p):
                    for x in leaves(c):
                        if is_const(x):
                            v = const_value(x)
                            if isinstance(v, bool) or v is None:
                                continue
                            if isinstance(v, (int, float)):
                                nums.add(v)
                            elif isinstance(v, str):
                                strs.add(v)
        return nums, strs
