"""Abstract values, heap objects and states."""
from .terms import T, Term, const, is_const, const_value, lin_add, lin_sub

EMPTY = frozenset()


class AV:
    __slots__ = ("kind", "term", "locs", "data", "nd", "ln")

    def __init__(self, kind, term, locs=EMPTY, data=None, nd=None, ln=None):
        self.kind = kind
        self.term = term
        self.locs = locs
        self.data = data
        self.nd = nd
        self.ln = ln

    def key(self):
        d = self.data
        if self.kind in ("tuple", "union"):
            d = tuple(x.key() for x in d)
        elif self.kind == "iter":
            d = None
        elif self.kind in ("func", "bound", "cls", "super"):
            d = id(d) if not isinstance(d, tuple) else tuple(id(x) for x in d)
        return (self.kind, self.term.uid, self.locs, d, self.nd,
                self.ln.uid if self.ln is not None else None)

    def same(self, o):
        return self is o or self.key() == o.key()

    def replace(self, **kw):
        r = AV(self.kind, self.term, self.locs, self.data, self.nd, self.ln)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    @property
    def is_const(self):
        return self.kind in ("num", "bool", "str", "none") and is_const(self.term)

    @property
    def value(self):
        return const_value(self.term)

    def __repr__(self):
        return f"<{self.kind} {self.term!r}>"


def vconst(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return AV("bool", const(v))
    if isinstance(v, (int, float, complex)):
        return AV("num", const(v))
    if isinstance(v, (str, bytes)):
        return AV("str", const(v))
    return AV("any", T("opaque", repr(v)))


NONE = AV("none", const(None))


def vnum(t):
    return AV("num", t)


def vbool(t):
    return AV("bool", t)


def vany(t, locs=EMPTY):
    return AV("any", t, locs)


def vstr(t):
    return AV("str", t)


def vtuple(items):
    items = tuple(items)
    locs = EMPTY
    for i in items:
        locs |= i.locs
    return AV("tuple", T("tuple", *[i.term for i in items]), locs, items,
              ln=const(len(items)))


def weak(locs):
    return frozenset(l if l[0] == "weak" else ("weak", l) for l in locs)


class HList:
    __slots__ = ("items", "elem", "ln", "ver", "tot")

    def __init__(self, items=None, elem=None, ln=None, ver=None, tot=None):
        self.items = items          # tuple of AV or None
        self.elem = elem            # summary element or None
        self.ln = ln if ln is not None else const(len(items))
        self.ver = ver              # version term for summaries
        self.tot = tot              # total length of the elements, when they are arrays

    def total(self):
        if self.items is None:
            return self.tot
        t = const(0)
        for x in self.items:
            if x.kind != "arr" or x.ln is None:
                return None
            t = lin_add(t, x.ln)
        return t

    def key(self):
        return ("L", self.tot.uid if self.tot is not None else None, None if self.items is None else tuple(i.key() for i in self.items),
                None if self.elem is None else self.elem.key(), self.ln.uid,
                self.ver.uid if self.ver is not None else None)


class HDict:
    __slots__ = ("keys", "rest", "ver")

    def __init__(self, keys=None, rest=(), ver=None):
        self.keys = keys or {}      # const key -> AV
        self.rest = rest            # tuple of AV (unknown spreads, applied first)
        self.ver = ver              # version when updated with unknown keys

    def key(self):
        return ("D", tuple((repr(k), v.key()) for k, v in self.keys.items()),
                tuple(r.key() for r in self.rest),
                self.ver.uid if self.ver is not None else None)

    def exact(self):
        return not self.rest and self.ver is None


class HObj:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs or {}

    def key(self):
        return ("O", self.cls.name, tuple(sorted((k, v.key()) for k, v in self.attrs.items())))


class HExt:
    __slots__ = ("cls", "state", "args", "kwargs")

    def __init__(self, cls, state, args=(), kwargs=None):
        self.cls = cls
        self.state = state
        self.args = args
        self.kwargs = kwargs or {}

    def key(self):
        return ("E", self.cls, self.state.uid)


class State:
    __slots__ = ("frames", "heap", "pc", "written")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = ()
        self.written = frozenset()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.written = self.written
        return s

    def assign_from(self, o):
        self.frames = o.frames
        self.heap = o.heap
        self.pc = o.pc
        self.written = o.written


UNDEF = AV("undef", T("undef"))


def phi_ln(key, lns):
    if any(l is None for l in lns):
        return None
    l0 = lns[0]
    if all(l is l0 for l in lns):
        return l0
    ds = [lin_sub(l, l0) for l in lns]
    return lin_add(l0, T("phi", key, *ds))


def phi_term(key, ts):
    if all(t is ts[0] for t in ts):
        return ts[0]
    return T("phi", key, *ts)
