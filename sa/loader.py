"""Parses every module of the package under analysis and resolves names:
imports (relative, absolute, star), classes with their MRO, functions."""
import ast
import os


class ModuleInfo:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.bindings = {}      # name -> ('class', ClassInfo) | ('func', FuncInfo)
        #                                | ('import', modname, attr|None) | ('assign', expr)
        self.star = []          # modules star imported
        self.all = None


class FuncInfo:
    __slots__ = ("node", "module", "cls", "name", "kind", "decorators")

    def __init__(self, node, module, cls):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.kind = "func"
        if cls is not None:
            self.kind = "method"
            if "classmethod" in self.decorators:
                self.kind = "classmethod"
            elif "staticmethod" in self.decorators:
                self.kind = "staticmethod"
            elif "property" in self.decorators:
                self.kind = "property"

    @property
    def qualname(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return f"<fn {self.module.name}:{self.qualname}>"


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.attrs = {}         # class level assignments: name -> expr
        self.bases = []         # ClassInfo or dotted str
        self._mro = None
        self.is_dataclass = any("dataclass" in ast.unparse(d) for d in node.decorator_list)
        self.dc_fields = []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = FuncInfo(s, module, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.dc_fields.append((s.target.id, s.value))
                if s.value is not None:
                    self.attrs[s.target.id] = s.value

    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                if isinstance(b, ClassInfo):
                    seqs.append(list(b.mro()))
                else:
                    seqs.append([b])
            seqs.append(list(self.bases))
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in s if x is not c and x != c] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        m = self.mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return ("method", c.methods[name], c)
                if name in c.attrs:
                    return ("attr", c.attrs[name], c)
        return None

    def ext_bases(self):
        return [c for c in self.mro() if isinstance(c, str)]

    def __repr__(self):
        return f"<class {self.name}>"


class Program:
    def __init__(self, root, package):
        self.root = root
        self.package = package
        self.modules = {}
        self.classes = {}
        self.n_functions = 0
        base = os.path.join(root, package)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, root)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(rel)
                with open(path, encoding="utf-8") as h:
                    tree = ast.parse(h.read(), path)
                self.modules[name] = ModuleInfo(name, os.path.relpath(path, root),
                                                tree, is_pkg)
        for m in self.modules.values():
            self._collect(m)
        for c in self.classes_all():
            for b in c.node.bases:
                c.bases.append(self.resolve_expr_static(c.module, b))

    def classes_all(self):
        for m in self.modules.values():
            for k, v in m.bindings.items():
                if v[0] == "class" and v[1].module is m:
                    yield v[1]

    def _abs(self, m, level, module):
        if level == 0:
            return module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        if module:
            parts += module.split(".")
        return ".".join(parts)

    def _collect(self, m):
        def visit(stmts):
            for s in stmts:
                if isinstance(s, ast.ClassDef):
                    ci = ClassInfo(s, m)
                    m.bindings[s.name] = ("class", ci)
                    self.classes.setdefault(s.name, ci)
                    self.n_functions += len(ci.methods)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.bindings[s.name] = ("func", FuncInfo(s, m, None))
                    self.n_functions += 1
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.bindings[a.asname] = ("import", a.name, None)
                        else:
                            m.bindings[a.name.split(".")[0]] = \
                                ("import", a.name.split(".")[0], None)
                elif isinstance(s, ast.ImportFrom):
                    mod = self._abs(m, s.level, s.module)
                    for a in s.names:
                        if a.name == "*":
                            m.star.append(mod)
                        else:
                            m.bindings[a.asname or a.name] = ("import", mod, a.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.bindings[t.id] = ("assign", s.value)
                            if t.id == "__all__":
                                try:
                                    m.all = list(ast.literal_eval(s.value))
                                except ValueError:
                                    pass
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for e in t.elts:
                                if isinstance(e, ast.Name):
                                    m.bindings[e.id] = ("assign", None)
                elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                    if isinstance(s.target, ast.Name) and s.target.id not in m.bindings:
                        m.bindings[s.target.id] = ("assign", s.value)
                elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for f in ("body", "orelse", "finalbody"):
                        visit(getattr(s, f, []) or [])
                    for h in getattr(s, "handlers", []) or []:
                        visit(h.body)
        visit(m.tree.body)

    # ---------------------------------------------------------- resolution
    def lookup(self, modname, name, seen=None):
        """resolve name in module -> ('class',ci)|('func',fi)|('mod',dotted)
        |('ext',dotted)|('assign',module,expr)|None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen = seen | {(modname, name)}
        m = self.modules.get(modname)
        if m is None:
            return ("ext", modname + "." + name)
        b = m.bindings.get(name)
        if b is not None:
            if b[0] in ("class", "func"):
                return b
            if b[0] == "assign":
                return ("assign", m, b[1])
            _, mod, attr = b
            if attr is None:
                return ("mod", mod)
            if mod in self.modules:
                r = self.lookup(mod, attr, seen)
                if r is not None:
                    return r
                if mod + "." + attr in self.modules:
                    return ("mod", mod + "." + attr)
                return None
            return ("ext", mod + "." + attr)
        for s in m.star:
            sm = self.modules.get(s)
            if sm is None:
                continue
            if sm.all is not None and name not in sm.all and not sm.is_pkg:
                continue
            if sm.all is None and name.startswith("_"):
                continue
            r = self.lookup(s, name, seen)
            if r is not None:
                return r
        if modname + "." + name in self.modules:
            return ("mod", modname + "." + name)
        return None

    def resolve_expr_static(self, m, e):
        if isinstance(e, ast.Name):
            r = self.lookup(m.name, e.id)
            if r is None:
                return e.id
            if r[0] == "class":
                return r[1]
            if r[0] == "ext":
                return r[1]
            return e.id
        if isinstance(e, ast.Attribute):
            d = ast.unparse(e)
            r = self.lookup(m.name, d.split(".")[0])
            if r and r[0] == "mod":
                if r[1] in self.modules:
                    x = self.lookup(r[1], d.split(".", 1)[1])
                    if x and x[0] == "class":
                        return x[1]
                return r[1] + "." + d.split(".", 1)[1]
            return d
        return ast.unparse(e)

    def subclasses(self, base):
        return [c for c in self.classes_all() if base in c.mro() and c is not base]


def class_categories(prog, ci):
    """the values of the category list a class declares (resolved through the
    class-level string constants)"""
    f = ci.find("categories")
    if f is None or f[0] != "attr":
        node = None
        for k in [m for m in ci.mro() if not isinstance(m, str)]:
            for b in k.node.body:
                if isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and
                                                     t.id == "categories" for t in b.targets):
                    node = b.value
                    break
            if node is not None:
                break
    else:
        node = f[1]
    out = set()
    if node is None:
        return out
    for e in ast.walk(node):
        if isinstance(e, ast.Attribute):
            for k in [m for m in ci.mro() if not isinstance(m, str)]:
                hit = None
                for b in k.node.body:
                    if isinstance(b, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id == e.attr for t in b.targets) and \
                            isinstance(b.value, ast.Constant):
                        hit = b.value.value
                if hit is not None:
                    out.add(hit)
                    break
        elif isinstance(e, ast.Constant) and isinstance(e.value, str):
            out.add(e.value)
    return out
