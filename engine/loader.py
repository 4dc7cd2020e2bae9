"""Parse the package from /repo's working tree and resolve names, classes and MROs."""
from __future__ import annotations

import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "pydmd"


class FuncInfo:
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.outer = outer
        self.name = getattr(node, "name", "<lambda>")
        base = outer.qual + "." if outer else (cls.qual + "." if cls else module.name + ":")
        self.qual = base + self.name
        self.kind = "func"
        self.cached = self.memo = False
        self.globals, self.nonlocals = set(), set()
        self.locals = None
        self.is_gen = False
        self._nested = None
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                s = ast.unparse(d)
                if s == "staticmethod":
                    self.kind = "static"
                elif s == "classmethod":
                    self.kind = "class"
                elif s == "property" or s.endswith("cached_property"):
                    self.kind = "property"
                    self.cached = s != "property"
                elif s.split("(")[0].split(".")[-1] in ("lru_cache", "cache"):
                    self.memo = True
                elif s.endswith(".setter"):
                    self.kind = "setter"
                elif s.endswith(".deleter"):
                    self.kind = "deleter"

    @property
    def file(self):
        return self.module.relpath

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], a.vararg, [x.arg for x in a.kwonlyargs], a.kwarg

    def local_names(self):
        if self.locals is None:
            names = set()
            a = self.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                names.add(x.arg)
            for x in (a.vararg, a.kwarg):
                if x:
                    names.add(x.arg)
            glob = set()
            body = self.node.body if isinstance(self.node.body, list) else [self.node.body]
            stack = list(body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    names.add(n.name)
                    continue
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for m in ast.walk(n):
                        if isinstance(m, ast.NamedExpr):
                            names.add(m.target.id)
                        if isinstance(m, ast.Yield):
                            pass
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        names.add((al.asname or al.name).split(".")[0])
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob |= set(n.names)
                    (self.globals if isinstance(n, ast.Global) else self.nonlocals).update(n.names)
                stack.extend(ast.iter_child_nodes(n))
            self.locals = names - glob
        return self.locals

    def has_nested(self):
        if self._nested is None:
            self._nested = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not self.node
                               for n in ast.walk(self.node))
        return self._nested

    def __repr__(self):
        return f"<F {self.qual}>"


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = module.name + ":" + node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.bases = []
        self.mro = None
        self.ext_bases = []
        self.namedtuple = None
        self.subclasses = []
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                fi = FuncInfo(s, module, self)
                if fi.kind == "setter":
                    self.setters[s.name] = fi
                elif fi.kind != "deleter":
                    self.methods[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value

    def find(self, name):
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs:
                return (c, c.attrs[name])
        return None

    def find_setter(self, name):
        for c in self.mro:
            if name in c.setters:
                return c.setters[name]
            if name in c.methods:
                return None
        return None

    def issub(self, name):
        return any(c.name == name for c in self.mro) or name in self.all_ext()

    def all_ext(self):
        r = set()
        for c in self.mro:
            r |= set(c.ext_bases)
        return r

    def __repr__(self):
        return f"<C {self.name}>"


class Module:
    def __init__(self, name, path, relpath, tree, is_pkg):
        self.name, self.path, self.relpath, self.tree = name, path, relpath, tree
        self.is_pkg = is_pkg
        self.names = {}  # name -> ('mod', Module)|('func',F)|('class',C)|('ext',dotted)|('expr',node)|('imp',mod,name)


class Program:
    def __init__(self, root=None, pkg=PKG):
        self.root = root or REPO
        self.modules = {}
        base = os.path.join(self.root, pkg)
        for dp, dns, fns in os.walk(base):
            dns[:] = sorted(d for d in dns if d != "__pycache__")
            for fn in sorted(fns):
                if not fn.endswith(".py"):
                    continue
                p = os.path.join(dp, fn)
                rel = os.path.relpath(p, self.root)
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = False
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                    is_pkg = True
                with open(p, encoding="utf-8") as f:
                    src = f.read()
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(src, p)
                self.modules[name] = Module(name, p, rel, tree, is_pkg)
        self.classes = {}
        self.funcs = {}
        for m in self.modules.values():
            self._scan(m)
        for m in self.modules.values():
            for c in [v[1] for v in m.names.values() if v[0] == "class" and v[1].module is m]:
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    if r and r[0] == "class":
                        c.bases.append(r[1])
                        r[1].subclasses.append(c)
                    else:
                        c.ext_bases.append(ast.unparse(b).split(".")[-1].split("[")[0])
        for c in self.classes.values():
            c.mro = self._mro(c)
            if "NamedTuple" in c.all_ext():
                c.namedtuple = [k for k in c.attrs]

    def _mro(self, c):
        # C3
        def merge(seqs):
            res = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            return res
        return [c] + merge([self._mro(b) for b in c.bases] + [list(c.bases)])

    def _scan(self, m):
        def scan(body):
            for s in body:
                if isinstance(s, ast.FunctionDef):
                    f = FuncInfo(s, m)
                    m.names[s.name] = ("func", f)
                    self.funcs[f.qual] = f
                elif isinstance(s, ast.ClassDef):
                    c = ClassInfo(s, m)
                    m.names[s.name] = ("class", c)
                    self.classes[s.name] = c
                    for f in list(c.methods.values()) + list(c.setters.values()):
                        self.funcs[f.qual] = f
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.names[a.asname] = ("impmod", a.name)
                        else:
                            m.names[a.name.split(".")[0]] = ("impmod", a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    mod = s.module or ""
                    if s.level:
                        parts = m.name.split(".")
                        if not m.is_pkg:
                            parts = parts[:-1]
                        parts = parts[: len(parts) - (s.level - 1)]
                        mod = ".".join(parts + ([mod] if mod else []))
                    for a in s.names:
                        m.names[a.asname or a.name] = ("imp", mod, a.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.names[t.id] = ("expr", s.value)
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        m.names[s.target.id] = ("expr", s.value)
                elif isinstance(s, (ast.If, ast.Try)):
                    scan(s.body)
                    if isinstance(s, ast.If):
                        pass
                    else:
                        for h in s.handlers:
                            pass
        scan(m.tree.body)

    def resolve(self, m, name, seen=()):
        """Resolve a module-level name to ('func',F)|('class',C)|('mod',Module)|('ext',dotted)|('expr',m,node)|None."""
        r = m.names.get(name)
        if r is None:
            sub = self.modules.get(m.name + "." + name)
            return ("mod", sub) if sub else None
        if r[0] in ("func", "class"):
            return r
        if r[0] == "impmod":
            if r[1] in self.modules:
                return ("mod", self.modules[r[1]])
            return ("ext", r[1])
        if r[0] == "imp":
            mod, nm = r[1], r[2]
            if (mod, nm) in seen:
                return None
            if mod in self.modules:
                x = self.resolve(self.modules[mod], nm, seen + ((mod, nm),))
                if x:
                    return x
                sub = self.modules.get(mod + "." + nm)
                return ("mod", sub) if sub else ("ext", mod + "." + nm)
            return ("ext", mod + "." + nm)
        if r[0] == "expr":
            return ("expr", m, r[1])
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b and b[0] == "mod":
                return self.resolve(b[1], e.attr)
            if b and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        if isinstance(e, ast.Subscript):
            return None
        return None
