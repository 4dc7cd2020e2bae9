"""Whole-program abstract interpreter for the analysed package.

Flow-sensitive, context-sensitive (calls into the package are analysed in the calling context), with an
allocation-site heap, value-number terms, branch-gated joins and input-dependence labels.  It never executes
repository code: every construct is interpreted over the abstract domain of vals.py.  Anything not understood
evaluates to "unknown", which no client treats as a violation.
"""
from __future__ import annotations

import ast
import builtins

from .loader import ClassInfo, FuncInfo, Program
from .vals import (FALSE, MISSING, N, NONE, NOTNONE, T, TRUE, U, UNKNOWN, Val, Term, const, consts_of, join, joinall,
                   one_const)

EXC_PARENTS = {
    "UnboundLocalError": "NameError", "KeyError": "LookupError", "IndexError": "LookupError",
    "NotImplementedError": "RuntimeError", "LookupError": "Exception", "NameError": "Exception",
    "RuntimeError": "Exception", "ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception",
    "AssertionError": "Exception", "Exception": "BaseException", "LinAlgError": "ValueError",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "StopIteration": "Exception",
    "OSError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "RecursionError": "RuntimeError", "OverflowError": "ArithmeticError",
}


def exc_matches(name, handler):
    while name:
        if name == handler:
            return True
        name = EXC_PARENTS.get(name)
    return False


MISS = Val({MISSING})


class Obj:
    __slots__ = ("oid", "kind", "cls", "caller", "label", "site", "fn", "afacts", "gen")

    def __init__(self, oid, kind, cls=None, caller=False, label=None, site=None, fn=None):
        self.oid, self.kind, self.cls, self.caller, self.label, self.site, self.fn = (
            oid, kind, cls, caller, label, site, fn)
        self.gen = False        # a generator object
        self.afacts = None      # branch conditions under which it was allocated


class LogDict(dict):
    """dict that records which keys were assigned, as a persistent chain (key, parent, depth).

    Two copies of a common ancestor share a chain suffix, so the keys in which they may differ are found without
    scanning the whole dict."""
    __slots__ = ("log",)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.log = (None, None, 0)

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        lg = self.log
        self.log = (k, lg, lg[2] + 1)

    def drop(self, k):
        if k in self:
            dict.__delitem__(self, k)
            self.log = (k, self.log, self.log[2] + 1)

    def copy(self):
        n = LogDict.__new__(LogDict)
        dict.update(n, self)
        n.log = self.log
        return n


def changed_keys(a, b):
    la, lb = a.log, b.log
    out = set()
    while la is not lb:
        if la[2] >= lb[2]:
            if la[1] is None:
                return a.keys() | b.keys()
            out.add(la[0])
            la = la[1]
        else:
            out.add(lb[0])
            lb = lb[1]
    return out


class State:
    __slots__ = ("frames", "heap", "facts", "pc", "owned")

    def __init__(self):
        self.frames = LogDict()
        self.heap = LogDict()
        self.facts = {}
        self.pc = frozenset()
        self.owned = set()

    def copy(self):
        s = State.__new__(State)
        s.frames = self.frames.copy()
        s.heap = self.heap.copy()  # inner dicts are replaced, never edited
        s.facts = self.facts.copy()
        s.pc = self.pc
        s.owned = set()
        self.owned = set()
        return s

    def wframe(self, fid):
        """The environment of a frame, for writing (copy on write)."""
        if fid in self.owned:
            return self.frames[fid]
        e = dict(self.frames.get(fid, ()))
        self.frames[fid] = e
        self.owned.add(fid)
        return e


def updates(t):
    n = 0
    while t.op == "upd":
        t = t.args[0]
        n += 1
    return n


class Frame:
    __slots__ = ("fid", "fn", "returns", "breaks", "conts", "selfcls", "ctx", "callnode", "yields", "module", "rkey")

    def __init__(self, fid, fn, ctx, module):
        self.fid, self.fn, self.ctx = fid, fn, ctx
        self.returns, self.breaks, self.conts, self.yields = [], [], [], []
        self.selfcls = None
        self.module = module
        self.rkey = None


class Stop(Exception):
    """The current path ends (raise in expression position)."""


def fact(facts, t):
    """Known outcome of a condition term, or None."""
    k = facts.get(t)
    if k is not None:
        return k
    if t.op == "Eq" and facts and len(t.args) == 2:
        x, c = t.args
        if getattr(c, "op", None) != "c":
            x, c = c, x
        if getattr(c, "op", None) == "c" and isinstance(c.args[0], str):
            e = facts.get(T("eqv", x))
            if e is not None and isinstance(e.args[0], str):
                return e is c
    return None


class Event:
    __slots__ = ("kind", "file", "line", "fn", "step", "data", "pc", "facts", "stack")

    def __init__(self, kind, file, line, fn, step, data, pc, facts, stack):
        self.kind, self.file, self.line, self.fn, self.step = kind, file, line, fn, step
        self.data, self.pc, self.facts, self.stack = data, pc, facts, stack

    def where(self):
        return f"{self.file}:{self.line} in {self.fn}"

    def __repr__(self):
        return f"<{self.kind} {self.where()} {self.data}>"


from . import models as M  # noqa: E402  (uses the names above)


class Interp:
    MAXSTACK = 40

    def __init__(self, prog: Program):
        self.prog = prog
        self.objs = {}
        self.events = []
        self.versioned = False
        self.distinct = False      # exact iterations allocate distinct objects
        self.fixdepth = 0
        self.truths = {}
        self.order = None          # orders the elements of a list that is sorted: function of value numbers, None if unknown
        self.sizes = None          # a Layout that gives some arrays a fixed size: loops over them are unrolled
        self.assume = {}          # (oid, attribute) -> value: results taken as given by modular checks
        self.step = "init"
        self.stack = []
        self.sinks = []
        self.ctxtab = {}
        self.nfid = 0
        self.multi = set()
        self.modvals = {}
        self.loopdepth = 0
        self.ext_raise = False
        self.calls = set()
        self.functions_seen = set()
        self.unknown_ops = 0
        self.ncalls = 0
        self.budget = 400000
        self.node_count = 0
        self.quiet = 0
        self.recorders = []

    # ------------------------------------------------------------------ utilities
    def cur(self):
        return self.stack[-1] if self.stack else None

    def loc(self, node):
        f = self.cur()
        file = f.module.relpath if f else "?"
        return file, getattr(node, "lineno", 0), (f.fn.qual if f and f.fn else "<module>")

    def event(self, kind, node, st, **data):
        if self.quiet:
            return
        file, line, fn = self.loc(node)
        self.events.append(Event(kind, file, line, fn, self.step, data, st.pc, st.facts,
                                 tuple(fr.fn.qual if fr.fn else "<module>" for fr in self.stack)))

    def ctxid(self, parent, key):
        k = (parent, key)
        r = self.ctxtab.get(k)
        if r is None:
            r = self.ctxtab[k] = len(self.ctxtab) + 1
        return r

    def alloc(self, st, kind, node, cls=None, extra="", caller=False, label=None, fields=None):
        f = self.cur()
        ctx = f.ctx if f else 0
        file, line, fn = self.loc(node)
        oid = f"{kind}{':' + cls.name if cls else ''}{extra}@{file}:{line}:{getattr(node, 'col_offset', 0)}#{ctx}#{self.step}"
        if self.distinct and not self.fixdepth and kind != "arr" and oid in st.heap:
            n = 1
            while f"{oid}'{n}" in st.heap:
                n += 1
            oid = f"{oid}'{n}"
        if oid not in self.objs:
            self.objs[oid] = Obj(oid, kind, cls, caller, label, (file, line), fn)
        ob = self.objs[oid]
        if ob.afacts is None:
            ob.afacts = dict(st.facts)
        elif ob.afacts:
            ob.afacts = {k: v for k, v in ob.afacts.items() if st.facts.get(k) is v}
        if oid in st.heap:
            self.multi.add(oid)
            old = dict(st.heap[oid])
            if fields:
                for k, v in fields.items():
                    old[k] = join(old[k], v) if k in old else v
            if kind != "arr":
                st.heap[oid] = old
        else:
            st.heap[oid] = dict(fields or {})
        return oid

    def exclusive(self, recv):
        """Do the objects of a value never coexist (allocated under contradictory branch conditions)?"""
        oids = [a[1] for a in recv.atoms if a[0] == "o"]
        if len(oids) != len(recv.atoms) or len(oids) > 6:
            return False
        for i, x in enumerate(oids):
            fx = self.objs[x].afacts
            if not fx:
                return False
            for y in oids[i + 1:]:
                fy = self.objs[y].afacts
                if not fy or not any(k in fy and fy[k] is not v for k, v in fx.items()):
                    return False
        return True

    def caller_obj(self, st, name, kind="any", cls=None):
        oid = f"caller:{name}"
        self.objs[oid] = Obj(oid, kind, cls, True, name)
        st.heap[oid] = {}
        return oid

    def get_field(self, st, oid, key):
        v = st.heap.get(oid, {}).get(key)
        return self.resolve_gate(st, v) if v is not None else None

    def set_field(self, st, oid, key, v, weak=False):
        h = dict(st.heap.get(oid, {}))
        if (weak or oid in self.multi) and key in h:
            v = join(h[key], v)
        h[key] = v
        st.heap[oid] = h
        if "#dictof" in h and key.startswith("k:") and h["#dictof"].term is not None:      # a write through obj.__dict__
            self.set_field(st, h["#dictof"].term.args[0], ast.literal_eval(key[2:]), v, weak)

    def resolve_gate(self, st, v):
        n = 0
        while v is not None and v.gate is not None and n < 20:
            k = fact(st.facts, v.gate[0])
            if k is None:
                break
            v = v.gate[1] if k else v.gate[2]
            n += 1
        if v is not None and v.gate is not None and n < 20:
            # partially resolvable nested gates
            g = v.gate
            a = self.resolve_gate(st, g[1]) if g[1].gate is not None else g[1]
            b = self.resolve_gate(st, g[2]) if g[2].gate is not None else g[2]
            if a is not g[1] or b is not g[2]:
                return join(a, b, g[0])
        return v

    # ------------------------------------------------------------------ states
    def join_states(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        r = states[0]
        for s in states[1:]:
            r = self.join2(r, s)
        return r

    def join_left(self, end, left, base):
        """join the end of a loop body with the states that left it early; what differs depends on the conditions under which they did"""
        r = end
        for s in left:
            r = s if r is None else self.join2(r, s, s.pc - base)
        return r

    def join2(self, a, b, extra=frozenset()):
        if a is b:
            return a
        key = None
        flip = False
        if len(a.facts) <= len(b.facts):
            it, other = a.facts, b.facts
        else:
            it, other = b.facts, a.facts
        for k, v in it.items():
            if k in other and other[k] != v and k.op != "eqv" and (key is None or k.size < key.size):
                key = k
        if key is not None:
            flip = not a.facts[key]
        deps = extra
        r = State.__new__(State)
        r.owned = set()
        a.owned = set()
        b.owned = set()
        r.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v and k in b.facts}
        r.pc = a.pc | b.pc
        r.frames = a.frames.copy()
        r.heap = a.heap.copy()

        def jn(x, y):
            if x is y:
                return x
            if x == y:      # equal as abstract values; equal as values only if known exactly
                if deps and x.term is None and any(q[0] not in ("c", "f", "k") for q in x.atoms) and not deps <= x.deps:
                    return x.add_deps(deps)
                return x
            if x.gate is not None and a.facts:
                x = self.resolve_gate(a, x)
            if y.gate is not None and b.facts:
                y = self.resolve_gate(b, y)
            v = (join(y, x, key) if flip else join(x, y, key)) if key is not None else join(x, y)
            if deps and not (x.term is y.term and x.term is not None):
                return v.add_deps(deps)
            return v

        for fid in changed_keys(a.frames, b.frames):
            ea, eb = a.frames.get(fid), b.frames.get(fid)
            if ea is None and eb is None:
                continue
            if ea is None or eb is None:
                r.frames[fid] = ea if ea is not None else eb
                continue
            if ea is eb:
                continue
            e = {}
            for k in ea.keys() | eb.keys():
                x, y = ea.get(k, MISS), eb.get(k, MISS)
                e[k] = x if x is y else jn(x, y)
            r.frames[fid] = e
        for oid in changed_keys(a.heap, b.heap):
            ha, hb = a.heap.get(oid), b.heap.get(oid)
            if ha is hb:
                continue
            if ha is None or hb is None:
                if ha is None:
                    r.heap[oid] = hb
                continue
            h = {}
            inst = self.objs[oid].kind in ("inst", "dict")
            same = len(ha) == len(hb)
            for k in ha.keys() | hb.keys():
                x, y = ha.get(k), hb.get(k)
                if x is y:
                    h[k] = x
                    continue
                same = False
                if x is None or y is None:
                    if inst and not k.startswith("#") and k != "[]":
                        h[k] = jn(x if x is not None else MISS, y if y is not None else MISS)
                    else:
                        h[k] = x if x is not None else y
                else:
                    h[k] = jn(x, y)
            if not same:
                r.heap[oid] = h
        return r

    def join2dep(self, a, b, deps):
        return self.join2(a, b, deps)

    def state_eq(self, a, b):
        if a is None or b is None:
            return a is b
        for k in changed_keys(a.frames, b.frames):
            if a.frames.get(k) != b.frames.get(k):
                return False
        for k in changed_keys(a.heap, b.heap):
            if a.heap.get(k) != b.heap.get(k):
                return False
        return True

    # ------------------------------------------------------------------ truth
    def truth(self, v, st=None):
        if st is not None and v.term is not None:
            t, neg = strip_not(v.term)
            k = fact(st.facts, t)
            if k is None and self.truths:
                k = self.truths(t) if callable(self.truths) else self.truths.get(t)
            if k is not None:
                return k != neg
        r = None
        first = True
        for a in v.atoms:
            if a[0] == "c":
                b = bool(a[2])
            elif a[0] in ("f", "b", "k", "x", "xm", "super", "sl"):
                b = True
            elif a[0] in ("t", "tn"):
                b = len(a[-1]) > 0
            elif a[0] == "o":
                o = self.objs[a[1]]
                if o.kind == "inst" and o.cls and not o.cls.find("__len__") and not o.cls.find("__bool__") \
                        and "dict" not in o.cls.all_ext():
                    b = True
                elif o.kind in ("list", "set") and st is not None and a[1] not in self.multi and \
                        "#len" in st.heap.get(a[1], {}) and one_const(st.heap[a[1]]["#len"])[0]:
                    b = one_const(st.heap[a[1]]["#len"])[1] > 0
                else:
                    return None
            elif a[0] == "missing":
                continue
            else:
                return None
            if first:
                r = b
                first = False
            elif r != b:
                return None
        return r

    # ------------------------------------------------------------------ raise handling
    def do_raise(self, st, exc, node, explicit=True, msg=None):
        if self.sinks:
            self.sinks[-1].append((exc, st.copy(), node, explicit, self.loc(node),
                                   tuple(fr.fn.qual if fr.fn else "<module>" for fr in self.stack)))

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, st):
        for s in body:
            if st is None:
                return None
            try:
                st = self.exec_stmt(s, st)
            except Stop:
                return None
            except RecursionError:
                raise
        return st

    def exec_stmt(self, s, st):
        self.node_count += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown_ops += 1
            return st
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    s_Global = s_Nonlocal = s_Pass

    def s_Delete(self, s, st):
        from .models import dict_method
        for t in s.targets:
            if isinstance(t, ast.Name):
                f = st.wframe(self.cur().fid)
                if t.id in f:
                    f[t.id] = Val({MISSING})
            elif isinstance(t, ast.Attribute):
                r, st = self.ev(t.value, st)
                for o in r.oids():
                    h = dict(st.heap.get(o, {}))
                    old = h.get(t.attr)
                    self.event("attr-write", t, st, name=t.attr, obj=o, val=Val({MISSING}), old=old)
                    if t.attr in h:
                        if len(r.atoms) == 1 and o not in self.multi:
                            h[t.attr] = Val({MISSING})
                        else:
                            h[t.attr] = join(old, Val({MISSING}))
                        st.heap[o] = h
            elif isinstance(t, ast.Subscript):
                r, st = self.ev(t.value, st)
                i, st = self.ev(t.slice, st)
                for o in r.oids():
                    if self.objs[o].kind == "dict":
                        _, st = dict_method(self, o, r, "__delitem__", [i], {}, t, st, frozenset())
                    else:
                        self.mutate(st, [o], t, how="del")
        return st

    def s_Import(self, s, st):
        env = st.wframe(self.cur().fid)
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            env[nm] = Val({("x", full)}) if full not in self.prog.modules else Val({("x", full)})
        return st

    def s_ImportFrom(self, s, st):
        env = st.wframe(self.cur().fid)
        mod = s.module or ""
        if s.level:
            parts = self.cur().module.name.split(".")
            if not self.cur().module.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        for a in s.names:
            if mod in self.prog.modules:
                r = self.prog.resolve(self.prog.modules[mod], a.name)
                env[a.asname or a.name] = self.from_res(r, st)
            else:
                env[a.asname or a.name] = Val({("x", mod + "." + a.name)})
        return st

    def s_FunctionDef(self, s, st):
        fr = self.cur()
        fi = self.nested_fn(s, fr)
        v, st = self.with_defaults(s, Val({("f", fi, fr.fid)}), st)
        st.wframe(fr.fid)[s.name] = v
        return st

    def with_defaults(self, node, fv, st):
        """default values of a nested function are computed where it is defined"""
        a = node.args
        pos = a.posonlyargs + a.args
        ds = [(x.arg, d) for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults)]
        ds += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        if all(isinstance(d, ast.Constant) for _, d in ds):
            return fv, st
        a, = fv.atoms
        out = []
        for n, d in ds:
            v, st = self.ev(d, st)
            out.append((n, v.with_(term=None) if self.fixdepth and not self.versioned else v))
        return Val({(*a, tuple(out))}), st

    _nested = {}

    def nested_fn(self, node, fr):
        k = id(node)
        fi = self._nested.get(k)
        if fi is None or fi.node is not node:
            fi = FuncInfo(node, fr.module, None, fr.fn)
            fi.kind = "func"
            self._nested[k] = fi
        return fi

    def s_ClassDef(self, s, st):
        self.unknown_ops += 1
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v, st = self.ev(s.value, st)
            return st
        _, st = self.ev(s.value, st)
        return st

    def s_Return(self, s, st):
        v = NONE
        if s.value is not None:
            v, st = self.ev(s.value, st)
        self.cur().returns.append((v.add_deps(st.pc), st))
        return None

    def s_Raise(self, s, st):
        exc = "Exception"
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    try:
                        _, st = self.ev(a, st)
                    except Stop:
                        return None
                exc = ast.unparse(e.func).split(".")[-1]
            else:
                exc = ast.unparse(e).split(".")[-1]
                v = st.frames[self.cur().fid].get(exc)
                if v is not None:
                    for a in v.atoms:
                        if a[0] == "x":
                            exc = a[1].split(".")[-1]
        self.event("raise", s, st, exc=exc)
        self.do_raise(st, exc, s)
        return None

    def s_Assert(self, s, st):
        v, st = self.ev(s.test, st)
        t = self.truth(v, st)
        if t is False:
            self.do_raise(st, "AssertionError", s)
            return None
        if t is None:
            self.do_raise(st, "AssertionError", s)
            st = self.refine(s.test, v, True, st) or st
        return st

    def s_Assign(self, s, st):
        v, st = self.ev(s.value, st)
        for t in s.targets:
            st = self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return st
        v, st = self.ev(s.value, st)
        return self.assign(s.target, v, st)

    def s_AugAssign(self, s, st):
        tgt = s.target
        load = ast_load(tgt)
        old, st = self.ev(load, st)
        v, st = self.ev(s.value, st)
        res = self.binop(type(s.op).__name__, old, v, s, st)
        # in-place effect on mutable buffers
        muts = [o for o in old.oids() if self.objs[o].kind in ("arr", "any", "list", "set", "ext")]
        if muts and not isinstance(tgt, ast.Subscript):
            keep = self.may_inplace(old, v)
            if keep:
                if old.ck == "R" and v.ck == "C" or old.ck == "I" and (v.ck in ("C", "F") or isinstance(s.op, ast.Div)):
                    self.event("narrow", s, st, how="in-place operation on an array of narrower type", val=v, to=old.ck)
                self.mutate(st, [o for o in muts], s, how=type(s.op).__name__ + "=", value=v)
                # the name keeps pointing to the same buffer, unless the old value was an immutable scalar
                ats = frozenset(a for a in old.atoms if a[0] == "o")
                imm = any(a[0] in ("u", "n", "c", "t") for a in old.atoms)
                res = Val(ats | (res.atoms if imm else frozenset()), res.deps, res.term, None, res.ck)
        return self.assign(tgt, res, st, aug=True)

    def may_inplace(self, old, v):
        return True

    def assign(self, t, v, st, aug=False):
        if isinstance(t, ast.Name):
            fr = self.cur()
            if fr.fn is not None and t.id in fr.fn.globals:
                oid = self.globals_of(fr.module, st)
                self.event("global-write", t, st, name=t.id, module=fr.module.name, val=v)
                self.set_field(st, oid, t.id, v)
                return st
            fid = self.scope_of(t.id, st, fr)
            st.wframe(fid)[t.id] = v
            return st
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            vals = self.unpack(v, n, st, t, star)
            for e, x in zip(t.elts, vals):
                st = self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
            return st
        if isinstance(t, ast.Attribute):
            recv, st = self.ev(t.value, st)
            return self.store_attr(recv, t.attr, v, t, st)
        if isinstance(t, ast.Subscript):
            recv, st = self.ev(t.value, st)
            idx, st = self.ev_index(t.slice, st)
            return self.store_sub(recv, idx, v, t, st, aug)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        return st

    def scope_of(self, name, st, fr):
        """Frame that an assignment to name in fr writes to (comprehension frames pass through)."""
        if fr.fn is not None and name in fr.fn.nonlocals:
            p = self.parents.get(fr.fid)
            while p is not None:
                if p in st.frames and name in st.frames[p]:
                    return p
                p = self.parents.get(p)
        return fr.fid

    def unpack(self, v, n, st, node, star=None):
        outs = None
        for a in v.atoms:
            if a[0] in ("t", "tn"):
                if star is None and len(a[-1]) == n:
                    vals = list(a[-1])
                elif star is not None and len(a[-1]) >= n - 1:
                    k = len(a[-1]) - (n - 1)
                    mid = a[-1][star:star + k]
                    lo = self.alloc(st, "list", node, extra="star", fields={"[]": joinall(mid) or NOTNONE})
                    vals = list(a[-1][:star]) + [Val({("o", lo)})] + list(a[-1][star + k:])
                else:
                    vals = [UNKNOWN.add_deps(v.deps)] * n
            elif star is None and a[0] == "o" and len(self.seq_elems(Val({a}), st) or ()) == n:
                vals = self.seq_elems(Val({a}), st)
            else:
                e = self.element(Val({a}, v.deps, v.term, None, v.ck), st, node)
                vals = []
                for i in range(n):
                    t = T("get", v.term, i) if v.term is not None else None
                    vals.append(e.with_(term=t))
            vals = [x.add_deps(v.deps) if a[0] not in ("t", "tn") else x for x in vals]
            outs = vals if outs is None else [join(p, q) for p, q in zip(outs, vals)]
        if outs is None:
            outs = [UNKNOWN.add_deps(v.deps)] * n
        return outs

    def s_If(self, s, st):
        v, st = self.ev(s.test, st)
        t = self.truth(v, st)
        if t is True:
            self.event("branch", s, st, taken=True, val=v)
            return self.exec_block(s.body, st)
        if t is False:
            self.event("branch", s, st, taken=False, val=v)
            return self.exec_block(s.orelse, st)
        self.event("branch", s, st, taken=None, val=v)
        return self.two_way(s.test, v, st, lambda x: self.exec_block(s.body, x),
                            lambda x: self.exec_block(s.orelse, x), s)

    def two_way(self, test, v, st, ft, ff, node=None):
        pc0 = st.pc
        a = self.refine(test, v, True, st.copy())
        b = self.refine(test, v, False, st.copy())
        fr = self.cur()
        nret = len(fr.returns) + len(fr.breaks) + len(fr.conts) if fr else 0
        if a is not None:
            a.pc = pc0 | v.deps
            a = ft(a)
        if b is not None:
            b.pc = pc0 | v.deps
            b = ff(b)
        if a is None and b is None:
            return None
        r = self.join2dep(a, b, v.deps) if (a is not None and b is not None) else (a if a is not None else b)
        if a is not None and b is not None:
            r.pc = pc0
        else:
            # one side left: what follows is control dependent if it left by return, break or continue
            if fr and len(fr.returns) + len(fr.breaks) + len(fr.conts) > nret:
                r.pc = pc0 | v.deps
            else:
                r.pc = pc0
        return r

    # ---- refinement of a state by the outcome of a test
    def refine(self, test, v, outcome, st):
        if st is None:
            return None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            w = self.peek(test.operand, st)
            st = self.refine(test.operand, w, not outcome, st)
            return st
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            if conj == outcome:
                for e in test.values:
                    w = self.peek(e, st)
                    if w is not None and self.truth(w, st) is (not outcome):
                        return None
                    st = self.refine(e, w, outcome, st)
                    if st is None:
                        return None
                return st
            # some operand has the opposite outcome; if only one is undecided it is that one
            und = []
            for e in test.values:
                w = self.peek(e, st)
                tv = self.truth(w, st) if w is not None else None
                if tv is None:
                    und.append((e, w))
                elif tv == outcome:
                    und = None
                    break
            if und is not None and len(und) == 1:
                st = self.refine(und[0][0], und[0][1], outcome, st)
            if st is not None and v is not None and v.term is not None:
                t, neg = strip_not(v.term)
                st.facts[t] = outcome != neg
            return st
        if isinstance(test, ast.NamedExpr):
            return self.refine(test.value, v, outcome, st)
        if v is not None and v.term is not None:
            t, neg = strip_not(v.term)
            val = outcome != neg
            k = fact(st.facts, t)
            if k is not None and k != val:
                return None
            st.facts[t] = val
            if val and t.op == "Eq":
                x, c = t.args
                if c.op != "c":
                    x, c = c, x
                if c.op == "c" and x.op != "c":
                    st.facts[T("eqv", x)] = c
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, rhs = test.ops[0], test.comparators[0]
            if isinstance(rhs, ast.Constant) and rhs.value is None and isinstance(op, (ast.Is, ast.IsNot)):
                isnone = outcome == isinstance(op, ast.Is)
                return self.narrow(test.left, st, lambda w: self.keep_none(w, isnone))
            if isinstance(op, (ast.Eq, ast.NotEq)):
                w = self.peek(rhs, st)
                if w is not None:
                    ok, c = one_const(w)
                    if ok:
                        eq = outcome == isinstance(op, ast.Eq)
                        lw = self.peek(test.left, st)
                        if not eq and lw is not None and lw.term is not None and consts_of(lw) is not None:
                            rest = self.keep_const(lw, c, False)      # one of finitely many: the others are left
                            one = one_const(rest) if rest is not None else (False, None)
                            if one[0] and isinstance(one[1], str) and lw.term.op != "c":
                                st.facts[T("eqv", lw.term)] = T("c", one[1])
                        return self.narrow(test.left, st, lambda x: self.keep_const(x, c, eq))
            if isinstance(op, (ast.In, ast.NotIn)):
                w = self.peek(rhs, st)
                kv = self.peek(test.left, st)
                if w is not None and kv is not None and one_const(kv)[0] and w.atoms and all(
                        a[0] == "o" and self.objs[a[1]].kind == "dict" for a in w.atoms):
                    kk = f"k:{one_const(kv)[1]!r}"
                    isin = outcome == isinstance(op, ast.In)
                    keep = set()
                    for a in w.atoms:
                        h = st.heap.get(a[1], {})
                        f = h.get(kk)
                        sure = f is not None and MISSING not in f.atoms
                        never = f is None and "#open" not in h and "[]" not in h
                        if (isin and not never) or (not isin and not sure):
                            keep.add(a)
                    if not keep:
                        return None
                    if keep != set(w.atoms):
                        st = self.narrow(rhs, st, lambda x: Val(frozenset(keep), x.deps, x.term, None, x.ck))
                        if st is None:
                            return None
                    return self.imply(st, keep)
                if w is not None and len(w.atoms) == 1:
                    a = next(iter(w.atoms))
                    if a[0] == "t":
                        cs = [one_const(e) for e in a[1]]
                        if all(c[0] for c in cs):
                            vals = [c[1] for c in cs]
                            isin = outcome == isinstance(op, ast.In)
                            return self.narrow(test.left, st, lambda x: self.keep_consts(x, vals, isin))
            return st
        if isinstance(test, (ast.Name, ast.Attribute)):
            return self.narrow(test, st, lambda w: self.keep_truth(w, outcome))
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            names = M.type_names(test.args[1])
            return self.narrow(test.args[0], st, lambda w: self.keep_inst(w, names, outcome))
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "hasattr" and len(test.args) == 2 \
                and isinstance(test.args[1], ast.Constant):
            w = self.peek(test.args[0], st)
            if w is not None and len(w.atoms) == 1:
                a = next(iter(w.atoms))
                if a[0] == "o" and self.objs[a[1]].kind == "inst":
                    f = st.heap.get(a[1], {}).get(test.args[1].value)
                    if f is not None and MISSING in f.atoms:
                        if outcome:
                            self.set_field(st, a[1], test.args[1].value, f.with_(atoms=f.atoms - {MISSING}, gate=None))
                        else:
                            h = dict(st.heap[a[1]])
                            del h[test.args[1].value]
                            st.heap[a[1]] = h
        return st

    def imply(self, st, atoms):
        """Branch conditions common to the allocation of every object a value can still be."""
        common = None
        for a in atoms:
            af = self.objs[a[1]].afacts or {}
            common = dict(af) if common is None else {k: v for k, v in common.items() if af.get(k) is v}
        for k, v in (common or {}).items():
            if st.facts.get(k, v) != v:
                return None
            st.facts[k] = v
        return st

    def keep_none(self, w, isnone):
        nn = ("c", "NoneType", None)
        if isnone:
            if nn in w.atoms or U in w.atoms:
                return Val({nn}, w.deps, NONE.term)
            return None if all(a[0] != "missing" for a in w.atoms) and w.atoms else w
        atoms = set(w.atoms) - {nn}
        if U in atoms:
            atoms.discard(U)
            atoms.add(N)
        if not atoms:
            return None
        if atoms == set(w.atoms):
            return w
        g = None
        return Val(frozenset(atoms), w.deps, w.term, g, w.ck)

    def keep_truth(self, w, outcome):
        atoms = set()
        for a in w.atoms:
            t = self.truth(Val({a}))
            if t is None or t == outcome:
                if a == U and outcome:
                    atoms.add(N)
                else:
                    atoms.add(a)
        if not atoms:
            return None
        if atoms == set(w.atoms):
            return w
        return Val(frozenset(atoms), w.deps, w.term, None, w.ck)

    def keep_const(self, w, c, eq):
        atoms = set()
        for a in w.atoms:
            if a[0] == "c":
                try:
                    same = a[2] == c
                except Exception:
                    same = False
                if bool(same) == eq:
                    atoms.add(a)
            elif eq and a in (U, N):
                atoms.add(("c", type(c).__name__, c))
                if a == U and isinstance(c, (int, float, bool)):
                    atoms.add(a)
            else:
                atoms.add(a)
        if not atoms:
            return None
        if atoms == set(w.atoms):
            return w
        return Val(frozenset(atoms), w.deps, w.term, None, w.ck)

    def keep_consts(self, w, vals, isin):
        atoms = set()
        for a in w.atoms:
            if a[0] == "c":
                if any(type(a[2]) is type(x) and a[2] == x for x in vals) == isin:
                    atoms.add(a)
            elif a == U and isin and all(isinstance(x, str) for x in vals):
                atoms |= set().union(*(const(x).atoms for x in vals))
            else:
                atoms.add(a)
        if not atoms:
            return None
        if atoms == set(w.atoms):
            return w
        return Val(frozenset(atoms), w.deps, w.term, None, w.ck)

    def keep_inst(self, w, names, outcome):
        if names is None:
            return w
        atoms = set()
        for a in w.atoms:
            r = M.atom_isinstance(self, a, names)
            if r is None or r == outcome:
                if a == U and outcome and "NoneType" not in names:
                    atoms.add(N)
                else:
                    atoms.add(a)
        if not atoms:
            return None
        if atoms == set(w.atoms):
            return w
        return Val(frozenset(atoms), w.deps, w.term, None, w.ck)

    def narrow(self, e, st, fn):
        """Narrow the variable or attribute denoted by e."""
        if isinstance(e, ast.Name):
            fid = self.lookup_frame(e.id, st)
            if fid is None:
                return st
            w = self.resolve_gate(st, st.frames[fid][e.id])
            r = fn(w)
            if r is None:
                return None
            if r is not w:
                st.wframe(fid)[e.id] = r
            return st
        if isinstance(e, ast.Attribute):
            base = self.peek(e.value, st)
            if base is not None and len(base.atoms) == 1:
                a = next(iter(base.atoms))
                if a[0] == "o" and a[1] not in self.multi and self.objs[a[1]].kind == "inst":
                    cls = self.objs[a[1]].cls
                    key = e.attr
                    for _ in range(3):
                        g = simple_getter(cls.find(key)) if cls is not None else None
                        if g is None:
                            break
                        key = g
                    if cls is not None and not isinstance(cls.find(key), (FuncInfo,)):
                        w = self.get_field(st, a[1], key)
                        if w is not None:
                            r = fn(w)
                            if r is None:
                                return None
                            if r is not w:
                                self.set_field(st, a[1], key, r)
        return st

    def peek(self, e, st):
        """Evaluate e for its value only (no events, no effects)."""
        n = len(self.events)
        self.quiet += 1
        self.sinks.append([])
        fr = self.cur()
        nr = len(fr.returns) if fr else 0
        try:
            v, _ = self.ev(e, st.copy())
            return v
        except Stop:
            return None
        finally:
            self.sinks.pop()
            self.quiet -= 1
            del self.events[n:]
            if fr:
                del fr.returns[nr:]

    def lookup_frame(self, name, st):
        fr = self.cur()
        fid = fr.fid
        while fid is not None:
            env = st.frames.get(fid)
            if env is not None and name in env:
                return fid
            fid = self.parents.get(fid)
        return None

    parents = {}

    # ---- loops
    def taint_changed(self, old, new, deps):
        """what a loop changed also depends on what decides how often it runs"""
        if not deps:
            return
        for kind in ("frames", "heap"):
            A, B = getattr(old, kind), getattr(new, kind)
            for k in changed_keys(A, B):
                x, y = A.get(k), B.get(k)
                if y is None or x is y:
                    continue
                h = None
                for f, v in y.items():
                    if isinstance(v, Val) and not deps <= v.deps and (x is None or x.get(f) is not v and x.get(f) != v):
                        h = h if h is not None else dict(y)
                        h[f] = v.add_deps(deps)
                if h is not None:
                    B[k] = h
        new.owned = set()

    def loop(self, st, enter, body, orelse, at_least_once, st0=None):
        """enter(st) -> list of states entering the body ; generic fixpoint."""
        self.loopdeps = frozenset()
        r = self.loop_(st, enter, body, at_least_once)
        if r is not None:
            r.pc = st.pc
            if orelse:
                r = self.exec_block(orelse, r)
        return r

    def loop_(self, st, enter, body, at_least_once):
        start = st.copy()
        ldeps = frozenset()
        fr = self.cur()
        sb, sc = fr.breaks, fr.conts
        fr.breaks, fr.conts = [], []
        self.loopdepth += 1
        self.fixdepth += 1
        head = st
        out = None
        exits = []
        try:
            cur = head
            for it in range(4):
                ent, ex = enter(cur.copy())
                ldeps = ldeps | self.loopdeps
                if ex is not None:
                    exits.append((it, ex))
                if ent is None:
                    break
                nbr = len(fr.breaks)
                res = self.exec_block(body, ent)
                res = self.join_left(res, fr.conts, st.pc)
                fr.conts = []
                if res is None:
                    break
                res.pc = st.pc
                nxt = res if (at_least_once and it == 0) else self.join2(cur, res)
                nxt.pc = st.pc
                if out is None:
                    out = res
                else:
                    out = self.join2(out, res)
                if self.state_eq(nxt, cur):
                    break
                cur = nxt
            brs = fr.breaks
        finally:
            fr.breaks, fr.conts = sb, sc
            self.loopdepth -= 1
            self.fixdepth -= 1
        finals = list(brs)
        for x in brs:
            ldeps = ldeps | (x.pc - st.pc)
        if exits:
            # leaving through the test: the last joined head
            if at_least_once and len(exits) > 1:
                finals.append(exits[-1][1])
            else:
                finals.append(exits[-1][1])
            if not at_least_once and len(exits) > 1:
                finals.append(exits[0][1])
        elif out is not None:
            finals.append(out)
        if not finals:
            return None
        r = self.join_states(finals)
        if r is not None and ldeps:
            r = r.copy()
            self.taint_changed(start, r, ldeps)
        return r

    def set_order(self, it, node, st):
        if any(self.objs[o].kind == "set" and not self.objs[o].caller for o in it.oids()):
            self.event("set-iter", node, st)

    @staticmethod
    def resized(s):
        """the loop changes the length of a sequence it iterates over"""
        names = {n.id for n in ast.walk(s.iter) if isinstance(n, ast.Name)}
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and
                   n.func.value.id in names and n.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "add")
                   for b in s.body for n in ast.walk(b))

    def s_For(self, s, st):
        it, st = self.ev(s.iter, st)
        self.set_order(it, s.iter, st)
        elems = self.iter_vals(it, st, s.iter)
        if isinstance(elems, list) and self.resized(s):
            elem = (joinall(elems) or UNKNOWN).with_(term=None, gate=None)
            elem = join(elem, UNKNOWN.add_deps(it.deps))
        elif isinstance(elems, list):
            # known finite sequence: unroll when small and literal
            if len(elems) == 0:
                return self.exec_block(s.orelse, st)
            if len(elems) <= 6:
                fr = self.cur()
                sb, sc = fr.breaks, fr.conts
                fr.breaks, fr.conts = [], []
                cur, nret = st, len(fr.returns)
                for e in elems:
                    if cur is None:
                        break
                    cur = self.assign(s.target, e, cur)
                    cur = self.exec_block(s.body, cur)
                    cur = self.join_left(cur, fr.conts, st.pc)
                    fr.conts = []
                brs = fr.breaks
                fr.breaks, fr.conts = sb, sc
                r = self.join_left(cur, brs, st.pc)
                if r is not None and len(fr.returns) == nret:
                    r.pc = st.pc
                if r is not None and s.orelse:
                    r = self.exec_block(s.orelse, r)
                return r
            elem = joinall(elems)
        else:
            elem = elems
        elem = elem.add_deps(it.deps)

        def enter(x):
            e = elem
            if not isinstance(elems, list):
                e2 = self.iter_vals(it, x, s.iter)
                e = (e2 if not isinstance(e2, list) else (joinall(e2) or elem)).add_deps(it.deps)
            x.pc = x.pc | it.deps
            self.loopdeps = it.deps
            y = self.assign(s.target, e, x)
            return y, None
        return self.loop(st, enter, s.body, s.orelse, True)

    def s_While(self, s, st):
        def enter(x):
            v, x = self.ev(s.test, x)
            self.loopdeps = v.deps
            t = self.truth(v, x)
            if t is True:
                return x, None
            if t is False:
                return None, x
            a = self.refine(s.test, v, True, x.copy())
            b = self.refine(s.test, v, False, x.copy())
            if a is not None:
                a.pc = a.pc | v.deps
            for y in (a, b):
                if y is not None and v.term is not None:
                    y.facts.pop(strip_not(v.term)[0], None)
            return a, b
        if self.versioned:
            # iterations whose condition is known are followed one by one
            fr = self.cur()
            sb, sc = fr.breaks, fr.conts
            out, cur = [], st
            for _ in range(6):
                x = cur.copy()
                v, x = self.ev(s.test, x)
                t = self.truth(v, x)
                if t is False:
                    fr.breaks, fr.conts = sb, sc
                    if s.orelse:
                        x = self.exec_block(s.orelse, x)
                    return self.join_states(([x] if x is not None else []) + out)
                if t is not True:
                    break
                fr.breaks, fr.conts = [], []
                x = self.exec_block(s.body, x)
                cur = self.join_left(x, fr.conts, st.pc)
                out += fr.breaks
                fr.breaks, fr.conts = sb, sc
                if cur is None:
                    return self.join_states(out) if out else None
            st = cur
            if out:
                r = self.loop(st, enter, s.body, s.orelse, False)
                return self.join_states(([r] if r is not None else []) + out)
        return self.loop(st, enter, s.body, s.orelse, False)

    def s_Break(self, s, st):
        self.cur().breaks.append(st)
        return None

    def s_Continue(self, s, st):
        self.cur().conts.append(st)
        return None

    def s_With(self, s, st):
        for i in s.items:
            v, st = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                st = self.assign(i.optional_vars, v, st)
        return self.exec_block(s.body, st)

    def s_Try(self, s, st):
        start = st.copy()
        self.sinks.append([])
        er, self.ext_raise = self.ext_raise, False
        fr = self.cur()
        end = self.exec_block(s.body, st)
        raised = self.sinks.pop()
        may_ext = self.ext_raise
        self.ext_raise = er or self.ext_raise
        finals = []
        if end is not None and s.orelse:
            end = self.exec_block(s.orelse, end)
        if end is not None:
            finals.append(end)
        remaining = raised
        for h in s.handlers:
            names = [None] if h.type is None else (M.type_names(h.type) or [None])
            states = []
            rest = []
            for r in remaining:
                if any(n is None or exc_matches(r[0], n) for n in names):
                    states.append(r[1])
                else:
                    rest.append(r)
            remaining = rest
            if may_ext:
                x = start.copy()
                states.append(x if end is None else self.join2(x, end.copy()))
            if not states:
                continue
            hs = self.join_states(states)
            if h.name:
                hs.wframe(fr.fid)[h.name] = Val({("x", (names[0] or "Exception"))})
            hr = self.exec_block(h.body, hs)
            if hr is not None:
                finals.append(hr)
        if self.sinks:
            self.sinks[-1].extend(remaining)
        r = self.join_states(finals) if finals else None
        if s.finalbody:
            # the finally block runs on every path; effects on the normal path are kept
            if r is not None:
                r = self.exec_block(s.finalbody, r)
            new_ret = []
            for (v, x) in fr.returns:
                new_ret.append((v, x))
            if new_ret and isinstance(s.body[-1], ast.Return):
                fr.returns = []
                keep = list(new_ret)
                done = []
                for (v, x) in keep:
                    y = self.exec_block(s.finalbody, x)
                    if y is not None:
                        done.append((v, y))
                fr.returns = fr.returns + done
        return r

    s_TryStar = s_Try

    def s_Match(self, s, st):
        v, st = self.ev(s.subject, st)
        outs = []
        for c in s.cases:
            x = st.copy()
            for n in ast.walk(c.pattern):
                nm = getattr(n, "name", None)
                if nm:
                    x.wframe(self.cur().fid)[nm] = UNKNOWN.add_deps(v.deps)
            r = self.exec_block(c.body, x)
            if r is not None:
                outs.append(r)
        outs.append(st)
        return self.join_states(outs)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.node_count += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown_ops += 1
            return UNKNOWN, st
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value), st

    def e_JoinedStr(self, e, st):
        deps = frozenset()
        allc = True
        parts = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                v, st = self.ev(p.value, st)
                deps |= v.deps
                ok, c = one_const(v)
                if ok and p.format_spec is None and p.conversion == -1 and isinstance(c, (str, int)):
                    parts.append(str(c))
                else:
                    allc = False
            elif isinstance(p, ast.Constant):
                parts.append(str(p.value))
        if allc:
            return const("".join(parts)), st
        return Val({N}, deps), st

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def from_res(self, r, st):
        if r is None:
            return UNKNOWN
        if r[0] == "func":
            return Val({("f", r[1], None)}, term=T("fn", r[1].qual))
        if r[0] == "class":
            return Val({("k", r[1])}, term=T("cls", r[1].name))
        if r[0] == "mod":
            return Val({("x", r[1].name)})
        if r[0] == "ext":
            return Val({("x", r[1])}, term=T("x", r[1]))
        if r[0] == "expr":
            return self.module_value(r[1], r[2], st)
        return UNKNOWN

    def module_value(self, m, node, st):
        k = id(node)
        got = self.modvals.get(k)
        if got is None:
            self.modvals[k] = (UNKNOWN, {})
            x = State()
            fid = self.new_fid(None)
            x.frames[fid] = {}
            fr = Frame(fid, None, 0, m)
            self.stack.append(fr)
            self.sinks.append([])
            step, self.step = self.step, "module"
            self.quiet += 1
            try:
                v, x = self.ev(node, x)
            except Stop:
                v = UNKNOWN
            finally:
                self.quiet -= 1
                self.step = step
                self.sinks.pop()
                self.stack.pop()
            got = self.modvals[k] = (v, x.heap)
        v, heap = got
        for oid, h in heap.items():
            if oid not in st.heap:
                st.heap[oid] = h
        return v

    def new_fid(self, parent):
        self.nfid += 1
        self.parents[self.nfid] = parent
        return self.nfid

    def e_Name(self, e, st):
        fr = self.cur()
        fid = self.lookup_frame(e.id, st)
        if fid is not None:
            v = self.resolve_gate(st, st.frames[fid][e.id])
            if v is not st.frames[fid][e.id]:
                pass
            if MISSING in v.atoms:
                rest = v.atoms - {MISSING}
                self.event("unbound", e, st, name=e.id, definite=not rest)
                if not rest:
                    self.do_raise(st, "UnboundLocalError", e, explicit=False)
                    raise Stop()
                self.do_raise(st, "UnboundLocalError", e, explicit=False)
                v = v.with_(atoms=rest, gate=None)
                st.wframe(fid)[e.id] = v
            return v, st
        if fr.fn is not None and e.id in fr.fn.local_names() and isinstance(fr.fn.node, ast.FunctionDef):
            self.event("unbound", e, st, name=e.id, definite=True)
            self.do_raise(st, "UnboundLocalError", e, explicit=False)
            raise Stop()
        r = self.prog.resolve(fr.module, e.id)
        g = st.heap.get("globals of " + fr.module.name, {}).get(e.id)
        if g is not None:
            v = g.with_(atoms=g.atoms - {MISSING}, gate=None) if MISSING in g.atoms else self.resolve_gate(st, g)
            if MISSING in g.atoms and r is not None:
                v = join(v, self.from_res(r, st))
            return v, st
        if r is not None:
            return self.from_res(r, st), st
        if hasattr(builtins, e.id):
            return Val({("x", "builtins." + e.id)}, term=T("x", "builtins." + e.id)), st
        if e.id in ("__name__", "__file__", "__doc__"):
            return NOTNONE, st
        self.event("undefined", e, st, name=e.id)
        return UNKNOWN, st

    def globals_of(self, module, st):
        oid = "globals of " + module.name
        if oid not in self.objs:
            self.objs[oid] = Obj(oid, "inst", None, False, None, (module.relpath, 0), None)
        if oid not in st.heap:
            st.heap[oid] = {}
        return oid

    def e_NamedExpr(self, e, st):
        v, st = self.ev(e.value, st)
        return v, self.assign(e.target, v, st)

    def e_Lambda(self, e, st):
        fr = self.cur()
        return self.with_defaults(e, Val({("f", self.nested_fn(e, fr), fr.fid)}), st)

    def e_Tuple(self, e, st):
        vals = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v, st = self.ev(x.value, st)
                seq = self.seq_elems(v, st)
                if seq is None:
                    oid = self.alloc(st, "list", e, fields={"[]": self.element(v, st, e)})
                    return Val({("o", oid)}, v.deps), st
                vals.extend(seq)
            else:
                v, st = self.ev(x, st)
                vals.append(v)
        return mk_tuple(vals), st

    def seq_elems(self, v, st):
        if len(v.atoms) == 1:
            a = next(iter(v.atoms))
            if a[0] in ("t", "tn"):
                return list(a[-1])
            if a[0] == "o":
                o = self.objs[a[1]]
                h = st.heap.get(a[1], {})
                if o.kind == "list" and "#len" in h and a[1] not in self.multi:
                    ok, n = one_const(h["#len"])
                    if ok and all(f"[{i}]" in h for i in range(n)):
                        return [h[f"[{i}]"] for i in range(n)]
        return None

    def e_List(self, e, st):
        vals = []
        known = True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v, st = self.ev(x.value, st)
                seq = self.seq_elems(v, st)
                if seq is None:
                    vals.append(self.element(v, st, e))
                    known = False
                else:
                    vals.extend(seq)
            else:
                v, st = self.ev(x, st)
                vals.append(v)
        return self.mk_list(vals, e, st, known), st

    def mk_list(self, vals, node, st, known=True, kind="list"):
        f = {}
        if vals:
            f["[]"] = joinall(vals)
        if known:
            f["#len"] = const(len(vals))
            for i, v in enumerate(vals):
                f[f"[{i}]"] = v
        oid = self.alloc(st, kind, node, fields=f)
        deps = frozenset()
        t = None
        for v in vals:
            deps |= v.deps
        if known and all(v.term is not None for v in vals) and len(vals) < 30:
            t = T("list", *[v.term for v in vals])
        ck = None
        if vals:
            cks = {v.ck for v in vals}
            ck = "C" if "C" in cks else ("R" if cks == {"R"} else None)
        return Val({("o", oid)}, deps, t, None, ck)

    def e_Set(self, e, st):
        vals = []
        for x in e.elts:
            v, st = self.ev(x, st)
            vals.append(v)
        return self.mk_list(vals, e, st, True, "set"), st

    def e_Dict(self, e, st):
        f = {}
        deps = frozenset()
        exact = True
        for k, x in zip(e.keys, e.values):
            v, st = self.ev(x, st)
            deps |= v.deps
            if k is None:
                for o in v.oids():
                    for kk, vv in st.heap.get(o, {}).items():
                        if not kk.startswith("#"):
                            f[kk] = join(f.get(kk), vv) if kk == "[]" else vv
                    if self.objs[o].kind != "dict" or st.heap.get(o, {}).get("#open"):
                        exact = False
                if not v.oids():
                    exact = False
                continue
            kv, st = self.ev(k, st)
            deps |= kv.deps
            ok, c = one_const(kv)
            if ok:
                f["k:" + repr(c)] = v
            else:
                exact = False
                f["[]"] = join(f.get("[]"), v)
        if not exact:
            f["#open"] = TRUE
        oid = self.alloc(st, "dict", e, fields=f)
        return Val({("o", oid)}, deps), st

    def e_ListComp(self, e, st, kind="list"):
        return self.comp(e, [e.elt], st, kind)

    def e_SetComp(self, e, st):
        return self.comp(e, [e.elt], st, "set")

    def e_GeneratorExp(self, e, st):
        v, st = self.comp(e, [e.elt], st, "list")
        for o in v.oids():
            self.objs[o].gen = True
        return v, st

    def e_DictComp(self, e, st):
        return self.comp(e, [e.key, e.value], st, "dict")

    def comp(self, e, elts, st, kind):
        fr = self.cur()
        fid = self.new_fid(fr.fid)
        st.frames[fid] = {}
        nf = Frame(fid, fr.fn, fr.ctx, fr.module)
        nf.returns, nf.selfcls = fr.returns, fr.selfcls
        nf.breaks, nf.conts = [], []
        self.stack.append(nf)
        self.loopdepth += 1
        deps = frozenset()
        try:
            single = None
            bound = None
            for gi, g in enumerate(e.generators):
                it, st = self.ev(g.iter, st)
                deps |= it.deps
                if kind != "set":
                    self.set_order(it, g.iter, st)
                els = self.iter_vals(it, st, g.iter)
                if gi == 0 and len(e.generators) == 1 and isinstance(els, list) and len(els) <= 8 and not g.ifs \
                        and kind == "list":
                    outs = []
                    for el in els:
                        st = self.assign(g.target, el, st)
                        v, st = self.ev(elts[0], st)
                        outs.append(v)
                    r = self.mk_list(outs, e, st, True, kind)
                    return r.add_deps(deps), st
                el = joinall(els) if isinstance(els, list) else els
                if el is None:
                    el = UNKNOWN
                st = self.assign(g.target, el.add_deps(it.deps), st)
                for c in g.ifs:
                    cv, st = self.ev(c, st)
                    deps |= cv.deps
                    # keep only the refinement of the comprehension variables
                    y = self.refine(c, cv, True, st.copy())
                    if y is not None:
                        y.facts = dict(st.facts)
                        st = y
            v, st = self.ev(elts[-1], st)
            if kind == "dict":
                kv, st = self.ev(elts[0], st)
                deps |= kv.deps
        finally:
            self.loopdepth -= 1
            self.stack.pop()
        st.frames.drop(fid)
        f = {"[]": v}
        if kind == "dict":
            f["#open"] = TRUE
        oid = self.alloc(st, kind, e, fields=f)
        its = [g.iter for g in e.generators]
        t = None
        if v.term is not None and kind == "list":
            t = T("comp", v.term)
        return Val({("o", oid)}, deps | v.deps, t, None, v.ck), st

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Slice(self, e, st):
        parts = []
        for x in (e.lower, e.upper, e.step):
            if x is None:
                parts.append(NONE)
            else:
                v, st = self.ev(x, st)
                parts.append(v)
        deps = frozenset().union(*[p.deps for p in parts])
        t = None
        if all(p.term is not None for p in parts):
            t = T("slice", *[p.term for p in parts])
        return Val({("sl",) + tuple(parts)}, deps, t), st

    def ev_index(self, e, st):
        return self.ev(e, st)

    def e_UnaryOp(self, e, st):
        v, st = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, st)
            if t is not None:
                r = const(not t)
                return Val(r.atoms, v.deps, r.term, None, "R"), st
            tm = T("not", v.term) if v.term is not None else None
            if tm is not None:
                b, neg = strip_not(tm)
                tm = T("not", b) if neg else b
            return Val({N}, v.deps, tm, None, "R"), st
        ok, c = one_const(v)
        if ok and isinstance(c, (int, float, bool)) and not isinstance(c, str):
            try:
                r = {ast.USub: lambda: -c, ast.UAdd: lambda: +c, ast.Invert: lambda: ~c}[type(e.op)]()
                return const(r).add_deps(v.deps), st
            except Exception:
                pass
        nm = {"USub": "neg", "UAdd": "pos", "Invert": "Invert"}[type(e.op).__name__]
        t = T(nm, v.term) if v.term is not None else None
        if all(a[0] in ("c",) for a in v.atoms):
            return Val({N}, v.deps, t, None, v.ck), st
        return self.fresh(st, e, v.deps, t, v.ck), st

    def fresh(self, st, node, deps=frozenset(), term=None, ck=None, extra=""):
        """A new array or scalar that shares no storage with anything."""
        oid = self.alloc(st, "arr", node, extra=extra)
        return Val({("o", oid)}, deps, term, None, ck)

    def e_BinOp(self, e, st):
        a, st = self.ev(e.left, st)
        b, st = self.ev(e.right, st)
        return self.binop(type(e.op).__name__, a, b, e, st), st

    def binop(self, op, a, b, node, st):
        return M.binop(self, op, a, b, node, st)

    def e_BoolOp(self, e, st):
        is_and = isinstance(e.op, ast.And)
        vals = []
        cur = st
        deps = frozenset()
        terms = []
        exits = []
        for i, x in enumerate(e.values):
            v, cur = self.ev(x, cur)
            deps |= v.deps
            terms.append(v.term)
            t = self.truth(v, cur)
            if i == len(e.values) - 1:
                vals.append(v)
                break
            if t is None:
                vals.append(self.keep_truth(v, not is_and) or v)
                out = self.refine(x, v, not is_and, cur.copy())
                nxt = self.refine(x, v, is_and, cur.copy())
                if out is not None:
                    exits.append(out)
                if nxt is None:
                    cur = None
                    break
                cur = nxt
            elif t != is_and:
                vals.append(v)
                break
            # decided: continue with the next operand, this one contributes nothing
        states = exits + ([cur] if cur is not None else [])
        facts0 = st.facts
        if len(states) > 1:
            stj = self.join_states(states)
            stj.pc = st.pc
        else:
            stj = states[0]
            if exits == [] and cur is not None:
                stj = cur
        r = joinall(vals)
        und = [tt for tt in terms]
        term = None
        if len(vals) == 1:
            term = r.term
        elif all(tt is not None for tt in und):
            term = T("and" if is_and else "or", *und)
        # the joined truth value may be decided even if the joined value is not
        if len(vals) > 1:
            return Val(r.atoms, deps, term, None, r.ck), stj
        return Val(r.atoms, deps, term, r.gate, r.ck), stj

    def e_Compare(self, e, st):
        left, st = self.ev(e.left, st)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right, st = self.ev(c, st)
            r = M.compare(self, type(op).__name__, left, right, e, st)
            if res is None:
                res = r
            else:
                t1, t2 = self.truth(res, st), self.truth(r, st)
                if t1 is False or t2 is False:
                    res = Val(FALSE.atoms, res.deps | r.deps, FALSE.term, None, "R")
                elif t1 is True:
                    res = r.add_deps(res.deps)
                elif t2 is True:
                    res = res.add_deps(r.deps)
                else:
                    tm = T("and", res.term, r.term) if res.term is not None and r.term is not None else None
                    res = Val({N}, res.deps | r.deps, tm, None, "R")
            left = right
        return res, st

    def e_IfExp(self, e, st):
        v, st = self.ev(e.test, st)
        t = self.truth(v, st)
        if t is True:
            return self.ev(e.body, st)
        if t is False:
            return self.ev(e.orelse, st)
        a = self.refine(e.test, v, True, st.copy())
        b = self.refine(e.test, v, False, st.copy())
        va = vb = None
        if a is not None:
            try:
                va, a = self.ev(e.body, a)
            except Stop:
                a = None
        if b is not None:
            try:
                vb, b = self.ev(e.orelse, b)
            except Stop:
                b = None
        if a is None and b is None:
            raise Stop()
        if a is None:
            return vb, b
        if b is None:
            return va, a
        key = None
        flip = False
        if v.term is not None:
            key, flip = strip_not(v.term)
        r = join(vb, va, key) if flip else join(va, vb, key)
        x = self.join2(a, b)
        x.pc = st.pc
        return (r.add_deps(v.deps) if r is not va or va is not vb else r), x

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = NONE
        if e.value is not None:
            v, st = self.ev(e.value, st)
        self.cur().yields.append(v)
        return UNKNOWN, st

    def e_YieldFrom(self, e, st):
        v, st = self.ev(e.value, st)
        self.cur().yields.append(self.element(v, st, e))
        return UNKNOWN, st

    # ---- attribute access
    def e_Attribute(self, e, st):
        recv, st = self.ev(e.value, st)
        return self.load_attr(recv, e.attr, e, st)

    def load_attr(self, recv, name, node, st):
        outs = []
        states = []
        base = st
        n = len(recv.atoms)
        if n == 0:
            return UNKNOWN, st
        raised = 0
        for a in sorted(recv.atoms, key=lambda x: str(x)):
            x = base.copy() if n > 1 else base
            try:
                v, x = self.load_attr_atom(a, recv, name, node, x)
            except Stop:
                raised += 1
                continue
            outs.append(v)
            states.append(x)
        if not outs:
            raise Stop()
        v = joinall(outs)
        return v, (states[0] if len(states) == 1 else self.join_states(states))

    def load_attr_atom(self, a, recv, name, node, st):
        k = a[0]
        if k == "missing":
            return UNKNOWN, st
        if k == "x":
            full = a[1] + "." + name
            mod = self.prog.modules.get(a[1])
            if mod is not None:
                r = self.prog.resolve(mod, name)
                return self.from_res(r, st), st
            if full == "numpy.newaxis":
                return NONE, st
            ck = "R" if full in ("numpy.pi", "numpy.inf", "numpy.nan", "numpy.e") else None
            return Val({("x", full)}, recv.deps, T("x", full), None, ck), st
        if k == "k":
            return self.class_attr(a[1], name, node, st)
        if k == "super":
            return self.super_attr(a, name, node, st)
        if k == "o":
            o = self.objs[a[1]]
            if o.kind == "inst" and o.cls is not None:
                ga = o.cls.find("__getattribute__")
                if isinstance(ga, FuncInfo):
                    return self.call_fn(ga, [Val({a}), const(name)], {}, node, st)
                return self.raw_attr(a, name, node, st, recv)
            return M.value_attr(self, a, recv, name, node, st)
        if k == "tn":
            if name in a[1]:
                return a[2][a[1].index(name)], st
            return M.value_attr(self, a, recv, name, node, st)
        if k == "c" and a[2] is None:
            if name.startswith("__"):
                return UNKNOWN, st
            self.event("none-attr", node, st, name=name)
            self.do_raise(st, "AttributeError", node, explicit=False)
            raise Stop()
        return M.value_attr(self, a, recv, name, node, st)

    def raw_attr(self, a, name, node, st, recv=None, is_super=None):
        """object.__getattribute__ semantics on an instance."""
        oid = a[1]
        o = self.objs[oid]
        cls = o.cls
        if self.assume and (oid, name) in self.assume:
            return self.assume[oid, name], st
        m = cls.find(name)
        if isinstance(m, FuncInfo) and m.cached:
            f = self.get_field(st, oid, name)
            if f is not None and MISSING not in f.atoms:
                self.event("attr-read", node, st, name=name, obj=oid, val=f)
                return f, st
            v, st = self.call_fn(m, [Val({a}, recv.deps if recv else frozenset())], {}, node, st)
            if f is not None and f.atoms != {MISSING}:
                v = join(f.with_(atoms=f.atoms - {MISSING}, gate=None), v)
            self.event("attr-write", node, st, name=name, obj=oid, val=v, old=f)
            self.set_field(st, oid, name, v)
            return v, st
        if isinstance(m, FuncInfo) and m.kind == "property":
            return self.call_fn(m, [Val({a}, recv.deps if recv else frozenset())], {}, node, st)
        f = self.get_field(st, oid, name)
        if f is not None:
            if MISSING in f.atoms:
                rest = f.atoms - {MISSING}
                self.event("attr-missing", node, st, name=name, cls=cls.name, definite=not rest, obj=oid)
                self.do_raise(st, "AttributeError", node, explicit=False)
                if not rest:
                    raise Stop()
                f = f.with_(atoms=rest, gate=None)
            self.event("attr-read", node, st, name=name, obj=oid, val=f)
            return f, st
        if isinstance(m, FuncInfo):
            if m.kind == "static":
                return Val({("f", m, None)}), st
            if m.kind == "class":
                return Val({("b", ("k", cls), m)}), st
            return Val({("b", a, m)}), st
        if isinstance(m, tuple):
            if m[1] is None:
                return UNKNOWN, st
            return self.module_value(m[0].module, m[1], st), st
        if name == "__class__":
            return Val({("k", cls)}), st
        if name == "__dict__":
            self.event("dict-access", node, st, obj=oid)
            f = {f"k:{k!r}": x for k, x in st.heap.get(oid, {}).items()
                 if isinstance(x, Val) and not k.startswith(("#", "["))}
            if st.heap.get(oid, {}).get("#opaque") or o.caller:
                f["#open"] = TRUE
            f["#dictof"] = const(oid)
            d = self.alloc(st, "dict", node, extra="__dict__")
            st.heap[d] = f
            return Val({("o", d)}), st
        ext = cls.all_ext()
        if "dict" in ext or "list" in ext or "tuple" in ext:
            return Val({("xm", Val({a}), name)}), st
        if name.startswith("__"):
            return Val({("xm", Val({a}), name)}), st
        ga = cls.find("__getattr__")
        if isinstance(ga, FuncInfo):
            return self.call_fn(ga, [Val({a}), const(name)], {}, node, st)
        if o.caller or st.heap.get(oid, {}).get("#opaque"):
            return UNKNOWN.add_deps(recv.deps if recv else frozenset()), st
        if ext - {"Generic", "ABC", "object"}:
            return UNKNOWN, st
        self.event("attr-missing", node, st, name=name, cls=cls.name, definite=True, obj=oid)
        self.do_raise(st, "AttributeError", node, explicit=False)
        raise Stop()

    def class_attr(self, cls, name, node, st):
        m = cls.find(name)
        if isinstance(m, FuncInfo):
            if m.kind == "class":
                return Val({("b", ("k", cls), m)}), st
            return Val({("f", m, None)}), st
        if isinstance(m, tuple) and m[1] is not None:
            return self.module_value(m[0].module, m[1], st), st
        if name == "__name__":
            return const(cls.name), st
        return UNKNOWN, st

    def super_attr(self, a, name, node, st):
        recv, cls = a[1], a[2]
        if recv[0] == "o":
            oc = self.objs[recv[1]].cls
        else:
            oc = recv[1]
        mro = oc.mro
        i = mro.index(cls) if cls in mro else -1
        for c in mro[i + 1:]:
            m = c.methods.get(name)
            if m is not None:
                if m.kind == "property":
                    return self.call_fn(m, [Val({recv})], {}, node, st)
                if m.kind == "static":
                    return Val({("f", m, None)}), st
                return Val({("b", recv, m)}), st
        return Val({("xm", Val({("super",) + a[1:]}), name)}), st

    def store_attr(self, recv, name, v, node, st):
        oids = []
        for a in recv.atoms:
            if a[0] != "o":
                if a[0] == "x":
                    self.event("ext-attr-store", node, st, target=a[1] + "." + name, val=v)
                if a[0] == "k":
                    self.event("class-write", node, st, name=name, cls=a[1].name, val=v)
                continue
            oids.append(a)
        strong = len(recv.atoms) == 1 or self.exclusive(recv)
        for a in oids:
            oid = a[1]
            o = self.objs[oid]
            if o.kind == "inst" and o.cls is not None:
                s = o.cls.find_setter(name)
                if s is not None:
                    # property setter
                    x = st
                    r, st = self.call_fn(s, [Val({a}), v], {}, node, x)
                    continue
                m = o.cls.find(name)
                if isinstance(m, FuncInfo) and m.kind == "property" and not m.cached:
                    self.event("readonly-store", node, st, name=name, cls=o.cls.name)
                    self.do_raise(st, "AttributeError", node, explicit=False)
                    raise Stop()
                self.event("attr-write", node, st, name=name, obj=oid, val=v,
                           old=st.heap.get(oid, {}).get(name))
                self.set_field(st, oid, name, v, weak=not strong)
            else:
                M.value_setattr(self, a, name, v, node, st, recv.term)
        return st

    # ---- subscripts
    def e_Subscript(self, e, st):
        recv, st = self.ev(e.value, st)
        idx, st = self.ev_index(e.slice, st)
        return self.load_sub(recv, idx, e, st)

    def load_sub(self, recv, idx, node, st):
        outs = []
        states = []
        n = len(recv.atoms)
        for a in sorted(recv.atoms, key=lambda x: str(x)):
            x = st.copy() if n > 1 else st
            try:
                v, x = M.load_sub_atom(self, a, recv, idx, node, x)
            except Stop:
                continue
            outs.append(v)
            states.append(x)
        if not outs:
            if n == 0:
                return UNKNOWN, st
            raise Stop()
        v = joinall(outs)
        if recv.term is not None and idx.term is not None and v.term is None and len(outs) > 1:
            v = v.with_(term=T("idx", recv.term, idx.term))
        return v, (states[0] if len(states) == 1 else self.join_states(states))

    def store_sub(self, recv, idx, v, node, st, aug=False):
        for a in recv.atoms:
            if a[0] == "o":
                o = self.objs[a[1]]
                if o.kind == "inst" and o.cls is not None:
                    m = o.cls.find("__setitem__")
                    if isinstance(m, FuncInfo):
                        _, st = self.call_fn(m, [Val({a}), idx, v], {}, node, st)
                        continue
        strong = len(recv.atoms) == 1 or self.exclusive(recv)
        objs = [a[1] for a in recv.atoms if a[0] == "o"
                and not (self.objs[a[1]].kind == "inst" and self.objs[a[1]].cls is not None
                         and isinstance(self.objs[a[1]].cls.find("__setitem__"), FuncInfo))]
        if objs:
            if recv.ck == "R" and v.ck == "C" or recv.ck == "I" and v.ck in ("C", "F"):
                self.event("narrow", node, st, how="assignment to a real array" if recv.ck == "R" else "assignment to an array of the type of the data", val=v, to=recv.ck)
            self.mutate(st, objs, node, how="[]=", value=v, index=idx, recv=recv.term)
        for oid in objs:
            M.store_elem(self, st, oid, idx, v, strong and oid not in self.multi, node)
        return st

    def mutate(self, st, oids, node, how, value=None, index=None, key=None, recv=None):
        self.event("mutate", node, st, objs=tuple(oids), how=how, val=value, index=index)
        if self.versioned and oids:
            self.outdate(st, set(oids), value, index, recv)

    skip_store = None        # predicate on index terms: assignments to such parts are assumed to touch nothing

    def outdate(self, st, oids, value, index, recv=None):
        """an object changed in place: value numbers of references to it no longer describe it"""
        if self.skip_store is not None and index is not None and index.term is not None and self.skip_store(index.term):
            return
        def new(v):
            if v.term is None or not any(a[0] == "o" and a[1] in oids for a in v.atoms):
                return None
            t = None
            # alternatives that one expression may refer to count as one object
            if value is not None and index is not None and value.term is not None and index.term is not None \
                    and v.term is recv and updates(v.term) < 6 and len(v.atoms) == len(oids) and \
                    all(a[0] == "o" and a[1] in oids for a in v.atoms) and \
                    (len(oids) == 1 or not any(o in self.multi for o in oids)):
                t = T("upd", v.term, index.term, value.term)
            return v.with_(term=t, gate=None)
        for fid in list(st.frames):
            env = st.frames[fid]
            ch = {k: n for k, n in ((k, new(v)) for k, v in env.items() if isinstance(v, Val)) if n is not None}
            if ch:
                st.frames[fid] = {**env, **ch}
        for oid in list(st.heap):
            h = st.heap[oid]
            ch = {k: n for k, n in ((k, new(v)) for k, v in h.items() if isinstance(v, Val)) if n is not None}
            if ch:
                st.heap[oid] = {**h, **ch}

    def element(self, v, st, node):
        r = self.iter_vals(v, st, node)
        if isinstance(r, list):
            return joinall(r) or UNKNOWN
        return r

    def iter_vals(self, v, st, node):
        """list of Vals for a sequence with known length, else one element Val."""
        return M.iter_vals(self, v, st, node)

    # ---- calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fr = self.cur()
            fn = fr.fn
            while fn is not None and fn.cls is None:
                fn = fn.outer
            cls = fn.cls if fn else None
            if e.args:
                v, st = self.ev(e.args[0], st)
                for a in v.atoms:
                    if a[0] == "k":
                        cls = a[1]
            slf = None
            fid = fr.fid
            env = st.frames[fid]
            if e.args and len(e.args) > 1:
                v, st = self.ev(e.args[1], st)
                slf = v
            else:
                names = fn.params()[0] if fn else []
                if names:
                    f2 = self.lookup_frame(names[0], st)
                    slf = st.frames[f2][names[0]] if f2 is not None else None
            if cls is None or slf is None:
                return UNKNOWN, st
            return Val({("super", a, cls) for a in slf.atoms if a[0] in ("o", "k")}), st
        fv, st = self.ev(e.func, st)
        args = []
        kwargs = {}
        open_kw = None
        star_unknown = None
        for x in e.args:
            if isinstance(x, ast.Starred):
                v, st = self.ev(x.value, st)
                seq = self.seq_elems(v, st)
                if seq is None:
                    el = self.element(v, st, x)
                    star_unknown = el.add_deps(v.deps)
                else:
                    args.extend(seq)
            else:
                v, st = self.ev(x, st)
                args.append(v)
        for kw in e.keywords:
            v, st = self.ev(kw.value, st)
            if kw.arg is None:
                got = False
                for o in v.oids():
                    if self.objs[o].kind in ("dict",):
                        h = st.heap.get(o, {})
                        for kk, vv in h.items():
                            if kk.startswith("k:'"):
                                nm = kk[3:-1]
                                vv2 = self.resolve_gate(st, vv)
                                if nm not in kwargs:
                                    kwargs[nm] = vv2
                                if MISSING in vv2.atoms:
                                    kwargs[nm] = vv2.with_(atoms=vv2.atoms - {MISSING}, gate=None)
                                    if not kwargs[nm].atoms:
                                        del kwargs[nm]
                        if h.get("#open") or "[]" in h:
                            open_kw = join(open_kw, h.get("[]", UNKNOWN).add_deps(v.deps))
                    else:
                        open_kw = join(open_kw, UNKNOWN.add_deps(v.deps))
                    got = True
                if not got:
                    open_kw = join(open_kw, UNKNOWN.add_deps(v.deps))
            else:
                kwargs[kw.arg] = v
        return self.call_val(fv, args, kwargs, e, st, star_unknown, open_kw)

    def call_val(self, fv, args, kwargs, node, st, star=None, open_kw=None):
        outs, states = [], []
        n = len(fv.atoms)
        for a in sorted(fv.atoms, key=lambda x: str(x)):
            x = st.copy() if n > 1 else st
            try:
                v, x = self.call_atom(a, fv, list(args), dict(kwargs), node, x, star, open_kw)
            except Stop:
                continue
            if x is None:
                continue
            outs.append(v)
            states.append(x)
        if not outs:
            if n == 0:
                return UNKNOWN, st
            raise Stop()
        r = joinall(outs)
        if n > 1:
            r = r.add_deps(fv.deps)
        return r, (states[0] if len(states) == 1 else self.join_states(states))

    def call_atom(self, a, fv, args, kwargs, node, st, star, open_kw):
        k = a[0]
        if k == "f":
            if len(a) > 3:
                pa = a[1].node.args
                given = {y.arg for y in (pa.posonlyargs + pa.args)[:None if star is not None else len(args)]} if args or star is not None else set()
                kwargs = {**{n: v for n, v in a[3] if n not in given}, **kwargs}
            return self.call_fn(a[1], args, kwargs, node, st, closure=a[2], star=star, open_kw=open_kw)
        if k == "b":
            return self.call_fn(a[2], [Val({a[1]})] + args, kwargs, node, st, star=star, open_kw=open_kw)
        if k == "k":
            return self.construct(a[1], args, kwargs, node, st, star, open_kw)
        if k == "x":
            return M.ext_call(self, a[1], args, kwargs, node, st, star, open_kw)
        if k == "xm":
            return M.method_call(self, a[1], a[2], args, kwargs, node, st, star, open_kw)
        if k == "o":
            o = self.objs[a[1]]
            if o.kind == "partial":
                h = st.heap[a[1]]
                pre = []
                i = 0
                while f"[{i}]" in h:
                    pre.append(h[f"[{i}]"])
                    i += 1
                kw = {kk[3:-1]: v for kk, v in h.items() if kk.startswith("k:'")}
                kw.update(kwargs)
                return self.call_val(h["#fn"], pre + args, kw, node, st, star, open_kw)
            if o.kind == "inst" and o.cls is not None:
                m = o.cls.find("__call__")
                if isinstance(m, FuncInfo):
                    return self.call_fn(m, [Val({a})] + args, kwargs, node, st, star=star, open_kw=open_kw)
            if o.kind == "nt":
                names = st.heap[a[1]]["#names"]
                ok, ns = one_const(names)
                if ok:
                    vals = []
                    for i, nme in enumerate(ns):
                        vals.append(args[i] if i < len(args) else kwargs.get(nme, UNKNOWN))
                    deps = frozenset().union(*[v.deps for v in vals]) if vals else frozenset()
                    return Val({("tn", ns, tuple(vals))}, deps), st
        # unknown callable (user supplied function)
        deps = fv.deps
        for v in args + list(kwargs.values()) + [x for x in (star, open_kw) if x is not None]:
            deps = deps | v.deps
        if k == "c":
            # calling a constant is a TypeError
            self.do_raise(st, "TypeError", node, explicit=False)
            raise Stop()
        self.event("call-unknown", node, st, args=args)
        self.ext_raise = True
        oid = self.alloc(st, "any", node, extra="ucall")
        return Val({U, ("o", oid)}, deps, None, None, None), st

    def construct(self, cls, args, kwargs, node, st, star=None, open_kw=None):
        self.calls.add(("new", cls.name))
        if cls.namedtuple:
            ns = tuple(cls.namedtuple)
            vals = [args[i] if i < len(args) else kwargs.get(nme, UNKNOWN) for i, nme in enumerate(ns)]
            return Val({("tn", ns, tuple(vals))}), st
        oid = self.alloc(st, "inst", node, cls)
        self.event("new", node, st, cls=cls.name, args=args, kwargs=kwargs, obj=oid)
        v = Val({("o", oid)})
        init = cls.find("__init__")
        if "dict" in cls.all_ext() and not isinstance(init, FuncInfo):
            if args:
                for o in args[0].oids():
                    for kk, vv in st.heap.get(o, {}).items():
                        self.set_field(st, oid, kk, vv)
            for kk, vv in kwargs.items():
                self.set_field(st, oid, f"k:{kk!r}", vv)
            return v, st
        if isinstance(init, FuncInfo):
            multi = oid in self.multi
            if multi:
                # the constructor works on a fresh object; merge it with the earlier ones of this site afterwards
                old = st.heap[oid]
                st.heap[oid] = {}
                self.multi.discard(oid)
            try:
                _, st = self.call_fn(init, [v] + args, kwargs, node, st, star=star, open_kw=open_kw)
            finally:
                if multi:
                    self.multi.add(oid)
            if multi:
                new = dict(st.heap[oid])
                for k, x in old.items():
                    new[k] = join(new[k], x) if k in new else x
                st.heap[oid] = new
        return v, st

    def bind(self, fn, args, kwargs, node, st, star=None, open_kw=None):
        """Bind arguments to parameters; returns env, or None on a certain TypeError."""
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        kwdef = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        n = min(len(args), len(pos))
        for i in range(n):
            env[pos[i]] = args[i]
        extra = args[len(pos):]
        bound_explicit = set(pos[:n])
        rest_kw = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in env:
                    self.event("bad-call", node, st, fn=fn.qual, why=f"multiple values for {k}")
                    return None
                env[k] = v
                bound_explicit.add(k)
            else:
                rest_kw[k] = v
        if rest_kw and a.kwarg is None:
            self.event("bad-call", node, st, fn=fn.qual, why=f"unexpected keyword {sorted(rest_kw)}")
            return None
        if extra and a.vararg is None:
            self.event("bad-call", node, st, fn=fn.qual, why="too many positional arguments")
            return None
        for p in pos + kwonly:
            if p in env:
                continue
            d = defaults.get(p) if p in defaults else kwdef.get(p)
            if star is not None and p in pos:
                dv = None
                if d is not None:
                    dv = self.eval_default(fn, d, st)
                env[p] = join(star, dv) if dv is not None else star
                continue
            if open_kw is not None:
                dv = self.eval_default(fn, d, st) if d is not None else None
                env[p] = join(open_kw, dv) if dv is not None else open_kw
                continue
            if d is None:
                self.event("bad-call", node, st, fn=fn.qual, why=f"missing argument {p}",
                           open=isinstance(node, ast.Call) and any(k.arg is None for k in node.keywords))
                return None
            env[p] = self.eval_default(fn, d, st)
        if a.vararg is not None:
            if star is not None:
                el = joinall(extra + [star])
                oid = self.alloc(st, "list", node, extra="varargs", fields={"[]": el})
                env[a.vararg.arg] = Val({("o", oid)}, el.deps)
            else:
                env[a.vararg.arg] = mk_tuple(extra)
        if a.kwarg is not None:
            f = {f"k:{k!r}": v for k, v in rest_kw.items()}
            if open_kw is not None:
                f["#open"] = TRUE
                f["[]"] = open_kw
            oid = self.alloc(st, "dict", node, extra="kwargs", fields=f)
            deps = frozenset().union(*[v.deps for v in f.values()]) if f else frozenset()
            env[a.kwarg.arg] = Val({("o", oid)}, deps)
        self.event("bind", node, st, fn=fn, env=dict(env), explicit=frozenset(bound_explicit))
        return env

    def eval_default(self, fn, d, st):
        return self.module_value(fn.module, d, st) if not isinstance(d, ast.Constant) else const(d.value)

    def call_fn(self, fn, args, kwargs, node, st, closure=None, star=None, open_kw=None):
        self.ncalls += 1
        self.functions_seen.add(fn.qual)
        fr0 = self.cur()
        if self.node_count > self.max_nodes():
            raise BudgetExceeded()
        # recursion is cut per receiver: wrappers of wrappers run the same methods on different objects
        rkey = None
        if fn.cls is not None and args and len(args[0].atoms) == 1:
            rkey = args[0].atoms
            if fn.name in ("__getattribute__", "__getattr__") and len(args) > 1:
                rkey = (rkey, args[1].atoms)
        depth = sum(1 for f in self.stack if f.fn is fn and f.rkey == rkey)
        if sum(1 for f in self.stack if f.fn is fn) >= 6:
            depth = 9
        alldeps = frozenset().union(*[v.deps for v in args + list(kwargs.values())]) if (args or kwargs) else frozenset()
        if depth >= 2 or len(self.stack) >= self.MAXSTACK:
            return UNKNOWN.add_deps(alldeps), st
        hook = self.hooks.get(fn.qual)
        if hook is not None:
            r = hook(self, fn, args, kwargs, node, st)
            if r is not None:
                return r
        env = self.bind(fn, args, kwargs, node, st, star, open_kw)
        if env is None:
            self.do_raise(st, "TypeError", node, explicit=False)
            raise Stop()
        fid = self.new_fid(closure)
        st.frames[fid] = env
        key = (fr0.module.relpath if fr0 else "", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), fn.qual)
        ctx = self.ctxid(fr0.ctx if fr0 else 0, key)
        fr = Frame(fid, fn, ctx, fn.module)
        fr.rkey = rkey
        self._fid_fn[fid] = fn
        fr.callnode = node
        pc0 = st.pc
        facts0 = st.facts
        self.stack.append(fr)
        ld, self.loopdepth = self.loopdepth, self.loopdepth
        try:
            if isinstance(fn.node, ast.Lambda):
                v, st = self.ev(fn.node.body, st)
                rets = [(v, st)]
            else:
                fn.local_names()
                end = self.exec_block(fn.node.body, st)
                rets = fr.returns
                if end is not None:
                    rets = rets + [(NONE.add_deps(end.pc), end)]
            yields = fr.yields
        finally:
            self.stack.pop()
            self.loopdepth = ld
        if not rets:
            raise Stop()
        # join the outcomes, gating the values on the facts that tell them apart
        RET = "#ret"
        sts = []
        for v, x in rets:
            x.wframe(fid)[RET] = v
            sts.append(x)
        r = self.join_states(sts) if len(sts) > 1 else sts[0]
        v = r.frames[fid].get(RET, NONE)
        if MISSING in v.atoms:
            v = v.with_(atoms=v.atoms - {MISSING})
        keep = self.closure_needed(fid, r, v)
        if not keep:
            r.frames.drop(fid)
        else:
            r.wframe(fid).pop(RET, None)
        r.pc = pc0
        if fn.is_gen:
            el = joinall(yields) or UNKNOWN
            oid = self.alloc(r, "list", node, extra="gen", fields={"[]": el})
            self.objs[oid].gen = True
            v = Val({("o", oid)}, el.deps)
        if fn.memo and any(x.oids() for x in args + list(kwargs.values())):
            # the result of an earlier call with the same object, whatever its state was then
            old = self.memos.get(fn.qual)
            if old is not None:
                v = join(old, v)
            self.memos[fn.qual] = v
        rec = self.recorders
        if rec:
            for f in rec:
                f(self, fn, env, v, r, node)
        return v, r

    hooks: dict = {}

    @property
    def memos(self):
        return self.__dict__.setdefault("_memos", {})

    def max_nodes(self):
        return 30_000_000

    def closure_needed(self, fid, st, ret):
        # frames are kept while a function object created in them is live; keeping them is harmless
        return self._has_fn(fid, st, ret)

    def _has_fn(self, fid, st, ret):
        fr_fn = self._fid_fn.get(fid)
        if fr_fn is None or not fr_fn.has_nested():
            return False
        seen = set()

        def has(v):
            for a in v.atoms:
                k = a[0]
                if k == "f" and a[2] is not None:
                    if a[2] == fid:
                        return True
                    p = a[2]
                    while p is not None:
                        p = self.parents.get(p)
                        if p == fid:
                            return True
                elif k in ("t", "tn"):
                    if any(has(x) for x in a[-1]):
                        return True
                elif k == "xm" and has(a[1]):
                    return True
            return False
        if has(ret):
            return True
        for h in st.heap.values():
            for v in h.values():
                if has(v):
                    return True
        for f2, e in st.frames.items():
            if f2 != fid:
                for v in e.values():
                    if has(v):
                        return True
        return False

    _fid_fn: dict = {}


class BudgetExceeded(Exception):
    pass


def simple_getter(f):
    """name of the attribute a property merely returns"""
    if not isinstance(f, FuncInfo) or f.kind != "property":
        return None
    body = [b for b in f.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
    if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) \
            and isinstance(body[0].value.value, ast.Name) and f.node.args.args \
            and body[0].value.value.id == f.node.args.args[0].arg:
        return body[0].value.attr
    return None


def strip_not(t):
    neg = False
    while isinstance(t, Term) and t.op == "not":
        t = t.args[0]
        neg = not neg
    return t, neg


def term_deps(t):
    return frozenset()


def mk_tuple(vals):
    deps = frozenset().union(*[v.deps for v in vals]) if vals else frozenset()
    t = None
    if all(v.term is not None for v in vals) and len(vals) < 20:
        t = T("tuple", *[v.term for v in vals])
    return Val({("t", tuple(vals))}, deps, t)


def ast_load(t):
    n = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields}), t)
    n.ctx = ast.Load()
    return n
