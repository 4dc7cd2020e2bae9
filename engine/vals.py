"""Abstract value domain.

A Val over-approximates the run-time values an expression may have.

atoms  frozenset of
         ('c', typename, value)     a constant
         ('u',)                     unknown, possibly None
         ('n',)                     unknown, certainly not None
         ('o', oid)                 heap object (instance, array buffer, list, dict, set, ...)
         ('t', (Val, ...))          tuple with known positions
         ('tn', names, (Val, ...))  namedtuple
         ('sl', lo, hi, st)         slice
         ('f', FuncInfo, fid)       function / lambda (fid: closure frame or None)
         ('b', recv, FuncInfo)      bound method, recv an atom
         ('k', ClassInfo)           class of the analysed package
         ('x', dotted)              name of an external library
         ('xm', recv Val, name)     bound method of an external / builtin value
         ('super', recv, ClassInfo)
         ('missing',)               attribute / variable not bound
deps   labels of the inputs the value depends on (data and control)
term   interned value-number term, or None
gate   (condition term, Val if true, Val if false) for values merged at a branch
ck     'C' possibly complex numeric data, 'R' certainly real, None not known
"""
from __future__ import annotations

MAXDEPTH = 40


class Term:
    __slots__ = ("op", "args", "id", "depth", "size")
    _tab: dict = {}

    def __repr__(self):
        return fmt_term(self)


def T(op, *args):
    key = (op,) + tuple(("#t", a.id) if isinstance(a, Term) else ("#c", type(a).__name__, a) for a in args)
    t = Term._tab.get(key)
    if t is None:
        d = 0
        s = 1
        for a in args:
            if isinstance(a, Term):
                d = max(d, a.depth)
                s += a.size
        d += 1
        if d > MAXDEPTH or s > 20000:
            return T("deep", len(Term._tab))
        t = Term()
        t.op, t.args, t.id, t.depth, t.size = op, args, len(Term._tab), d, s
        Term._tab[key] = t
    return t


def fmt_term(t, lim=12):
    if not isinstance(t, Term):
        return repr(t)
    if lim <= 0:
        return "…"
    if t.op == "p":
        return str(t.args[0])
    if t.op == "c":
        return repr(t.args[0])
    return f"{t.op}({', '.join(fmt_term(a, lim - 1) for a in t.args)})"


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


class Val:
    __slots__ = ("atoms", "deps", "term", "gate", "ck", "_h")

    def __init__(self, atoms=frozenset(), deps=frozenset(), term=None, gate=None, ck=None):
        self.atoms = atoms if isinstance(atoms, frozenset) else frozenset(atoms)
        self.deps = deps if isinstance(deps, frozenset) else frozenset(deps)
        self.term = term
        self.gate = gate
        self.ck = ck
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.atoms, self.deps, self.term.id if self.term is not None else None, self.ck,
                            None if self.gate is None else (self.gate[0].id, self.gate[1], self.gate[2])))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Val) or hash(self) != hash(o):
            return False
        return (self.atoms == o.atoms and self.deps == o.deps and self.term is o.term and self.ck == o.ck
                and self.gate == o.gate)

    def __repr__(self):
        return f"Val({set(self.atoms)}, deps={set(self.deps)}, term={self.term}, ck={self.ck})"

    def with_(self, **kw):
        d = dict(atoms=self.atoms, deps=self.deps, term=self.term, gate=self.gate, ck=self.ck)
        d.update(kw)
        return Val(**d)

    def add_deps(self, deps):
        if not deps or deps <= self.deps:
            return self
        g = self.gate
        return Val(self.atoms, self.deps | deps, self.term, g, self.ck)

    def oids(self):
        return [a[1] for a in self.atoms if a[0] == "o"]


U = ("u",)
N = ("n",)
MISSING = ("missing",)


def const(v):
    tn = type(v).__name__
    try:
        hash(v)
    except TypeError:
        return Val({N})
    ck = "R" if isinstance(v, (int, float, bool)) else ("C" if isinstance(v, complex) else None)
    return Val({("c", tn, v)}, frozenset(), T("c", v) if tn != "float" or v == v else None, None, ck)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNKNOWN = Val({U})
NOTNONE = Val({N})


def consts_of(v):
    """The list of constants if v is certainly one of finitely many constants, else None."""
    out = []
    for a in v.atoms:
        if a[0] != "c":
            return None
        out.append(a[2])
    return out if out else None


def one_const(v):
    c = consts_of(v)
    if c is not None and len(c) == 1:
        return True, c[0]
    return False, None


def gdepth(v):
    d = 0
    while v is not None and v.gate is not None:
        d += 1
        v = v.gate[2] if v.gate[2].gate is not None else v.gate[1]
        if d > 12:
            break
    return d


def join(a, b, key=None):
    """Join; key: (term) true for a and false for b."""
    if a is None:
        return b
    if b is None:
        return a
    if a is b or a == b:
        return a
    atoms = a.atoms | b.atoms
    # merge tuples of the same length
    tups = [x for x in atoms if x[0] in ("t", "tn")]
    if len(tups) > 1:
        by = {}
        for x in tups:
            k = (x[0], len(x[-1]), x[1] if x[0] == "tn" else None)
            by.setdefault(k, []).append(x)
        rest = [x for x in atoms if x[0] not in ("t", "tn")]
        for k, xs in by.items():
            if len(xs) == 1:
                rest.append(xs[0])
                continue
            ea = next((x for x in xs if x in a.atoms), xs[0])
            merged = ea[-1]
            for x in xs:
                if x is not ea:
                    merged = tuple(join(p, q, key) for p, q in zip(merged, x[-1]))
            rest.append(("t", merged) if k[0] == "t" else ("tn", k[2], merged))
        atoms = frozenset(rest)
    cs = [x for x in atoms if x[0] == "c" and x[1] in ("int", "float")]
    if len(cs) > 8:
        atoms = frozenset([x for x in atoms if x not in cs] + [N])
    term = a.term if a.term is b.term else None
    if a.ck == b.ck:
        ck = a.ck
    elif "C" in (a.ck, b.ck):
        ck = "C"
    elif a.ck == "R" and b.atoms == NONE.atoms:
        ck = "R"
    elif b.ck == "R" and a.atoms == NONE.atoms:
        ck = "R"
    else:
        ck = None
    gate = None
    if key is not None and gdepth(a) < 6 and gdepth(b) < 6:
        gate = (key, a, b)
        if term is None and a.term is not None and b.term is not None:
            # if x is c then c else x  ==  x
            if key.op in ("Is", "Eq") and len(key.args) == 2 and a.term.op == "c" and b.term in key.args \
                    and a.term in key.args:
                term = b.term
            else:
                term = T("ite", key, a.term, b.term)
    elif a.gate is not None and a.gate == b.gate:
        gate = a.gate
    elif a.gate is not None and b.gate is not None and a.gate[0] is b.gate[0]:
        gate = (a.gate[0], join(a.gate[1], b.gate[1]), join(a.gate[2], b.gate[2]))
    return Val(atoms, a.deps | b.deps, term, gate, ck)


def joinall(vs):
    r = None
    for v in vs:
        r = join(r, v)
    return r
