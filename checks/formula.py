"""Support for checks that compare what the code computes with a documented formula: the value number of a result, obtained by
interpreting the code with some inputs replaced by named symbols, and the value number of the formula (a numpy expression over
the same symbols) are brought to linear-algebra normal form and compared."""
import ast

from engine.layout import NAN, Layout, NoLayout, nd
from engine.scenario import Session
from engine.vals import NONE, N, T, U, Val, const, fmt_term, subterms
from engine.words import Former, same


# functions that cannot be an equivalent way of writing a formula that does not contain them
CORE = {"pinv", "inv", "eig.w", "eig.v", "eig.vl", "svd.U", "svd.s", "svd.Vh", "real", "imag", "abs", "diagof", "had", "recip", "pow"}


def many(t):
    """truth of a comparison of a number of elements with a small constant: there are many elements"""
    if t.op in ("Eq", "NotEq", "Gt", "Lt", "GtE", "LtE") and len(t.args) == 2:
        n = [x.args[0] if x.op == "c" and type(x.args[0]) is int else 10 ** 6 if
             x.op in ("size", "len") and x.args[0].op != "shape" else None for x in t.args]
        if None not in n and min(n) < 10:
            a, b = n
            return {"Eq": a == b, "NotEq": a != b, "Gt": a > b, "Lt": a < b, "GtE": a >= b, "LtE": a <= b}[t.op]
    return None


class Mod:
    """A session with declared symbols."""

    def __init__(self, ctx, S=None):
        self.ctx = ctx
        self.S = S or Session(ctx.prog)
        self.S.I.hooks = {}
        self.S.I.versioned = True
        self.sym = {}
        self.env = {}
        mods = {n: Val({("x", m)}, (), T("x", m)) for n, m in (("np", "numpy"), ("scipy", "scipy"))}
        self.S.st.frames[self.S.fid] = dict(self.S.st.frames[self.S.fid], **mods)

    def arr(self, name, ndim=2, real=False, deps=(), kind="ndarray"):
        v = self.S.param(name, "", kind="scalar" if ndim == 0 else kind, scope="sym")
        v = v.with_(term=T("p", name), ck="R" if real else v.ck)
        if ndim == 0:
            v = v.with_(atoms=frozenset({N}))
        if deps:
            v = v.add_deps(frozenset(deps))
        self.declare(v.term, name, ndim, real)
        self.env[name] = v
        return v

    def declare(self, term, name, ndim, real=False):
        self.sym[term.id] = (name, ndim, real)

    def fn(self, name, args, ndim, real=False):
        """a symbolic function value  name(args)"""
        if any(a.term is None for a in args):
            return None
        t = T("fn:" + name, *[a.term for a in args])
        f = self.former()
        forms = [f.form(a.term) for a in args]
        if any(x is None for x in forms):
            return None
        key = f"{name}({','.join(map(repr, forms))})"
        self.declare(t, key, ndim, real)
        oid = self.S.I.fresh(self.S.st if False else self.st, self.S.node, frozenset().union(*[a.deps for a in args]), t,
                             "R" if real else "C", extra=key)
        return oid

    st = None
    core = CORE
    full = None
    dims = {}          # names of sizes: sizes with different names are different

    def former(self, nosize=False):
        f = Former(self.sym, nosize)
        f.full = self.full
        f.dims = self.dims
        return f

    def ext(self, name, f):
        """replace an external function"""
        def h(I, args, kwargs, node, st):
            self.st = st
            return f(I, args, kwargs, node, st)
        self.S.I.hooks[name] = h

    def rank(self, t):
        """number of dimensions of a value number"""
        x = self.former().form(t)
        return None if x is None else {"s": 0, "v": 1 if x.orient == 1 else 2, "m": x.ndim}.get(x.kind)

    def shapes(self, more=None):
        """decide tests on the number of dimensions of values"""
        def truth(t):
            if t.op == "isinstance" and len(t.args) == 2 and t.args[1] == "ndarray":
                n = self.rank(t.args[0])
                if n:
                    return True
            if t.op in ("Eq", "NotEq", "Gt", "Lt", "GtE", "LtE") and len(t.args) == 2:
                n = [self.rank(x.args[0]) if x.op == "ndim" else x.args[0] if x.op == "c" else None for x in t.args]
                if all(type(x) is int for x in n) and any(x.op == "ndim" for x in t.args):
                    a, b = n
                    return {"Eq": a == b, "NotEq": a != b, "Gt": a > b, "Lt": a < b, "GtE": a >= b, "LtE": a <= b}[t.op]
            return more(t) if more else None
        self.S.I.truths = truth

    def hook(self, qual, f):
        def h(I, fn, args, kwargs, node, st):
            self.st = st
            env = I.bind(fn, args, kwargs, node, st)
            if env is None:
                return None
            r = f(env)
            return None if r is None else (r, st)
        self.S.I.hooks[qual] = h

    def svd(self):
        """compute_svd(X, ...) returns the symbols U(X), s(X), V(X)"""
        def f(env):
            parts = [self.fn(n, [env["X"]], k, r) for n, k, r in (("U", 2, False), ("s", 1, True), ("V", 2, False))]
            return None if None in parts else Val({("t", tuple(parts))})
        self.hook("pydmd.utils:compute_svd", f)
        for n in "UsV":
            pass

    def assume(self, obj, name, v):
        for oid in obj.oids():
            self.S.I.assume[oid, name] = v
        return v

    def value(self, src):
        """an ordinary value"""
        node = ast.parse(src, mode="eval").body
        return self.S.run("value", lambda st: self.S.I.ev(node, st))

    def spec(self, src, **names):
        S = self.S
        env = dict(self.env)
        env.update(names)
        node = ast.parse(src, mode="eval").body
        fid = S.fid
        S.st.frames[fid] = dict(S.st.frames[fid], **env)
        self.st = S.st
        v = S.run("formula", lambda st: S.I.ev(node, st))
        if v is None or v.term is None:
            raise ValueError("formula has no value number: " + src)
        return v

    def forms(self, *vals):
        f = self.former()
        return [f.form(v.term) if v is not None and v.term is not None else None for v in vals]

    def compare_terms(self, a, b):
        """are two values the same: True, False or None"""
        if a.term is b.term:
            return True
        fa, fb = self.former(), self.former()
        r = same(fa.form(a.term), fb.form(b.term))
        return None if r is False and (fa.soft != fb.soft or fa.opaque ^ fb.opaque - self.core) else r

    def compare(self, what, got, src, where="", key=None, alts=(), **names):
        """decide whether a result is the formula (or one of the equivalent formulas alts)"""
        ctx = self.ctx
        if alts and got is not None and got.term is not None:
            vals = [self.spec(x, **names) if isinstance(x, str) else x for x in (src, *alts)]
            res = [self.compare_terms(got, v) for v in vals]
            if True in res:
                src = vals[res.index(True)]
            elif None in res:
                src = vals[res.index(None)]
        ctx.obl(1, f"{what} == {src}")
        want = self.spec(src, **names) if isinstance(src, str) else src
        if got is None:
            ctx.undecided.append(f"{what}: raises on every path")
            return None
        if got.term is want.term:
            ctx.count("formulas_equal")
            return True
        fa, fb = self.former(), self.former()
        b = fb.form(want.term)
        if b is None:
            raise ValueError(f"formula has no normal form ({fb.why}): {src}")
        a = fa.form(got.term) if got.term is not None else None
        r = same(a, b)
        if r is False and fa.soft - fb.soft:
            ga, gb = self.former(True), self.former(True)
            if same(ga.form(got.term), gb.form(want.term)) is False and not ga.soft - gb.soft:
                fa.soft = fb.soft          # different whatever the sizes are
        if r is False and fa.soft - fb.soft:
            r = None
            fa.why = "sizes written differently: " + ", ".join(sorted(fa.soft - fb.soft))[:80]
        new = fa.opaque - fb.opaque - self.core
        if r is False and new:
            r = None
            fa.why = "written with other functions: " + ", ".join(sorted(new))[:80]
        if r is None:
            ctx.undecided.append(f"{what}: not comparable ({getattr(fa, 'why', 'no value number')})")
            ctx.count("formulas_undecided")
        elif r:
            ctx.count("formulas_equal")
        else:
            ctx.viol(key or f"formula:{what}", f"{what} is {str(a)[:400]}, documented as {src if isinstance(src, str) else ""} = {str(b)[:400]}", where)
        return r

    def layout(self, what, got, leaves, want, where, key=None):
        """compare the entries of a result, evaluated for small arrays of named entries, with the expected arrangement"""
        ctx = self.ctx
        ctx.obl(1, what)
        if got is None or got.term is None:
            ctx.undecided.append(f"{what}: no value number")
            return
        try:
            r = nd(Layout({v.term: x for v, x in leaves.items()}).of(got.term))
        except NoLayout as e:
            ctx.undecided.append(f"{what}: {e}")
            return
        if r.shape != want.shape or any(c is NAN for c in r.cells) and NAN not in want.cells or r.cells != want.cells:
            ctx.viol(key or what, f"{what}: entries are {r.show()}, expected {want.show()}", where)
