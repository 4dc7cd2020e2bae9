"""Models composed of models (multi-resolution and parametric): the composition is the documented one."""
import ast
import itertools
import re

from engine.axes import Arr, Axes, NoAxes, num
from engine.loader import Module
from engine.scenario import DEFAULT
from engine.vals import NONE, N, T, Term, U, Val, const, subterms
from .c15 import loc, same
from .formula import CORE, Mod

RULE = "value number of the result and of the documented composition of the sub-models' results have the same normal form"
MIN_OBLIGATIONS = 40
ASSUMPTIONS = ["numpy follows its documentation", "floating point arithmetic is treated as exact"]
DB = "pydmd.dmdbase:DMDBase."


RES = (("modes", 2, False), ("dynamics", 2, False), ("eigs", 1, False), ("amplitudes", 1, False), ("reconstructed_data", 2, False),
       ("frequency", 1, True), ("growth_rate", 1, True))
CMP = {"Gt": lambda a, b: a > b, "Lt": lambda a, b: a < b, "GtE": lambda a, b: a >= b, "LtE": lambda a, b: a <= b,
       "Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b}


class Columns:
    """numbers of columns: all of the data, or one part of it"""

    @staticmethod
    def name(txt):
        m = re.match(r"size\((?:@\d+:)?split(\d+)\.(\d+)\.1", txt)
        if m:
            return f"columns {m[2]} of {m[1]}"
        return "columns" if re.match(r"size\((X|reconstructed_data[^(]*\(<X>\)|(@\d+:)?hstack.*),1\)$", txt) else None

    def __contains__(self, txt):
        return self.name(txt) is not None

    def __getitem__(self, txt):
        return self.name(txt)


class Nodes:
    """sub-models as symbols: results are functions of the data a sub-model was last fitted to (and of its origin)"""

    def __init__(self, M, cls):
        self.M, self.cls, self.n = M, cls, 0
        self.data, self.crit, self.tag = {}, {}, {}
        M.hook(cls.find("fit").qual, self.fit)
        for name, nd, real in RES:
            M.hook(DB + name, lambda env, name=name, nd=nd, real=real: self.result(env, name, nd, real))
        M.hook(DB + "fitted", lambda env: const(self.one(env) in self.data) if self.one(env) else None)
        M.hook("pydmd.dmd_modes_tuner:select_modes", self.select)
        M.ext("copy.deepcopy", self.copy)

    def make(self, node, st, tag):
        self.n += 1
        oid = self.M.S.I.alloc(st, "inst", node, self.cls, extra=f"!{self.n}")
        self.tag[oid] = tag
        return Val({("o", oid)})

    def copy(self, I, args, kwargs, node, st):
        ids = args[0].oids()
        if len(ids) == 1 and ids[0] in self.tag:
            return self.make(node, st, self.tag[ids[0]]), st
        return None

    def one(self, env):
        ids = env["self"].oids()
        return ids[0] if len(ids) == 1 and ids[0] in self.tag else None

    def fit(self, env):
        k = self.one(env)
        if k is None:
            return None
        self.data[k] = env["X"]
        self.crit.pop(k, None)
        return env["self"]

    def result(self, env, name, nd, real):
        k = self.one(env)
        if k is None or k not in self.data:
            return None
        return self.M.fn(name + self.tag[k] + ("" if k in self.crit else "*"), [self.data[k]], nd, real)

    def select(self, env):
        M = self.M
        ids = env["dmd"].oids()
        if len(ids) != 1 or ids[0] not in self.data:
            return None
        r, _ = M.S.I.call_val(env["criteria"], [env["dmd"]], {}, M.S.node, M.st)
        self.crit[ids[0]] = r
        return NONE


def enough(t):
    """there are enough snapshots for the requested number of levels"""
    if t.op == "callable" and t.args[0] is T("x", "verif.builder"):
        return True
    if t.op in CMP and len(t.args) == 2:
        n = [x.args[0] if x.op == "c" else 10 ** 6 if any(s.op in ("log", "log2") for s in subterms(x)) else None for x in t.args]
        if all(type(x) is int for x in n):
            return CMP[t.op](*n)
    return None


def lowest(I, args, kwargs, node, st):
    xs = [a for a in args if a.term is not None and a.term.op == "c"]
    logs = [a for a in args if a.term is not None and any(s.op in ("log", "log2") for s in subterms(a.term))]
    return (xs[0], st) if len(args) == 2 and len(xs) == 1 and len(logs) == 1 else None


def tree(ctx, level, cycles, how):
    """an MrDMD object on symbolic sub-models"""
    M = Mod(ctx)
    S = M.S
    M.core = CORE | {"join", "hstack", "vstack", "block_diag"}
    M.dims = Columns()
    S.I.distinct = True
    S.I.truths = enough
    M.ext("builtins.min", lowest)

    def split(I, args, kwargs, node, st):
        a = dict(zip(("ary", "indices_or_sections", "axis"), args))
        a.update(kwargs)
        n, ax = a.get("indices_or_sections"), a.get("axis")
        if any(x is None or x.term is None or x.term.op != "c" for x in (n, ax)):
            return None
        parts = pieces(M, a["ary"], n.term.args[0], ax.term.args[0])
        return None if None in parts else (Val({("t", tuple(parts))}), st)
    M.ext("numpy.array_split", split)
    cls = S.prog.classes["DMD"]
    nodes = Nodes(M, cls)
    if how == "callable":
        def build(I, args, kwargs, node, st):
            k = [a.term.args[0] if a.term is not None and a.term.op == "c" else "?" for a in args]
            return nodes.make(node, st, f"[{','.join(map(str, k))}]"), st
        M.ext("verif.builder", build)
        dmd = Val({("x", "verif.builder")}, (), T("x", "verif.builder"))
    elif how == "instance":
        dmd = S.run("sub-model", lambda st: (nodes.make(S.node, st, ""), st))
    else:
        def several(st):
            return Val({("t", tuple(nodes.make(S.node, st, f"[{i}]") for i in range(level + 1)))}), st
        dmd = S.run("sub-models", several)
    o = S.new("MrDMD", dmd=dmd, max_level=const(level), max_cycles=const(cycles))
    return M, o, nodes


def pieces(M, x, n, axis):
    return [x] if n == 1 else [M.fn(f"split{n}.{i}.{axis}", [x], 2) for i in range(n)]


def mrdmd(ctx, level, cycles, how):
    M, o, nodes = tree(ctx, level, cycles, how)
    S = M.S
    X = M.arr("X")
    S.method(o, "fit", X=X)
    what = f"MrDMD(dmd={how}, max_level={level}, max_cycles={cycles})"
    w = loc(ctx, "MrDMD", "fit")

    def tag(l, i):
        return {"instance": "", "list": f"[{l}]", "callable": f"[{l},{i}]"}[how]

    def res(name, l, i, star=""):
        nd, real = next((n, r) for k, n, r in RES if k == name)
        M.st = S.st
        return M.fn(name + tag(l, i) + star, [data[l, i]], nd, real)

    def join(fn, vals):
        names = {f"v{k}": v for k, v in enumerate(vals)}
        return M.spec(f"{fn}(({', '.join(names)},))", **names) if len(vals) > 1 else vals[0]

    def blocks(vals):
        names = {f"v{k}": v for k, v in enumerate(vals)}
        return M.spec(f"scipy.linalg.block_diag({', '.join(names)})", **names) if len(vals) > 1 else vals[0]
    data, rest, full = {}, X, []
    for l in range(level + 1):
        M.st = S.st
        for i, x in enumerate(pieces(M, rest, 2 ** l, 1)):
            data[l, i] = x
        rec = join("np.hstack", [res("reconstructed_data", l, i) for i in range(2 ** l)])
        full.append(rec)
        rest = M.spec("a - b", a=rest, b=rec)
    # which modes are kept: less than max_cycles oscillations per window
    by = {M.former().form(v.term).__repr__(): k for k, v in nodes.data.items() if v.term is not None}
    for (l, i), x in data.items():
        k = by.get(repr(M.former().form(x.term)))
        ctx.obl(1, f"{what}: node {l},{i} is fitted to its part of the residual")
        if k is None:
            known = all(v.term is not None and M.former().form(v.term) is not None for v in nodes.data.values())
            if known and nodes.data:
                ctx.viol("mrdmd:residual", f"{what}: no sub-model is fitted to bin {i} of level {l} of the residual of the slower levels", w)
            else:
                ctx.undecided.append(f"{what}: data of node {l},{i}")
            continue
        c = nodes.crit.get(k)
        if c is None:
            ctx.viol("mrdmd:slow", f"{what}: the sub-model of bin {i} of level {l} is not restricted to its slow modes", w)
            continue
        t = c.term
        if t is not None and t.op in ("Lt", "Gt", "LtE", "GtE"):
            a, b = t.args if t.op[0] == "L" else t.args[::-1]
            e = res("eigs", l, i, "*")
            M.compare(f"{what}: rate compared at node {l},{i}", e.with_(term=a), "abs(np.log(e))", w, key="mrdmd:rate", e=e)
            M.compare(f"{what}: largest rate at node {l},{i}", e.with_(term=b), f"{cycles} / x.shape[1] * 2 * np.pi", w,
                      key="mrdmd:cutoff", x=x)
            ctx.obl(1, f"{what}: slow modes are the ones below the cutoff")
        else:
            ctx.undecided.append(f"{what}: criterion of node {l},{i}")
    mk = {"modes": lambda v: join("np.hstack", v), "eigs": lambda v: join("np.concatenate", v), "amplitudes": lambda v: join("np.concatenate", v),
          "dynamics": blocks}
    levels = {n: [] for n in mk}
    for l in range(level + 1):
        each = {n: [res(n, l, i) for i in range(2 ** l)] for n in mk}
        for n in mk:
            want = mk[n](each[n])
            levels[n].append(want)
            f = "partial_" + n
            M.compare(f"{what}: {f}({l})", S.method(o, f, level=const(l), node=NONE), want, loc(ctx, "MrDMD", f), key=f"mrdmd:{f}")
            for i in range(2 ** l):
                M.compare(f"{what}: {f}({l}, {i})", S.method(o, f, level=const(l), node=const(i)), each[n][i], loc(ctx, "MrDMD", f), key=f"mrdmd:{f}:node")
        f = "partial_reconstructed_data"
        M.compare(f"{what}: {f}({l})", S.method(o, f, level=const(l), node=NONE), "m @ d", loc(ctx, "MrDMD", f), key=f"mrdmd:{f}",
                  m=levels["modes"][l], d=levels["dynamics"][l])
        for i in range(2 ** l):
            M.compare(f"{what}: {f}({l}, {i})", S.method(o, f, level=const(l), node=const(i)), "m @ d", loc(ctx, "MrDMD", f), key=f"mrdmd:{f}:node",
                      m=each["modes"][i], d=each["dynamics"][i])
            v = S.method(o, "partial_time_interval", level=const(l), leaf=const(i))
            for key, src in (("t0", f"x.shape[1] * {i} / {2 ** l}"), ("tend", f"x.shape[1] * {i + 1} / {2 ** l}"), ("delta", f"x.shape[1] / {2 ** l}")):
                if v is not None:
                    M.compare(f"{what}: partial_time_interval({l}, {i})[{key!r}]", S.sub(v, const(key)), src,
                              loc(ctx, "MrDMD", "partial_time_interval"), key="mrdmd:interval:" + key, x=X)
    table = [("modes", join("np.hstack", levels["modes"])), ("eigs", join("np.concatenate", levels["eigs"])),
             ("amplitudes", join("np.concatenate", levels["amplitudes"])), ("dynamics", join("np.vstack", levels["dynamics"]))]
    total = full[0]
    for r in full[1:]:
        total = M.spec("a + b", a=total, b=r)
    table.append(("reconstructed_data", total))
    for n, want in table:
        M.compare(f"{what}: {n}", S.get(o, n), want, loc(ctx, "MrDMD", n), key="mrdmd:" + n)
    # windows
    pick = [(0, 0), (level, 0), (level, 2 ** level - 1)][:1 if level == 0 else 3]
    bins = Val({("t", tuple(Val({("t", (const(a), const(b)))}) for a, b in pick))})
    M.hook("pydmd.mrdmd:MrDMD.time_window_bins", lambda env: bins)
    for n in ("eigs", "frequency", "growth_rate", "amplitudes"):
        f = "time_window_" + n
        got = S.method(o, f, t0=M.arr("ta", 0, True), tend=M.arr("tb", 0, True))
        M.compare(f"{what}: {f}", got, join("np.concatenate", [res(n, *p) for p in pick]), loc(ctx, "MrDMD", f), key=f"mrdmd:{f}")
    ctx.absorb(S)


def orders():
    """positions of a window [a, b] relative to a bin [lo, hi]"""
    seen = set()
    for lo, hi, a, b in itertools.product(range(4), repeat=4):
        if lo < hi and a < b:
            ranks = sorted({lo, hi, a, b})
            k = tuple(ranks.index(x) for x in (lo, hi, a, b))
            if k not in seen:
                seen.add(k)
                yield dict(zip(("lo", "hi", "ta", "tb"), k))


def bins(ctx):
    """time_window_bins: exactly the bins that share more than a point with the window"""
    n = 0
    for pos in orders():
        n += 1
        M, o, nodes = tree(ctx, 0, 1, "instance")
        S = M.S
        for k in ("lo", "hi", "ta", "tb"):
            M.arr(k, 0, True)
        where = {M.env[k].term: v for k, v in pos.items()}

        def interval(env):
            oid = S.I.alloc(M.st, "dict", S.node, extra="interval", fields={
                "k:'t0'": M.env["lo"], "k:'tend'": M.env["hi"], "k:'delta'": M.spec_delta})
            return Val({("o", oid)})
        M.spec_delta = M.spec("hi - lo")
        M.hook("pydmd.mrdmd:MrDMD.partial_time_interval", interval)
        S.I.truths = lambda t: CMP[t.op](where[t.args[0]], where[t.args[1]]) if t.op in CMP and len(t.args) == 2 and \
            all(x in where for x in t.args) else None
        seen = []

        def unique(I, args, kwargs, node, st):
            seen.append(I.seq_elems(args[0], st))
            return None
        M.ext("numpy.unique", unique)
        r = S.method(o, "time_window_bins", t0=M.env["ta"], tend=M.env["tb"])
        got = seen[-1] if seen else None
        if not seen and r is not None:
            got = S.run("bins", lambda st: (Val({("t", tuple(S.I.seq_elems(r, st) or ()))}) if S.I.seq_elems(r, st) is not None else NONE, st))
            got = None if got is NONE else list(next(iter(got.atoms))[1])
        want = pos["ta"] < pos["hi"] and pos["lo"] < pos["tb"]
        ctx.obl(1, f"bin selected iff it overlaps: {pos}")
        if got is None:
            ctx.undecided.append(f"time_window_bins: {pos}")
        elif bool(got) != want:
            ctx.viol("mrdmd:bins", f"time_window_bins: a bin [lo, hi] and a window [t0, tend] ordered as {pos}: the bin is "
                     f"{'selected' if got else 'not selected'}", loc(ctx, "MrDMD", "time_window_bins"))
        ctx.absorb(S)
    ctx.count("interval_orders", n)


STUBS = """
class Pod:
    def fit(self, X):
        self.X = X
        return self
    def reduce(self, X): pass
    def expand(self, X): pass

class Approx:
    def fit(self, x, y):
        self.x = x
        self.y = y
        return self
    def predict(self, x): pass

class Sub:
    def __init__(self, n):
        self.n = n
        self.dmd_time = None
    def fit(self, X, *args, **kwargs):
        self.X = X
        return self
    @property
    def reconstructed_data(self): pass
"""
ST = "verif.stubs:"


def stubs(prog):
    if "verif.stubs" not in prog.modules:
        m = Module("verif.stubs", "stubs", "stubs.py", ast.parse(STUBS), False)
        prog.modules["verif.stubs"] = m
        prog._scan(m)
        for c in ("Pod", "Approx", "Sub"):
            prog.classes[c].mro = prog._mro(prog.classes[c])


class Param(Axes):
    """meaning of the axes in ParametricDMD"""

    def together(self, xs):
        xs = [self.of(x) for x in xs]
        if any(x.pending or x.axes != xs[0].axes for x in xs):
            raise NoAxes("different parts")
        return ("mu",), ("parameters", *[x.content for x in xs]), xs[0].axes

    def o_part(self, x, i):
        x = self.of(x)
        a = x.axes
        if len(a) == 2 and a[1][:1] == ("mu",):
            return Arr([a[0], a[1][1:]], ("part", i.args[0], x.content))
        return Arr([("?",)] * 2, ("scrambled", i.args[0], x.content))

    def o_piece(self, x, i):
        return Arr([("?",)] * 2, ("scrambled", i.args[0], self.of(x).content))

    def o_reduce(self, f, x):
        f, x = self.of(f), self.of(x)
        if len(x.axes) != 2:
            raise NoAxes("reduce")
        return Arr([("r",) if x.axes[0] == ("s",) else ("?",), x.axes[1]], ("reduce", repr(f), x.content))

    def o_rec(self, x, n, time):
        x = self.of(x)
        if len(x.axes) != 2:
            raise NoAxes("data")
        return Arr([x.axes[0], ("T",) if x.axes[1] == ("t",) else ("?",)], ("forecast", n.args[0], str(time), x.content))

    def o_interp(self, p, y, q):
        y = self.of(y)
        if len(y.axes) != 2:
            raise NoAxes("interpolation")
        good = y.axes[0] == ("mu",)
        return Arr([("q",), y.axes[1]] if good else [("?",)] * 2, ("interpolate", str(p), str(q), y.content), y.pending)

    def o_expand(self, axis, x):
        x = self.of(x)
        a = list(x.axes)
        k = num(axis)
        a[k] = ("s",) if a[k] == ("r",) else ("?",)
        return Arr(a, ("expand", x.content), x.pending)


def parametric(ctx, partitioned, twice):
    stubs(ctx.prog)
    M = Mod(ctx)
    S = M.S
    S.I.distinct = True
    X, P, Q = M.arr("X", 3), M.arr("P", 2, True), M.arr("Q", 2, True)
    P2, X0, Q2 = M.arr("P0", 2, True), M.arr("X0", 3), M.arr("Q2", 2, True)
    nd = {X.term: 3, P.term: 2, Q.term: 2, Q2.term: 2, X0.term: 3, P2.term: 2}

    def size(t):
        return t.op in ("len", "shape") or t.op in ("idx", "get") and t.args[0].op == "shape"

    def truth(t):
        if t.op in CMP and len(t.args) == 2:
            a, b = t.args
            if a.op == "ndim" and a.args[0] in nd and b.op == "c":
                return CMP[t.op](nd[a.args[0]], b.args[0])
            if size(a) and size(b):
                return t.op in ("Eq", "LtE", "GtE")
            if (size(a) or size(b)) and (a if b is T("c", 0) else b) is not T("c", 0):
                n = {T("c", 2): True}
                if a in n or b in n:
                    return t.op in ("Eq", "LtE", "GtE")
            if size(a) and b is T("c", 0):
                return t.op in ("NotEq", "Gt", "GtE")
        return True if size(t) else None
    S.I.truths = truth
    sub = [S.new("Sub", f"sub{k}", n=const(k)) for k in range(2 if partitioned else 1)]
    pod, approx = S.new("Pod", "pod"), S.new("Approx", "approx")

    def load(v, name):
        r, _ = S.I.load_attr(v, name, S.node, M.st)
        return r

    def sym(op, *terms):
        if any(x is None for x in terms):
            return None
        return S.I.fresh(M.st, S.node, frozenset(), T(op, *terms), "C", extra=str(T(op, *terms).id))
    M.hook(ST + "Pod.reduce", lambda env: sym("reduce", load(env["self"], "X").term, env["X"].term))
    M.hook(ST + "Approx.predict", lambda env: sym("interp", load(env["self"], "x").term, load(env["self"], "y").term, env["x"].term))
    M.hook(ST + "Sub.reconstructed_data", lambda env: sym("rec", load(env["self"], "X").term, load(env["self"], "n").term,
                                                         load(env["self"], "dmd_time").term))

    def split(I, args, kwargs, node, st):
        a = dict(zip(("ary", "indices_or_sections", "axis"), args))
        a.update(kwargs)
        n, ax, x = a["indices_or_sections"].term, a.get("axis"), a["ary"].term
        if None in (n, x) or not (size(n) or n is T("c", 2)) or ax is not None and ax.term not in (T("c", 0), T("c", 1)):
            return None
        try:
            good = ax is not None and ax.term is T("c", 1) and (not size(n) or rd.size(n) == ("mu",))
        except NoAxes:
            return None
        M.st = st
        p = [sym("part" if good else "piece", x, T("c", k)) for k in range(2)]
        return I.mk_list(p, node, st), st
    M.ext("numpy.split", split)
    M.ext("numpy.array_split", split)

    def along(I, args, kwargs, node, st):
        a = dict(zip(("func1d", "axis", "arr"), args))
        a.update(kwargs)
        f = [x for x in a["func1d"].atoms if x[0] == "b" and getattr(x[2], "qual", "") == ST + "Pod.expand"]
        if len(f) != 1 or a["arr"].term is None or a["axis"].term is None:
            return None
        M.st = st
        return sym("expand", a["axis"].term, a["arr"].term), st
    M.ext("numpy.apply_along_axis", along)
    leaves = {X.term.id: Arr([("mu",), ("s",), ("t",)], "X"), X0.term.id: Arr([("mu",), ("s",), ("t",)], "X0"),
              P.term.id: Arr([("mu",), ("k",)], "P"), Q.term.id: Arr([("q",), ("k",)], "Q"),
              Q2.term.id: Arr([("q",), ("k",)], "Q2")}
    rd = Param(leaves, {})
    dmd = S.run("models", lambda st: (S.I.mk_list(sub, S.node, st), st)) if partitioned else sub[0]
    o = S.new("ParametricDMD", dmd=dmd, spatial_pod=pod, approximation=approx, light=const(False), dmd_fit_args=NONE, dmd_fit_kwargs=NONE)
    if twice:
        S.method(o, "fit", "fit0", X=X0, training_parameters=P2)
    S.method(o, "fit", X=X, training_parameters=P)
    w = {n: loc(ctx, "ParametricDMD", n) for n in ("fit", "training_modal_coefficients", "forecasted_modal_coefficients",
                                                  "interpolated_modal_coefficients", "reconstructed_data")}
    coef = ("reduce", repr(Arr([("s",), ("mu", "t")], "X")), "X")
    parts = [("part", k, coef) for k in range(2)]
    train = ("parameters", *parts)

    def ask(what, time, Q):
        ts = str(time.term)
        fore = ("parameters", *[("forecast", k, ts, p) for k, p in enumerate(parts)]) if partitioned else ("forecast", 0, ts, train)
        inter = ("interpolate", str(P.term), str(Q.term), fore)
        want = [("training_modal_coefficients", Arr([("mu",), ("r",), ("t",)], train)),
                ("forecasted_modal_coefficients", Arr([("mu",), ("r",), ("T",)], fore)),
                ("interpolated_modal_coefficients", Arr([("q",), ("r",), ("T",)], inter)),
                ("reconstructed_data", Arr([("q",), ("s",), ("T",)], ("expand", inter)))]
        for n, x in want:
            ctx.obl(1, f"{what}: {n} is {x}")
            v = S.get(o, n)
            if v is None or v.term is None:
                ctx.undecided.append(f"{what}: {n}: no value number")
                continue
            try:
                got = rd.of(v.term)
            except (NoAxes, IndexError, TypeError, AttributeError) as e:
                ctx.undecided.append(f"{what}: {n}: {e}")
                continue
            if got == x:
                ctx.count("arrangements_equal")
            else:
                ctx.viol(f"parametric:{n}", f"{what}: {n} is {got}, documented as {x}", w[n])
    what = f"ParametricDMD({'partitioned' if partitioned else 'monolithic'}{', refitted' if twice else ''})"
    time = M.arr("times", 1, True)
    S.set(o, "dmd_time", time)
    S.set(o, "parameters", Q)
    ask(what, time, Q)
    S.set(o, "parameters", Q2)
    ask(what + " after a change of parameters", time, Q2)
    time = M.arr("times2", 1, True)
    S.set(o, "dmd_time", time)
    ask(what + " after a change of dmd_time", time, Q2)
    ctx.absorb(S)


def run(ctx):
    tasks = [("bins", bins)]
    for level in range(3):
        for how in ("instance", "list", "callable"):
            tasks.append((f"MrDMD level {level} {how}", mrdmd, level, 1 if level != 1 else 3, how))
    for part in (False, True):
        for twice in (False, True):
            tasks.append((f"ParametricDMD {part} {twice}", parametric, part, twice))
    ctx.pmap(tasks)
