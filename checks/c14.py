"""Mode selection.  Every model is fitted with symbolic modes, eigenvalues and amplitudes; what it publishes after sequences of mask
changes, edits of the published arrays, d[key], select_modes / stabilize_modes and refits is compared with the selection of the
symbols by the documented mask."""
import ast

from engine.layout import Layout, Nd
from engine.scenario import DEFAULT, fit, make
from engine.vals import NONE, N, T, U, Val, const, subterms
from .c05 import base
from .formula import CORE, Mod, many

RULE = "value number of the selected quantity equals the selection, by one and the same mask, of the quantity before the selection"
MIN_OBLIGATIONS = 100
ASSUMPTIONS = ["numpy follows its documentation"]
FAMILY = ["DMD", "FbDMD", "SpDMD", "EDMD", "PiDMD", "CDMD", "RDMD", "SubspaceDMD", "HankelDMD", "HODMD", "DMDc", "BOPDMD", "VarProDMD"]
MT = "pydmd.dmd_modes_tuner"
Q = (("modes", 2, "[:, {m}]"), ("eigs", 1, "[{m}]"), ("amplitudes", 1, "[{m}]"))


def loc(ctx, c, m):
    f = ctx.prog.classes[c].find(m)
    return f"{f.module.relpath}:{f.node.lineno} in {c}.{m}" if f else c


def start(ctx, c):
    """a fitted model of class c whose modes, eigenvalues and amplitudes are symbols"""
    M, kw = base(ctx, c, **({"manifold": "unitary"} if c == "PiDMD" else {}))
    S = M.S
    o = S.new(c, **kw)
    f = ctx.prog.classes[c].find("fit")
    names = f.params()[0]
    args = {n: M.arr(n, 1 if n in ("time", "t") else 2) for n in ("X", "I", "time") if n in names}
    M.arr("Phi"), M.arr("w", 1), M.arr("b", 1)
    if c == "SpDMD":
        M.assume(o, "_b", M.env["b"])
        op = S.get(o, "operator")
        M.assume(op, "modes", M.env["Phi"])
        M.assume(op, "eigenvalues", M.env["w"])
    S.method(o, "fit", **args)
    M.fit_args = args
    M.core = CORE | {"mask"}
    M.st = S.st
    op = S.get(o, "operator")
    if op is not None:
        M.assume(op, "modes", M.env["Phi"])
        M.assume(op, "eigenvalues", M.env["w"])
    for x in holders(S, o):
        M.assume(x, "_b", M.env["b"])
    full = {}
    for q, nd, _ in Q:
        v = S.get(o, q)
        if v is None or v.term is None:
            ctx.undecided.append(f"{c}.{q} has no value number after fit")
            return M, o, None
        if M.forms(v)[0] is None:
            M.declare(v.term, q, nd)
        full[q] = v
    return M, o, full


def holders(S, o):
    """the model and the models inside it"""
    seen, todo = [], [o]
    while todo:
        x = todo.pop()
        for oid in x.oids():
            ob = S.I.objs[oid]
            if ob.kind != "inst" or oid in [k for k, _ in seen]:
                continue
            v = Val({("o", oid)})
            seen.append((oid, v))
            for n, w in S.st.heap.get(oid, {}).items():
                if isinstance(w, Val) and any(S.I.objs[k].kind == "inst" for k in w.oids()):
                    todo.append(w)
    return [v for _, v in seen]


def upd(S, v, index, value):
    """v after  v[index] = value"""
    return v.with_(term=T("upd", v.term, index.term, value.term))


def same(M, c, o, what, want, where, key):
    for q, nd, sel in Q:
        M.compare(f"{c}.{q} {what}", M.S.get(o, q), want[q], where, key=f"{key}:{q}")


def pick(M, full, m):
    return {q: M.spec(f"v{sel.format(m='mask')}", v=full[q], mask=m) for q, _, sel in Q}


def quant(t):
    """the masks of the scenarios are different, select some modes and leave some out; only the full mask selects all"""
    def sym(x):
        return [y for y in subterms(x) if y.op == "p" and y.args[0] in ("m1", "m2")]
    if t.op in ("all", "any") and len(t.args) == 1:
        a = t.args[0]
        if a.op == "p" and sym(a):
            return t.op == "any"
        if a.op in ("ones", "full") and not sym(a):
            return True
    if t.op == "array_equal" and len(t.args) == 2 and any(sym(x) for x in t.args):
        return t.args[0] is t.args[1]
    return None


def masks(ctx, c):
    """one mask selects modes, eigenvalues and amplitudes; another mask applies to everything that was computed"""
    M, o, full = start(ctx, c)
    if full is None:
        return
    S = M.S
    w = loc(ctx, c, "modes_activation_bitmask")
    S.I.truths = quant
    m1, m2 = M.arr("m1", 1, True), M.arr("m2", 1, True)
    S.set(o, "modes_activation_bitmask", m1)
    same(M, c, o, "after a mask is set", pick(M, full, m1), w, "mask")
    M.compare(f"{c}.modes_activation_bitmask", S.get(o, "modes_activation_bitmask"), m1, w, key="mask:bitmask")
    S.set(o, "modes_activation_bitmask", m2)
    same(M, c, o, "after a second mask is set", pick(M, full, m2), w, "mask2")
    S.set(o, "modes_activation_bitmask", M.spec("np.full(len(w), True)"))
    same(M, c, o, "after all modes are activated again", full, w, "all")
    S.set(o, "modes_activation_bitmask", m1)
    S.method(o, "fit", label="refit", **M.fit_args)
    same(M, c, o, "after another fit", full, w, "refit")
    ctx.absorb(S)


def edits(ctx, c, q):
    """changes a caller makes to the published arrays survive changes of the mask"""
    M, o, full = start(ctx, c)
    if full is None:
        return
    S = M.S
    w = loc(ctx, c, "modes_activation_bitmask")
    S.I.truths = quant
    m1, m2, x, y = M.arr("m1", 1, True), M.arr("m2", 1, True), M.arr("x", 0), M.arr("y", 0)
    ix = const(0) if q != "modes" else Val({("t", (const(0), const(1)))}, term=T("tuple", T("c", 0), T("c", 1)))

    def edit(v, tag):
        a = S.get(o, q, label=f"{q}{tag}")
        S.run(f"{q}[...] = value{tag}", lambda st: (NONE, S.I.store_sub(a, ix, v, S.node, st)))
    edit(x, "@1")
    now = dict(full)
    now[q] = upd(S, full[q], ix, x)
    same(M, c, o, f"after {q} was changed by the caller", now, w, "edit")
    S.set(o, "modes_activation_bitmask", m1)
    part = pick(M, now, m1)
    same(M, c, o, f"after {q} was changed by the caller and a mask set", part, w, "edit-mask")
    edit(y, "@2")
    part[q] = upd(S, part[q], ix, y)
    same(M, c, o, f"after {q} was changed by the caller under a mask", part, w, "mask-edit")
    S.set(o, "modes_activation_bitmask", m1)
    same(M, c, o, f"after {q} was changed by the caller under a mask and the same mask set again", part, w, "mask-edit-same")
    sel = m1 if q != "modes" else Val({U}, term=T("tuple", M.spec("slice(None, None, None)").term, m1.term))
    now[q] = upd(S, now[q], sel, part[q])
    S.set(o, "modes_activation_bitmask", m2)
    same(M, c, o, f"after {q} was changed by the caller under a mask and another mask set", pick(M, now, m2), w, "mask-edit-mask")
    ctx.absorb(S)


def getitem(ctx, c, key):
    """d[key] is restricted to the modes in key, d is not"""
    M, o, full = start(ctx, c)
    if full is None:
        return
    S = M.S
    w = loc(ctx, c, "__getitem__")
    k = {"int": const(1), "slice": M.spec("slice(0, 3, None)"), "mask": M.arr("k", 1, True)}[key]
    r = S.run(f"d[{key}]", lambda st: S.I.load_sub(o, k, S.node, st))
    if r is None:
        ctx.undecided.append(f"{c}[{key}] raises on every path")
        return
    only = Val({U}, term=T("only", k.term))
    same(M, c, r, f"of d[{key}]", pick(M, full, only), w, "getitem")
    same(M, c, o, f"of d after d[{key}]", full, w, "getitem-original")
    ctx.absorb(S)


def some(t):
    """the criterion cuts some modes and keeps some"""
    if t.op in ("Lt", "Gt", "NotEq", "Eq", "GtE", "LtE") and len(t.args) == 2 and \
            any(x.op == "p" and x.args[0] == "crit" for x in subterms(t)):
        k = many(t)
        if k is not None:
            return k
    if t.op in ("len", "size", "any") and any(x.op == "p" and x.args[0] == "crit" for x in subterms(t)):
        return True
    return None


def criterion(M):
    M.arr("crit", 1, True)
    M.spec("crit")
    return M.S.run("criterion", lambda st: M.S.I.ev(ast.parse("lambda dmd: crit", mode="eval").body, st))


def select(ctx, c, nullify, masked, via):
    """exactly the active modes for which the criterion is true stay (or keep their amplitude)"""
    M, o, full = start(ctx, c)
    if full is None:
        return
    S = M.S
    k = criterion(M)
    crit = M.env["crit"]
    m1, m2 = M.arr("m1", 1, True), M.arr("m2", 1, True)
    now = full
    if masked:
        S.set(o, "modes_activation_bitmask", m1)
        now = pick(M, full, m1)
    S.I.truths = some
    target = o
    opts = {"nullify_amplitudes": DEFAULT if nullify is None else const(nullify)}
    what = f"select_modes(nullify_amplitudes={nullify}{', some modes inactive' if masked else ''}{', ' + via if via else ''})"
    if via == "tuner":
        t = S.new("ModesTuner", dmds=o, in_place=const(True))
        S.method(t, "select", criteria=k, **opts)
    elif via == "copy":
        target = S.func(MT, "select_modes", dmd=o, criteria=k, in_place=const(False), return_indexes=const(False), **opts)
    else:
        S.func(MT, "select_modes", dmd=o, criteria=k, in_place=const(True), return_indexes=const(False), **opts)
    if target is None:
        ctx.undecided.append(f"{what} raises on every path")
        return
    f = ctx.prog.resolve(ctx.prog.modules[MT], "select_modes")[1]
    w = f"{f.module.relpath}:{f.node.lineno} in select_modes"
    key = f"select:{nullify}:{masked}:{via}"
    if nullify:
        want = dict(now)
        want["amplitudes"] = upd(S, now["amplitudes"], M.spec("~crit"), const(0))
    else:
        want = pick(M, now, crit)
    same(M, c, target, what, want, w, key)
    if via == "copy":
        same(M, c, o, "of the model given to " + what, now, w, key + ":original")
        S.I.truths = None
        return
    if not nullify and via != "tuner":
        # nothing is lost
        S.I.truths = None
        S.set(o, "modes_activation_bitmask", m2)
        same(M, c, o, "with another mask after " + what, pick(M, full, m2), w, key + ":restored")
    ctx.absorb(S)


def stabilize(ctx, c, via):
    M, o, full = start(ctx, c)
    if full is None:
        return
    S = M.S
    ri, ro = M.arr("ri", 0, True), M.arr("ro", 0, True)
    target = o
    if via == "tuner":
        t = S.new("ModesTuner", dmds=o, in_place=const(True))
        S.method(t, "stabilize", inner_radius=ri, outer_radius=ro)
    else:
        target = S.func(MT, "stabilize_modes", dmd=o, inner_radius=ri, outer_radius=ro, in_place=const(via != "copy"),
                        return_indexes=const(False))
    if target is None:
        ctx.undecided.append("stabilize_modes raises on every path")
        return
    f = ctx.prog.resolve(ctx.prog.modules[MT], "stabilize_modes")[1]
    w = f"{f.module.relpath}:{f.node.lineno} in stabilize_modes"
    e, b = full["eigs"], full["amplitudes"]
    ring = M.spec("np.logical_and(ri < np.abs(e), np.abs(e) < ro)", e=e)
    want = dict(full)
    want["eigs"] = upd(S, e, ring, M.spec("e[ring] / np.abs(e[ring])", e=e, ring=ring))
    want["amplitudes"] = upd(S, b, ring, M.spec("b[ring] * np.abs(e[ring])", e=e, b=b, ring=ring))
    same(M, c, target, f"stabilize_modes({via})", want, w, f"stabilize:{via}")
    if via == "copy":
        same(M, c, o, "of the model given to stabilize_modes(in_place=False)", full, w, "stabilize-original")
    ctx.absorb(S)


def criteria(ctx, name):
    """the predefined criteria"""
    M, o, full = start(ctx, "DMD")
    S = M.S
    lo, hi = M.arr("lo", 0, True), M.arr("hi", 0, True)
    cls = ctx.prog.resolve(ctx.prog.modules[MT], "ModesSelectors")[1]
    args = {"threshold": dict(low_threshold=lo, up_threshold=hi),
            "stable_modes": dict(max_distance_from_unity_inside=lo, max_distance_from_unity_outside=hi),
            "stable_modes both": dict(max_distance_from_unity=lo)}[name]
    want = {"threshold": "np.logical_and(np.abs(e) < hi, np.abs(e) > lo)",
            "stable_modes": "np.logical_and(np.abs(e) < 1 + hi, np.abs(e) > 1 - lo)",
            "stable_modes both": "np.logical_and(np.abs(e) < 1 + lo, np.abs(e) > 1 - lo)"}[name]

    def call(st):
        f, st = S.I.load_attr(Val({("k", cls)}), name.split()[0], S.node, st)
        k, st = S.I.call_val(f, [], args, S.node, st)
        return S.I.call_val(k, [o], {}, S.node, st)
    S.I.truths = lambda t: True if t in (lo.term, hi.term) else False if t.op in ("Eq",) and t.args[1].op == "c" else None
    r = S.run(name, call)
    f = cls.find(name.split()[0])
    M.compare(f"criterion {name}", r and M.spec("e[r]", e=full["eigs"], r=r), M.spec("e[m]", e=full["eigs"], m=M.spec(want, e=full["eigs"])),
              f"{f.module.relpath}:{f.node.lineno} in ModesSelectors.{name.split()[0]}", key=f"criterion:{name}")
    ctx.absorb(S)


def contribution(ctx, n):
    """integral_contribution(n): the n modes with the highest  ||mode||^2 sum |dynamic|  over the original time window"""
    M, o, full = start(ctx, "DMD")
    S = M.S
    PHI, DYN = M.arr("PHI", real=True), M.arr("DYN", real=True)
    M.assume(o, "modes", PHI)
    M.assume(o, "dynamics", DYN)
    modes = Nd((2, 3), [3, 0, 0, 4, 1, 2])           # norms 5, 1, 2
    dyn = Nd((3, 2), [-1, 1, 15, 15, 11, -1])        # contributions 50, 30, 48
    S.I.sizes = Layout({PHI.term: modes, DYN.term: dyn})
    cls = ctx.prog.resolve(ctx.prog.modules[MT], "ModesSelectors")[1]

    def call(st):
        f, st = S.I.load_attr(Val({("k", cls)}), "integral_contribution", S.node, st)
        k, st = S.I.call_val(f, [], {"n": const(n)}, S.node, st)
        return S.I.call_val(k, [o], {}, S.node, st)
    r = S.run("integral_contribution", call)
    f = cls.find("integral_contribution")
    best = [0, 2, 1][:n]
    M.layout(f"criterion integral_contribution(n={n}) for contributions 50, 30, 48", r, {PHI: modes, DYN: dyn},
             Nd((3,), [i in best for i in range(3)]), f"{f.module.relpath}:{f.node.lineno} in ModesSelectors.integral_contribution",
             key=f"criterion:integral_contribution:{n}")
    ctx.absorb(S)


def run(ctx):
    tasks = [(c, masks, c) for c in FAMILY]
    tasks += [(f"{c} {q}", edits, c, q) for c in FAMILY for q, _, _ in Q]
    tasks += [(f"{c}[{k}]", getitem, c, k) for c in FAMILY if c not in ("HankelDMD", "HODMD") for k in ("int", "slice", "mask")]
    tasks += [(f"select {c}", select, c, n, m, v) for c in FAMILY for n in (None, False, True) for m in (False, True)
              for v in ("", "tuner", "copy")]
    tasks += [(f"stabilize {c}", stabilize, c, v) for c in FAMILY for v in ("", "tuner", "copy")]
    tasks += [(f"criterion {n}", criteria, n) for n in ("threshold", "stable_modes", "stable_modes both")]
    tasks += [("criterion integral_contribution", contribution, n) for n in (1, 2)]
    ctx.pmap(tasks)
