"""The linear-operator decompositions are computed by their documented formulas.  Every public class of the family is interpreted
abstractly on symbolic snapshots, for every combination of the switches that select a formula; the value number of each result is
brought to linear-algebra normal form (engine/words.py) and compared with the documented formula, evaluated the same way.
compute_svd, compute_tlsq, compute_rqb and pseudo_hankel_matrix are taken as symbols here (C06 decides them)."""
from engine.layout import Layout, Nd, NoLayout, data
from engine.scenario import DEFAULT
from engine.vals import NONE, N, T, Val, const
from .formula import Mod

RULE = "value number of the result and of the documented formula have the same linear-algebra normal form"
MIN_OBLIGATIONS = 150
ASSUMPTIONS = ["numpy / scipy linear algebra follows its documentation", "floating point arithmetic is treated as exact",
               "scaling factors of rescale_mode are nonzero"]
OFF = dict(svd_rank=3, tlsq_rank=0, opt=False, exact=False, forward_backward=False, sorted_eigs=False, rescale_mode=None,
           tikhonov_regularization=None)


def base(ctx, c, **opts):
    """a model of class c with the given option values, symbolic snapshots and a symbolic time grid"""
    M = Mod(ctx)
    S = M.S
    M.arr("X")
    M.svd()
    M.hook("pydmd.utils:compute_tlsq", lambda env: tl(M, env))
    S.I.truths = nonzero
    S.I.skip_store = zeros
    init = S.prog.classes[c].find("__init__")
    pos = init.params()[0] + init.params()[2]
    kw = {k: const(v) for k, v in OFF.items() if k in pos}
    for k, v in opts.items():
        if k in pos:
            kw[k] = v if isinstance(v, Val) or v is DEFAULT else const(v)
    for p in pos[1:]:
        if p not in kw:
            kw[p] = DEFAULT
    return M, kw


def zeros(t):
    """positions of the zeros among them"""
    if t.op in ("where", "nonzero", "flatnonzero", "getitem", "tuple", "sub") and t.args:
        return hasattr(t.args[0], "op") and zeros(t.args[0])
    return t.op == "Eq" and any(x.op == "c" and x.args[-1] == 0 for x in t.args)


def nonzero(t):
    """no element of a real array (singular values, scaling factors) is zero"""
    if t.op in ("Eq", "NotEq") and len(t.args) == 2:
        a, b = t.args
        if a is T("c", 0):
            a, b = b, a
        if b in (T("c", 0), T("c", 0.0)) and a.op in ("elem", "item"):
            return t.op == "NotEq"
    return None


def tl(M, env):
    rk = env["tlsq_rank"]
    if rk.term is T("c", 0):
        return Val({("t", (env["X"], env["Y"]))})
    a = M.fn("tlsqX", [env["X"], env["Y"]], 2)
    b = M.fn("tlsqY", [env["X"], env["Y"]], 2)
    return None if a is None or b is None else Val({("t", (a, b))})


def loc(ctx, c, m):
    f = ctx.prog.classes[c].find(m)
    return f"{f.module.relpath}:{f.node.lineno} in {c}.{m}"


def usv(M, x, names="U s V"):
    M.st = M.S.st
    return dict(zip(names.split(), (M.fn("U", [x], 2), M.fn("s", [x], 1, True), M.fn("V", [x], 2))))


def operator_spec(M, X1, Y1, tik=None, fb=False, rm=None, exact=False, Yfull=None):
    """(Atilde, eigenvalues, modes) of the standard formulas"""
    E = usv(M, X1)
    E.update(usv(M, Y1, "bU bs bV"))
    E.update(X1=X1, Y1=Y1, Yf=Yfull if Yfull is not None else Y1)
    if tik:
        E["sig"] = M.spec("(s**2 + tik * np.linalg.norm(X1)) / s", **E)
        E["bsig"] = M.spec("(bs**2 + tik * np.linalg.norm(X1)) / bs", **E)
    else:
        E["sig"], E["bsig"] = E["s"], E["bs"]
    E["At"] = M.spec("(U.conj().T @ Y1 @ V) / sig", **E)
    if fb:
        E["Ab"] = M.spec("(bU.conj().T @ X1 @ bV) / bsig", **E)
        E["At"] = M.spec("scipy.linalg.sqrtm(At @ np.linalg.inv(Ab))", **E)
    if rm is not None:
        E["rm"] = E["s"] if rm == "auto" else rm
        E["Ah"] = M.spec("np.diag(rm**-0.5) @ At @ np.diag(rm**0.5)", **E)
    else:
        E["Ah"] = E["At"]
    E["W"] = M.spec("np.linalg.eig(Ah)[1]", **E)
    E["Wm"] = M.spec("np.diag(rm**0.5) @ W", **E) if rm is not None else E["W"]
    E["w"] = M.spec("np.linalg.eig(Ah)[0]", **E)
    E["modes"] = M.spec("(Yf @ V / sig) @ Wm" if exact else "U @ Wm", **E)
    return E


def results(ctx, M, o, c, what, E, amp=None):
    S = M.S
    for q, src in (("modes", "modes"), ("eigs", "w")):
        M.compare(f"{what}: {q}", S.get(o, q), E[src], loc(ctx, c, "fit"), key=f"formula:{what}:{q}")
    op = S.get(o, "operator")
    if op is not None and "At" in E:
        v = S.get(op, "as_numpy_array")
        M.compare(f"{what}: operator", v, E["At"], loc(ctx, c, "fit"), key=f"formula:{what}:operator")
    if amp is not None:
        M.compare(f"{what}: amplitudes", S.get(o, "amplitudes"), amp, loc(ctx, c, "fit"), key=f"formula:{what}:amplitudes", **E)


def dmd(ctx, c, exact, tik, fb, rm, given, tlsq, opt):
    opts = dict(exact=exact, forward_backward=fb, rescale_mode=rm if rm in (None, "auto") else None, tlsq_rank=tlsq, opt=opt)
    M, kw = base(ctx, c, **opts)
    S = M.S
    if tik:
        kw["tikhonov_regularization"] = M.arr("tik", 0, True)
    else:
        M.arr("tik", 0, True)
    rmv = rm
    if rm == "array":
        rmv = kw["rescale_mode"] = M.arr("rm", 1, True)
    Y = M.arr("Y") if given else NONE
    what = f"{c}(exact={exact}, tikhonov={'given' if tik else None}, forward_backward={fb}, rescale_mode={rm}, tlsq={tlsq}, " \
           f"opt={opt}), fit({'X, Y' if given else 'X'})"
    o = S.new(c, **kw)
    TS = M.arr("ts", 1, True)
    M.assume(o, "dmd_timesteps", TS)
    a = {"X": M.env["X"]}
    pos = ctx.prog.classes[c].find("fit").params()[0]
    if "Y" in pos:
        a["Y"] = Y
    S.method(o, "fit", **a)
    X1 = M.spec("X" if given else "X[:, :-1]")
    Y1 = M.env["Y"] if given else M.spec("X[:, 1:]")
    full = dict(X1=X1, Y1=Y1)
    if tlsq:
        M.st = S.st
        X1, Y1 = M.fn("tlsqX", [full["X1"], full["Y1"]], 2), M.fn("tlsqY", [full["X1"], full["Y1"]], 2)
    E = operator_spec(M, X1, Y1, tik, fb, rmv, exact)
    amp = None
    if c == "SpDMD":
        pass          # its amplitudes are the result of an iteration
    elif opt is False:
        amp = "np.linalg.pinv(modes) @ X[:, 0]"
    elif opt is not True:
        amp = f"np.linalg.pinv(modes) @ X[:, {opt}]"
    elif rm is None and not tlsq:
        E["vand"] = M.spec("np.vander(w, len(ts), True)", **E)
        E["P"] = M.spec("np.multiply(modes.conj().T @ modes, np.conj(vand @ vand.conj().T))", **E)
        if exact:
            E["q"] = M.spec("np.conj(np.diag(vand @ X.conj().T @ modes))", **E)
        else:
            E["q"] = M.spec("np.conj(np.diag(vand[:, :X1.shape[1]] @ V @ np.diag(s) @ W))", **E)
        amp = "np.linalg.solve(P, q)"
    results(ctx, M, o, c, what, E, amp)
    if opt is False and rm is None and not tik and not tlsq and c == "DMD":
        # one step ahead prediction
        x = M.arr("x")
        M.assume(o, "modes", M.arr("PHI"))
        M.assume(o, "eigs", M.arr("lam", 1))
        M.compare(f"{c}: predict", S.method(o, "predict", X=x), "PHI @ np.diag(lam) @ np.linalg.pinv(PHI) @ x",
                  loc(ctx, c, "predict"), key=f"formula:{c}:predict")
    ctx.absorb(S)


def cdmd(ctx, c, tik, fb, rm, opt):
    M, kw = base(ctx, c, forward_backward=fb, opt=opt)
    S = M.S
    tv = M.arr("tik", 0, True)
    if tik:
        kw["tikhonov_regularization"] = tv
    rmv = M.arr("rm", 1, True)
    if rm:
        kw["rescale_mode"] = rmv
    if c == "CDMD":
        kw["compression_matrix"] = M.arr("C")
        comp = "C @ X"
    else:
        def rqb(env):
            q, b = M.fn("rqbQ", [env["X"]], 2), M.fn("rqbB", [env["X"]], 2)
            return None if q is None or b is None else Val({("t", (q, b, Val({N})))})
        M.hook("pydmd.utils:compute_rqb", rqb)
        comp = None
    what = f"{c}(tikhonov={'given' if tik else None}, forward_backward={fb}, rescale_mode={'array' if rm else None}, opt={opt})"
    o = S.new(c, **kw)
    M.assume(o, "dmd_timesteps", M.arr("ts", 1, True))
    S.method(o, "fit", X=M.env["X"])
    M.st = S.st
    Z = M.spec(comp) if comp else M.fn("rqbB", [M.env["X"]], 2)
    X1, Y1 = M.spec("Z[:, :-1]", Z=Z), M.spec("Z[:, 1:]", Z=Z)
    E = operator_spec(M, X1, Y1, tik, fb, rmv if rm else None, True, M.spec("X[:, 1:]"))
    results(ctx, M, o, c, what, E, f"np.linalg.pinv(modes) @ X[:, {int(opt)}]")
    ctx.absorb(S)


def subspace(ctx, rm, opt):
    c = "SubspaceDMD"
    M, kw = base(ctx, c, opt=opt)
    S = M.S
    rmv = M.arr("rm", 1, True)
    if rm:
        kw["rescale_mode"] = rmv
    o = S.new(c, **kw)
    S.method(o, "fit", X=M.env["X"])
    E = {}

    def let(n, src):
        E[n] = M.spec(src, **E)
    let("Yp", "np.vstack((X[:, :-3], X[:, 1:-2]))")
    let("Yf", "np.vstack((X[:, 2:-1], X[:, 3:]))")
    let("Vp", "np.linalg.svd(Yp)[2].conj().T[:, :np.linalg.matrix_rank(Yp)]")
    let("O", "Yf @ Vp @ Vp.conj().T")
    let("Uq", "np.linalg.svd(O)[0][:, :np.linalg.matrix_rank(O)]")
    let("n", "Yp.shape[0] // 2")
    let("r", "min(min(np.linalg.matrix_rank(O), n), 3)")
    let("Uq1", "Uq[:n, :r]")
    let("Uq2", "Uq[n:, :r]")
    let("k", "np.linalg.matrix_rank(Uq1)")
    let("U", "np.linalg.svd(Uq1)[0][:, :k]")
    let("s", "np.linalg.svd(Uq1)[1][:k]")
    let("V", "np.linalg.svd(Uq1)[2].conj().T[:, :k]")
    let("At", "(U.conj().T @ Uq2 @ V) / s")
    if rm:
        E["rm"] = rmv
        let("Ah", "np.diag(rm**-0.5) @ At @ np.diag(rm**0.5)")
    else:
        E["Ah"] = E["At"]
    let("w", "np.linalg.eig(Ah)[0]")
    let("W", "np.linalg.eig(Ah)[1]")
    if rm:
        let("W", "np.diag(rm**0.5) @ W")
    let("modes", "(Uq2 @ V / s) @ W / w")
    results(ctx, M, o, c, f"{c}(rescale_mode={'array' if rm else None}, opt={opt})", E,
            f"np.linalg.pinv(modes) @ X[:, {int(opt)}]")
    ctx.absorb(S)


def dmdc(ctx, known, lag, opt):
    c = "DMDc"
    M, kw = base(ctx, c, opt=opt, lag=lag, svd_rank_omega=2)
    S = M.S
    I = M.arr("I")
    B = M.arr("B")
    o = S.new(c, **kw)
    M.assume(o, "dmd_timesteps", M.arr("ts", 1, True))
    S.method(o, "fit", X=M.env["X"], I=I, B=B if known else NONE)
    X1, Y1 = M.spec(f"X[:, :-{lag}]"), M.spec(f"X[:, {lag}:]")
    what = f"{c}(lag={lag}, opt={opt}), fit with B {'given' if known else 'unknown'}"
    amp = f"np.linalg.pinv(modes) @ X[:, {int(opt)}]"
    if known:
        E = operator_spec(M, X1, M.spec("Y1 - B @ I", Y1=Y1), None, False, None, True)
        results(ctx, M, o, c, what, E, amp)
        M.compare(what + ": B", S.get(o, "B"), B, loc(ctx, c, "fit"))
    else:
        E = dict(X1=X1, Y1=Y1)

        def let(n, src):
            E[n] = M.spec(src, **E)
        let("om", "np.vstack([X1, I])")
        E.update(usv(M, E["om"], "Up sp Vp"))
        E["Ur"] = usv(M, Y1)["U"]
        let("n", "X1.shape[0]")
        let("At", "Ur.conj().T @ Y1 @ Vp @ np.diag(1 / sp) @ Up[:n, :].conj().T @ Ur")
        let("w", "np.linalg.eig(At)[0]")
        let("W", "np.linalg.eig(At)[1]")
        let("modes", "Y1 @ Vp @ np.diag(1 / sp) @ Up[:n, :].conj().T @ Ur @ W")
        results(ctx, M, o, c, what, E, amp)
        M.compare(what + ": B", S.get(o, "B"), "Ur @ Ur.conj().T @ Y1 @ Vp @ np.diag(1 / sp) @ Up[n:, :].conj().T",
                  loc(ctx, c, "fit"), **E)
    ctx.absorb(S)


def hankel(ctx, c, d, exact, opt):
    M, kw = base(ctx, c, d=d, exact=exact, opt=opt)
    S = M.S
    M.hook("pydmd.utils:pseudo_hankel_matrix", lambda env: M.fn("hankel", [env["X"]], 2))
    o = S.new(c, **kw)
    S.method(o, "fit", X=M.env["X"])
    M.st = S.st
    H = M.fn("hankel", [M.env["X"]], 2)
    E = operator_spec(M, M.spec("H[:, :-1]", H=H), M.spec("H[:, 1:]", H=H), None, False, None, exact)
    E["H"] = H
    results(ctx, M, o, c, f"{c}(d={d}, exact={exact}, opt={opt})", E, f"np.linalg.pinv(modes) @ H[:, {int(opt)}]")
    M.compare(f"{c}: ho_snapshots", S.get(o, "ho_snapshots"), H, loc(ctx, c, "fit"))
    ctx.absorb(S)


def pinv_diag(M):
    """np.diag(reciprocal of the entries above a threshold)"""
    def f(env):
        v = M.fn("pinv1", [env["x"]], 1)
        return None if v is None else M.S.I.fresh(M.st, M.S.node, v.deps, T("diag", v.term), None, extra="pd")
    M.hook("pydmd.optdmd:pinv_diag", f)


def optdmd(ctx, fact, given):
    c = "OptDMD"
    M, kw = base(ctx, c, factorization=fact)
    S = M.S
    pinv_diag(M)
    M.arr("Y")
    o = S.new(c, **kw)
    S.method(o, "fit", X=M.env["X"], Y=M.env["Y"] if given else NONE)
    E = dict(X1=M.spec("X" if given else "X[:, :-1]"), Y1=M.spec("Y" if given else "X[:, 1:]"))

    def let(n, src):
        E[n] = M.spec(src, **E)

    def p1(n, src):
        M.st = S.st
        E[n] = M.fn("pinv1", [M.spec(src, **E)], 1)
    E.update(usv(M, E["X1"]))
    p1("si", "s")
    let("Z", "Y1 @ V @ np.diag(s) @ np.diag(si) @ V.conj().T")
    E["P"] = usv(M, E["Z"])["U"]
    let("Q", "(P.conj().T @ Y1 @ V @ np.diag(si) @ U.conj().T).conj().T")
    let("At", "Q.conj().T @ P")
    what = f"OptDMD({fact}), fit({'X, Y' if given else 'X'})"
    w = loc(ctx, c, "fit")
    x = M.arr("x")
    op = S.get(o, "operator")
    M.compare(what + ": operator", S.get(op, "as_numpy_array"), E["At"], w)
    if fact == "svd":
        M.compare(what + ": modes", S.get(o, "modes"), E["P"], w)
        M.compare(what + ": predict", S.method(o, "predict", X=x), "P @ Q.conj().T @ x", loc(ctx, c, "predict"), **E)
    else:
        for n, i in (("w", 0), ("W", 2), ("Wl", 1)):
            let(n, f"scipy.linalg.eig(At, left=True, right=True)[{i}]")
        p1("wi", "w")
        let("R", "P @ At @ W @ np.diag(wi)")
        let("L", "Q @ Wl @ np.diag(wi)")
        p1("m", "np.diag(L.conj().T @ R).conj()")
        let("L", "L @ np.diag(m)")
        M.compare(what + ": eigs", S.get(o, "eigs"), E["w"], w)
        M.compare(what + ": modes", S.get(o, "modes"), E["R"], w)
        M.compare(what + ": predict", S.method(o, "predict", X=x), "R @ np.diag(w) @ L.conj().T @ x", loc(ctx, c, "predict"), **E)
    ctx.absorb(S)


def edmd(ctx, given, opt):
    c = "EDMD"
    M, kw = base(ctx, c, opt=opt)
    S = M.S

    def feat(env):
        g = [v for k, v in env.items() if k != "self"]
        q, s = M.fn("Q", g[:1], 2, True), M.fn("sig", g[:1], 1, True)
        return None if q is None else Val({("t", (q, S.I.fresh(M.st, S.node, s.deps, T("diag", s.term), "R", extra="sg")))})
    M.hook("pydmd.edmd:EDMDOperator._compute_feature_matrix_svd", feat)
    M.arr("Y")
    o = S.new(c, **kw)
    M.assume(o, "dmd_timesteps", M.arr("ts", 1, True))
    S.method(o, "fit", X=M.env["X"], Y=M.env["Y"] if given else NONE)
    E = dict(X1=M.spec("X" if given else "X[:, :-1]"), Y1=M.spec("Y" if given else "X[:, 1:]"))
    M.st = S.st

    def let(n, src):
        E[n] = M.spec(src, **E)

    def ker(n, a, b):
        a, b = M.spec(a, **E), M.spec(b, **E)
        E[n] = S.I.fresh(S.st, S.node, a.deps, T("fn:kernel", a.term, b.term), "R", extra=n)
    ker("G", "X1.T", "X1.T")
    ker("A", "Y1.T", "X1.T")
    E["Q"], E["s"] = M.fn("Q", [E["G"]], 2, True), M.fn("sig", [E["G"]], 1, True)
    let("K", "np.diag(1 / s) @ Q.T @ A @ Q @ np.diag(1 / s)")
    let("w0", "np.linalg.eig(K)[0]")
    let("V", "np.linalg.eig(K)[1]")
    let("w", "w0[np.abs(w0) > 1e-16]")
    let("modes", "(X1 @ Q @ np.diag(1 / s) @ np.linalg.inv(V).T)[:, np.abs(w0) > 1e-16]")
    what = f"EDMD(opt={opt}), fit({'X, Y' if given else 'X'})"
    for q, src in (("modes", "modes"), ("eigs", "w")):
        M.compare(f"{what}: {q}", S.get(o, q), E[src], loc(ctx, c, "fit"), key=f"formula:{what}:{q}")
    M.compare(f"{what}: amplitudes", S.get(o, "amplitudes"), f"np.linalg.pinv(modes) @ X[:, {int(opt)}]", loc(ctx, c, "fit"), **E)
    x = M.arr("x", 1)
    E["xr"] = M.spec("x[None]")
    ker("kx", "xr", "X1.T")
    M.compare(f"{what}: eigenfunctions", S.method(o, "eigenfunctions", x=x), "kx @ Q @ np.diag(1 / s) @ V",
              loc(ctx, c, "eigenfunctions"), **E)
    ctx.absorb(S)


def pidmd(ctx, case, opt):
    """the relations between operator, modes, eigenvalues and A; the constrained solution itself is a symbol"""
    c = "PiDMD"
    M, kw = base(ctx, c, opt=opt, manifold="unitary", compute_A=True)
    S = M.S
    if case == "A":
        kw["manifold"] = const("uppertriangular")
    o = S.new(c, **kw)
    if case == "A":
        M.hook("pydmd.pidmd_utils:compute_uppertriangular", lambda env: dict_val(M, {"A": M.fn("Acon", [env["X"], env["Y"]], 2)}))
    M.assume(o, "dmd_timesteps", M.arr("ts", 1, True))
    S.method(o, "fit", X=M.env["X"], Y=NONE)
    E = dict(X1=M.spec("X[:, :-1]"), Y1=M.spec("X[:, 1:]"))
    E.update(usv(M, E["X1"]))

    def let(n, src):
        E[n] = M.spec(src, **E)
    if case == "atilde":
        let("P", "(U.conj().T @ Y1) @ (U.conj().T @ X1).conj().T")
        E.update(usv(M, E["P"], "Up _ Vp"))
        let("At", "Up @ Vp.conj().T")
        let("w", "np.linalg.eig(At)[0]")
        let("W", "np.linalg.eig(At)[1]")
        let("modes", "U @ W")
        let("A", "modes @ np.diag(w) @ np.linalg.pinv(modes)")
    else:
        E["A"] = M.fn("Acon", [E["X1"], E["Y1"]], 2)
        let("w", "np.linalg.eig(A)[0]")
        let("modes", "np.linalg.eig(A)[1]")
        let("W", "U.conj().T @ modes")
        let("At", "W @ np.diag(w) @ np.linalg.pinv(W)")
    what = f"PiDMD({'unitary' if case == 'atilde' else 'A'}, opt={opt})"
    results(ctx, M, o, c, what, E, f"np.linalg.pinv(modes) @ X[:, {int(opt)}]")
    M.compare(f"{what}: A", S.get(o, "A"), E["A"], loc(ctx, c, "fit"))
    ctx.absorb(S)


def dict_val(M, items):
    if any(v is None for v in items.values()):
        return None
    I, st = M.S.I, M.st
    oid = I.alloc(st, "dict", M.S.node, extra="sol", fields={f"k:{k!r}": v for k, v in items.items()})
    return Val({("o", oid)})


def sorting(ctx, c, how):
    """sorted_eigs: the eigenvalues in the documented order, each with its own mode"""
    M, kw = base(ctx, c, sorted_eigs=how)
    S = M.S
    w, W, U, s, V = M.arr("w", 1), M.arr("W"), M.arr("U"), M.arr("s", 1, True), M.arr("V")
    vals = [-5, 3, 4]
    n = len(vals)
    Wd, one = data("W", n, n), Nd((n, n), [int(i == j) for i in range(n) for j in range(n)])
    M.hook("pydmd.utils:compute_svd", lambda env: Val({("t", (U, s, V))}))
    M.ext("numpy.linalg.eig", lambda I, args, kwargs, node, st: (Val({("t", (w, W))}), st))
    leaves = {w: Nd((n,), vals), W: Wd, U: one, V: one, s: Nd((n,), [1] * n),
              M.env["X"]: Nd((n, n + 1), [int(i + 1 == j) for i in range(n) for j in range(n + 1)])}
    S.I.sizes = Layout({v.term: x for v, x in leaves.items()})

    def order(t):
        try:
            r = S.I.sizes.of(t)
        except NoLayout:
            return None
        return r if type(r) is int else None
    S.I.order = order
    o = S.new(c, **kw)
    S.method(o, "fit", X=M.env["X"])
    p = sorted(range(n), key=lambda i: abs(vals[i]) if how == "abs" else vals[i]) if how else range(n)
    what = f"{c}(sorted_eigs={how!r})"
    M.layout(f"{what}: eigs for eigenvalues {vals}", S.get(o, "eigs"), leaves, Nd((n,), [vals[i] for i in p]), loc(ctx, c, "fit"),
             key=f"sorted:{c}:{how}:eigs")
    if c == "SubspaceDMD":
        ctx.absorb(S)
        return          # its modes are decided with the formulas above; the eigenvectors are sorted by the same code
    M.layout(f"{what}: modes for eigenvalues {vals}", S.get(o, "modes"), leaves,
             Nd((n, n), [Wd.cells[r * n + i] for r in range(n) for i in p]), loc(ctx, c, "fit"), key=f"sorted:{c}:{how}:modes")
    ctx.absorb(S)


def run(ctx):
    tasks = []
    B = (False, True)
    for c in ("DMD", "FbDMD", "SpDMD"):
        for exact in B:
            for tik in B:
                for fb in B:
                    for rm in (None, "array", "auto"):
                        for given in B:
                            for tlsq in (0, 2):
                                for opt in (False, True, 1, -1):
                                    extras = (tik, fb, rm is not None, tlsq != 0)
                                    if c != "DMD" and (sum(extras) > (c == "FbDMD") or given or opt not in (False, 1)):
                                        continue
                                    if c == "FbDMD" and not fb or c == "SpDMD" and opt is not False:
                                        continue
                                    if sum(extras) > 2 or tik and fb or opt in (1, -1) and sum(extras):
                                        continue
                                    tasks.append((f"{c}", dmd, c, exact, tik, fb, rm, given, tlsq, opt))
    for c in ("CDMD", "RDMD"):
        for tik, fb, rm, opt in ((0, 0, 0, False), (1, 0, 0, False), (0, 1, 0, False), (0, 0, 1, False), (0, 0, 0, 1), (0, 1, 1, 2)):
            tasks.append((c, cdmd, c, bool(tik), bool(fb), bool(rm), opt))
    for rm in B:
        for opt in (False, 1):
            tasks.append(("SubspaceDMD", subspace, rm, opt))
    for known in B:
        for lag in (1, 2):
            for opt in (False, 1):
                tasks.append(("DMDc", dmdc, known, lag, opt))
    for c in ("HankelDMD",):
        for exact in B:
            for opt in (False, 1):
                tasks.append((c, hankel, c, 2, exact, opt))
    for fact in ("svd", "evd"):
        for given in B:
            tasks.append(("OptDMD", optdmd, fact, given))
    for given in B:
        for opt in (False, 1):
            tasks.append(("EDMD", edmd, given, opt))
    for case in ("atilde", "A"):
        for opt in (False, 1):
            tasks.append(("PiDMD", pidmd, case, opt))
    tasks += [(f"{c} sorted", sorting, c, how) for c in ("DMD", "FbDMD", "SpDMD", "CDMD", "RDMD", "HankelDMD", "SubspaceDMD")
              for how in (False, "abs", "real")]
    ctx.pmap(tasks)
