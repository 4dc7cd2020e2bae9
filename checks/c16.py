"""LANDO and HAVOK."""
from engine.vals import NONE, N, T, Term, U, Val, const, fmt_term, subterms
from .c15 import loc, model, same
from .formula import Mod

RULE = "value number of the published quantity equals the documented formula"
MIN_OBLIGATIONS = 300
ASSUMPTIONS = ["numpy, scipy and scikit-learn follow their documentation", "floating point arithmetic is treated as exact"]
KERNEL = "sklearn.metrics.pairwise.pairwise_kernels"


def kernel(M, log=None):
    """pairwise_kernels(A, B) is the symbol K(A, B)"""
    def f(I, args, kwargs, node, st):
        if log is not None:
            log.append((args, kwargs))
        k = M.fn("K", args[:2], 2) if len(args) >= 2 else None
        return None if k is None else (k, st)
    M.ext(KERNEL, f)


def lando(ctx, rescale, lstsq, pair, A, custom):
    log = []

    def options(M):
        kernel(M, log)
        r = M.arr("r", 1, True) if rescale == "array" else const(2.5) if rescale == "number" else const(1.0)
        return dict(svd_rank=3, x_rescale=r, lstsq=lstsq, permute=False)
    M, o = model(ctx, "LANDO", options)
    S = M.S
    M.shapes()
    D = M.arr("D")
    op = S.get(o, "operator")
    M.assume(op, "_sparse_dictionary", D)
    grads = []

    def grad(env):
        grads.append(env)
        return M.fn("G", [env["X"], env["y"]], 2)
    M.hook("pydmd.lando:LANDO.kernel_gradient", grad)
    X, Y = M.arr("X"), M.arr("Y")
    kw = {"X": X, "Y": Y if pair else NONE}
    S.method(o, "fit", **kw)
    what = f"LANDO(x_rescale={rescale}, lstsq={lstsq}{', pairs' if pair else ''})"
    w = loc(ctx, "LANDO", "fit")
    E = {"X": X, "D": D, "Y": Y}
    E["X1"], E["Y1"] = (X, Y) if pair else (M.spec("X[:, :-1]", **E), M.spec("X[:, 1:]", **E))
    E["sc"] = M.spec("r[..., None]", **E) if rescale == "array" else const(2.5) if rescale == "number" else const(1.0)
    E["fl"] = M.env["r"] if rescale == "array" else E["sc"]
    E["Xr"] = M.spec("X1 * sc", **E)
    E["Dt"], E["Xt"] = M.spec("D.T", **E), M.spec("Xr.T", **E)
    E["Kx"] = M.fn("K", [E["Dt"], E["Xt"]], 2)
    E["W"] = M.spec("Y1 @ np.linalg.pinv(Kx)", **E)
    M.compare(f"{what}: weights", S.get(op, "weights"), "W", w, key="lando:weights", **E)
    M.compare(f"{what}: dictionary in the units of the data", S.get(o, "sparse_dictionary"), "D / sc", loc(ctx, "LANDO", "sparse_dictionary"),
              key="lando:dictionary", **E)
    # the model f
    Z = M.arr("Z")
    M.st = S.st
    f = lambda z: M.spec("W @ K", K=M.fn("K", [E["Dt"], M.spec("(z * sc).T", z=M.spec(z, Z=Z, **E), **E)], 2), **E)
    M.compare(f"{what}: f", S.method(o, "f", X=Z), f("Z"), loc(ctx, "LANDO", "f"), key="lando:f")
    # fixed point analysis
    q = M.arr("q", 1)
    M.st = S.st
    S.method(o, "analyze_fixed_point", fixed_point=q, compute_A=const(A))
    what = what[:-1] + f", compute_A={A})"
    wl = loc(ctx, "LANDO", "analyze_fixed_point")
    E["q"] = q
    M.st = S.st
    E["bias"] = f("q[..., None]") if False else M.spec("W @ K", K=M.fn("K", [E["Dt"], M.spec("(q[..., None] * sc).T", **E)], 2), **E)
    M.compare(f"{what}: bias", S.get(o, "bias"), E["bias"], wl, key="lando:bias")
    M.compare(f"{what}: fixed point", S.get(o, "fixed_point"), "q", wl, key="lando:fixed_point")
    E["G"] = M.spec("G * fl", G=M.fn("G", [D, M.spec("q * fl", **E)], 2), **E)
    gt = M.spec("G.T", **E)
    M.st = S.st
    E["U"], E["s"], E["V"] = M.fn("U", [gt], 2), M.fn("s", [gt], 1, True), M.fn("V", [gt], 2)
    E["At"] = M.spec("U.conj().T @ W @ G @ U", **E)
    M.compare(f"{what}: reduced operator", S.get(op, "as_numpy_array"), "At", loc(ctx, "LANDOOperator", "compute_linear_operator"), key="lando:Atilde", **E)
    if A:
        M.compare(f"{what}: linear", S.get(o, "linear"), "W @ G", loc(ctx, "LANDO", "linear"), key="lando:linear", **E)
    E["w"], E["v"] = M.spec("np.linalg.eig(At)[0]", **E), M.spec("np.linalg.eig(At)[1]", **E)
    E["k"] = M.spec("np.abs(w) > 1e-16", **E)
    E["o"] = M.spec("np.argsort(-np.abs(w[k]))", **E)
    E["lam"], E["vec"] = M.spec("w[k][o]", **E), M.spec("v[:, k][:, o]", **E)
    table = [("eigs", "lam"), ("modes", "W @ V @ np.diag(s) @ vec @ np.diag(1 / lam)")]
    same(M, o, what, table, loc(ctx, "LANDOOperator", "compute_linear_operator"), "lando", E)
    M.compare(f"{what}: nonlinear", S.method(o, "nonlinear", X=Z), M.spec("F - bias - W @ G @ Z", F=f("Z + q[..., None]"), Z=Z, **E), loc(ctx, "LANDO", "nonlinear"),
              key="lando:nonlinear")
    ctx.absorb(S)


def step(M, o, c="LANDOOperator", names=("_weights", "_sparse_dictionary")):
    """replace the (data dependent) learning step: every call installs new weights and a new dictionary"""
    calls = []

    def f(env):
        n = len(calls) + 1
        W, D = M.arr(f"W{n}"), M.arr(f"D{n}")
        calls.append(env)
        st = M.st
        for name, v in zip(names, (W, D)):
            st = M.S.I.store_attr(env["self"], name, v, M.S.node, st)
        M.st = st
        return NONE
    M.hook("pydmd.lando:LANDOOperator.compute_operator", f)
    return calls


def update(ctx, pair, A):
    """an update redoes the fixed point analysis with the new weights and dictionary"""
    def options(M):
        kernel(M)
        return dict(svd_rank=3, x_rescale=2.5, online=True, permute=False)
    M, o = model(ctx, "LANDO", options)
    S = M.S
    M.shapes()
    M.hook("pydmd.lando:LANDO.kernel_gradient", lambda env: M.fn("G", [env["X"], env["y"]], 2))
    calls = step(M, o)
    X, Y, q = M.arr("X"), M.arr("Y"), M.arr("q", 1)
    S.method(o, "fit", X=X, Y=NONE)
    S.method(o, "analyze_fixed_point", fixed_point=q, compute_A=const(A))
    w = loc(ctx, "LANDO", "update")
    what = f"LANDO update({'pairs' if pair else 'sequence'}, compute_A={A})"
    S.method(o, "update", X=X, Y=Y if pair else NONE)
    ctx.obl(1, f"{what}: learns from the new data")
    if len(calls) != 2:
        ctx.undecided.append(f"{what}: {len(calls)} learning steps")
        return
    M.st = S.st
    E = {"X": X, "Y": Y, "q": q, "W": M.env["W2"], "D": M.env["D2"]}
    M.compare(f"{what}: inputs", calls[1].get("X"), "X * 2.5" if pair else "X[:, :-1] * 2.5", w, key="update:X", **E)
    M.compare(f"{what}: outputs", calls[1].get("Y"), "Y" if pair else "X[:, 1:]", w, key="update:Y", **E)
    E["Dt"] = M.spec("D.T", **E)
    M.st = S.st
    M.compare(f"{what}: bias", S.get(o, "bias"), M.spec("W @ K", K=M.fn("K", [E["Dt"], M.spec("(q[..., None] * 2.5).T", **E)], 2), **E), w, key="update:bias")
    E["G"] = M.spec("G * 2.5", G=M.fn("G", [E["D"], M.spec("q * 2.5", **E)], 2), **E)
    gt = M.spec("G.T", **E)
    M.st = S.st
    E["U"], E["s"], E["V"] = M.fn("U", [gt], 2), M.fn("s", [gt], 1, True), M.fn("V", [gt], 2)
    E["At"] = M.spec("U.conj().T @ W @ G @ U", **E)
    M.compare(f"{what}: reduced operator", S.get(S.get(o, "operator"), "as_numpy_array"), "At", w, key="update:Atilde", **E)
    if A:
        M.compare(f"{what}: linear", S.get(o, "linear"), "W @ G", w, key="update:linear", **E)
    ctx.absorb(S)


def gradient(ctx, metric, keys):
    def options(M):
        kernel(M)
        vals = {k: M.arr("p_" + k, 0, True) for k in keys}
        M.S.st.frames[M.S.fid] = dict(M.S.st.frames[M.S.fid], **{"p_" + k: v for k, v in vals.items()})
        params = M.value("{" + ", ".join(f"{k!r}: p_{k}" for k in keys) + "}")
        return dict(kernel_metric=metric, kernel_params=params)
    M, o = model(ctx, "LANDO", options)
    S = M.S
    M.shapes()
    D, y = M.arr("D", 2, True), M.arr("y", 1, True)
    M.dims = {"size(D,0)": "n", "size(D,1)": "m", "len(y)": "n"}
    got = S.method(o, "kernel_gradient", X=D, y=y)
    E = {"D": D, "y": y}
    E["g"] = M.env["p_gamma"] if "gamma" in keys else M.spec("1.0 / D.shape[0]", **E)
    E["c"] = M.env["p_coef0"] if "coef0" in keys else const(1)
    E["d"] = M.env["p_degree"] if "degree" in keys else const(3)
    src = {"linear": "D.T", "poly": "np.diag(g * d * (c + g * (D.T @ y)) ** (d - 1)) @ D.T",
           "rbf": "np.diag(-2 * g * np.exp(-g * np.linalg.norm(D - y[..., None], 2, axis=0) ** 2)) @ (D - y[..., None]).T"}[metric]
    M.compare(f"LANDO kernel gradient({metric}, {sorted(keys)})", got, src, loc(ctx, "LANDO", "kernel_gradient"), key="lando:gradient", **E)
    ctx.absorb(S)


def predict(ctx, continuous):
    def options(M):
        kernel(M)
        return dict(svd_rank=3, x_rescale=2.5, permute=False)
    M, o = model(ctx, "LANDO", options)
    S = M.S
    M.shapes()
    step(M, o)
    X, x0, z = M.arr("X"), M.arr("x0", 1), M.arr("z", 1)
    S.method(o, "fit", X=X, Y=NONE)
    E = {"x0": x0, "z": z, "Dt": M.spec("D1.T"), "W": M.env["W1"]}
    w = loc(ctx, "LANDO", "predict")

    def f(x):
        k = M.fn("K", [E["Dt"], M.spec("(z[..., None] * 2.5).T", z=x)], 2)
        return M.spec("(W @ K).flatten()", W=E["W"], K=k)
    if continuous:
        got = {}

        def ivp(I, args, kwargs, node, st):
            names = ("fun", "t_span", "y0", "method", "t_eval")
            got.update(dict(zip(names, args)), **kwargs)
            got["rhs"], st = I.call_val(got["fun"], [tau, z], {}, node, st)
            return None
        tau = M.arr("tau", 0, True)
        dt = M.arr("dt", 0, True)
        M.ext("scipy.integrate.solve_ivp", ivp)
        S.method(o, "predict", x0=x0, tend=const(7), continuous=const(True), dt=dt, solve_ivp_opts=NONE)
        M.st = S.st
        what = "LANDO.predict(continuous)"
        M.compare(f"{what}: right-hand side", got.get("rhs"), f(z), w, key="predict:rhs")
        M.compare(f"{what}: initial state", got.get("y0"), "x0", w, key="predict:x0")
        M.compare(f"{what}: times", got.get("t_eval"), "np.arange(0, 7 * dt, dt)", w, key="predict:times", dt=dt)
    else:
        r = S.method(o, "predict", x0=x0, tend=const(3), continuous=const(False), dt=const(1.0), solve_ivp_opts=NONE)
        M.st = S.st
        a = f(x0)
        M.st = S.st
        b = f(a)
        for n, x in enumerate((x0, a, b)):
            M.compare(f"LANDO.predict(discrete): state {n}", M.spec(f"r[:, {n}]", r=r), x, w, key=f"predict:discrete:{n}")
    ctx.absorb(S)


STATE = ("_sparse_dictionary", "_cholesky", "_P", "_weights")


def online(ctx, added, updating):
    """one step of online learning from arbitrary dictionary D, Cholesky factor C, P and weights W; added tells whether the sample
    enters the dictionary; or the first step"""
    def options(M):
        kernel(M)
        return dict(svd_rank=3, online=True, permute=False)
    M, o = model(ctx, "LANDO", options)
    S = M.S
    X, Y = M.arr("X"), M.arr("Y")

    def arange(I, args, kwargs, node, st):
        if len(args) == 1 and args[0].term is not None and args[0].term.op != "c":
            return Val({("t", (const(0),))}), st
        return None
    M.ext("numpy.arange", arange)

    def truth(t):
        if t.op in ("Gt", "GtE", "Lt", "LtE") and any(s.op == "fn:K" for s in subterms(t)):
            if any(x is T("c", 1e-6) for x in t.args):
                return added == ((t.op[0] == "G") == (t.args[1] is T("c", 1e-6)))
            return False
        return None
    M.shapes(truth)
    S.method(o, "fit", X=X, Y=Y)
    op = S.get(o, "operator")
    w = loc(ctx, "LANDOOperator", "compute_operator")
    M.st = S.st
    E = {"X": X, "Y": Y, "x": M.spec("X[:, 0][..., None]", X=X), "y": M.spec("Y[:, 0][..., None]", Y=Y)}

    def K(a, b):
        A, B = M.spec(f"({a}).T", **E), M.spec(f"({b}).T", **E)
        M.st = S.st
        return M.fn("K", [A, B], 2)
    if not updating:
        what = "LANDO(online), first sample"
        E["k"] = K("x", "x")
        M.compare(f"{what}: dictionary", S.get(op, "sparse_dictionary"), "x", w, key="online:first:dictionary", **E)
        M.compare(f"{what}: weights", S.get(op, "weights"), "y / np.sqrt(k)[0][0] ** 2", w, key="online:first:weights", alts=["y / k[0][0]", "y / k"], **E)
        return ctx.absorb(S)
    if not all(any(n in S.st.heap.get(oid, {}) for oid in op.oids()) for n in STATE):
        ctx.undecided.append("LANDO(online): the state of the operator is kept under other names")
        return
    what = f"LANDO(online), sample {'' if added else 'not '}added to the dictionary"
    for n, k in zip(STATE, "DCPW"):
        E[k] = M.arr(k)
        S.set(op, n, E[k])
    S.method(o, "update", X=X, Y=Y)
    M.st = S.st
    E["k"] = K("D", "x")
    E["s"] = M.spec("np.linalg.pinv(C) @ k", **E)
    E["pi"] = M.spec("np.linalg.pinv(C.conj().T) @ s", **E)
    E["kxx"] = M.spec("k[0][0]", **dict(E, k=K("x", "x")))
    E["delta"] = M.spec("kxx - k.conj().T @ pi", **E)
    if added:
        E["w"] = M.spec("(y - W @ k) / delta", **E)
        table = dict(W="np.hstack((W - w @ pi.conj().T, w))", D="np.hstack((D, x))",
                     P="np.vstack((np.hstack((P, np.zeros((len(P), 1)))), np.append(np.zeros((1, len(P))), 1.0)))",
                     C="np.vstack((np.hstack((C, np.zeros((len(C), 1)))), np.append(s.conj().T, max(0, np.abs(np.sqrt(kxx - np.sum(s ** 2)))))))")
    else:
        E["h"] = M.spec("pi.conj().T @ P / (1.0 + pi.conj().T @ P @ pi)", **E)
        table = dict(P="P @ (np.eye(len(P)) - pi @ h)", C="C", D="D", W="W + (y - W @ k) @ h @ np.linalg.pinv(C @ C.conj().T)")
    for k, src in table.items():
        M.compare(f"{what}: {k}", S.get(op, STATE["DCPW".index(k)]), src, w, key=f"online:{k}", **E)
    ctx.absorb(S)


def havok(ctx, structured, lstsq, inner, chaos, times):
    def options(M):
        kw = dict(svd_rank=3, delays=4, lag=2, num_chaos=chaos, structured=structured, lstsq=lstsq)
        if inner:
            kw["dmd"] = M.S.new("DMD" if inner == "DMD" else "BOPDMD", svd_rank=const(3))
        return kw
    M, o = model(ctx, "HAVOK", options)
    S = M.S
    M.shapes(lambda t: False if t.op in ("Lt", "Gt") or t.op == "Not" else True if t.op == "allclose" else None)
    H = M.arr("H")
    M.hook("pydmd.havok:HAVOK.hankel", lambda env: H)
    M.hook("pydmd.utils:differentiate", lambda env: M.fn("diff", [env["X"], env["dt"]], 2))
    got = {}
    if inner:
        M.arr("Phi"), M.arr("lam", 1)

        def fit(env):
            got.update(env)
            return NONE
        c = "dmd:DMD" if inner == "DMD" else "bopdmd:BOPDMD"
        M.hook(f"pydmd.{c}.fit", fit)
        M.hook(f"pydmd.dmdbase:DMDBase.modes", lambda env: M.env["Phi"])
        M.hook(f"pydmd.dmdbase:DMDBase.eigs", lambda env: M.env["lam"])
    X, t = M.arr("X"), M.arr("t", 1, True) if times else const(0.5)
    S.method(o, "fit", X=X, t=t)
    what = f"HAVOK(structured={structured}, lstsq={lstsq}, dmd={inner}, num_chaos={chaos}, times={'vector' if times else 'step'})"
    w = loc(ctx, "HAVOK", "fit")
    E = {"X": X, "t": t, "H": H}
    E["dt"] = M.spec("t[1] - t[0]", **E) if times else t
    M.st = S.st
    E["Hs"] = M.spec("H[:, :-1]", **E) if structured else H
    M.st = S.st
    E["U"], E["s"], E["V"] = M.fn("U", [E["Hs"]], 2), M.fn("s", [E["Hs"]], 1, True), M.fn("V", [E["Hs"]], 2)
    if structured:
        h2 = M.spec("H[:, 1:]", **E)
        M.st = S.st
        E["dV"] = M.spec("(V2 - V) / dt", V2=M.fn("V", [h2], 2), **E)
    else:
        vt = M.spec("V.T", **E)
        M.st = S.st
        E["dV"] = M.spec("dd.T", dd=M.fn("diff", [vt, E["dt"]], 2), **E)
    if inner:
        E["op"] = M.spec("Phi @ np.diag(lam) @ np.linalg.pinv(Phi)")
        M.compare(f"{what}: data of the inner model", got.get("X"), "V.T", w, key="havok:inner:X", **E)
        if inner == "DMD":
            M.compare(f"{what}: targets of the inner model", got.get("Y"), "dV.T", w, key="havok:inner:Y", **E)
    else:
        E["op"] = M.spec("(np.linalg.pinv(V) @ dV).T", **E)
    table = [("operator", "op"), ("modes", "U"), ("singular_vals", "s"), ("delay_embeddings", "V"), ("ho_snapshots", "H"),
             ("A", f"op[:-{chaos}, :-{chaos}]"), ("B", f"op[:-{chaos}, -{chaos}:]"), ("eigs", f"np.linalg.eig(op[:-{chaos}, :-{chaos}])[0]"),
             ("linear_dynamics", f"V[:, :-{chaos}]"), ("forcing", f"V[:, -{chaos}:]")]
    if times:
        table.append(("time", "t"))
    same(M, o, what, table, w, "havok", E)
    # prediction
    sim = {}

    def lsim(I, args, kwargs, node, st):
        sim.update(dict(zip(("system", "U", "T", "X0"), args)), **kwargs)
        return Val({("t", (M.env["t2"], M.env["Y2"], M.env["Y2"]))}), st

    def system(I, args, kwargs, node, st):
        sim["args"] = args
        return None
    M.arr("t2", 1, True), M.arr("Y2")
    F, v0 = M.arr("F"), M.arr("v0", 1)
    M.ext("scipy.signal.lsim", lsim)
    M.ext("scipy.signal.StateSpace", system)
    back = {}

    def dehankel(env):
        back.update(env)
        return M.arr("out")
    M.hook("pydmd.havok:HAVOK.dehankel", dehankel)
    S.method(o, "predict", forcing=F, time=M.env["t2"], V0=v0)
    M.st = S.st
    wp = loc(ctx, "HAVOK", "predict")
    for q, k, src in (("forcing", "U", "F"), ("times", "T", "t2"), ("initial state", "X0", "v0")):
        M.compare(f"{what}: {q} of the simulation", sim.get(k), src, wp, key=f"havok:predict:{k}", **E)
    if len(sim.get("args", ())) >= 2:
        M.compare(f"{what}: A of the simulation", sim["args"][0], table[5][1], wp, key="havok:predict:A", **E)
        M.compare(f"{what}: B of the simulation", sim["args"][1], table[6][1], wp, key="havok:predict:B", **E)
    n = M.spec("Y2.shape[-1]")
    M.compare(f"{what}: back to the data", back.get("H"), "U[:, :n] @ np.diag(s[:n]) @ Y2.conj().T", wp, key="havok:predict:H", n=n, **E)
    sim.clear()
    S.get(o, "reconstructed_embeddings")
    M.st = S.st
    wr = loc(ctx, "HAVOK", "reconstructed_embeddings")
    M.compare(f"{what}: forcing of the reconstruction", sim.get("U"), f"V[:, -{chaos}:]", wr, key="havok:rec:U", **E)
    M.compare(f"{what}: initial state of the reconstruction", sim.get("X0"), f"V[0, :-{chaos}]", wr, key="havok:rec:X0", alts=[f"V[:, :-{chaos}][0]"], **E)
    ctx.absorb(S)


def stencil(ctx):
    """second order finite differences"""
    M = Mod(ctx)
    S = M.S
    M.shapes()
    X, dt = M.arr("X"), M.arr("dt", 0, True)
    r = S.func("pydmd.utils", "differentiate", X=X, dt=dt)
    w = "pydmd/utils.py in differentiate"
    M.st = S.st
    for what, ix, src in (("interior", ":, 1:-1", "(X[:, 2:] - X[:, :-2]) / (2 * dt)"),
                          ("first", ":, 0", "(-3 * X[:, 0] + 4 * X[:, 1] - X[:, 2]) / (2 * dt)"),
                          ("last", ":, -1", "(3 * X[:, -1] - 4 * X[:, -2] + X[:, -3]) / (2 * dt)")):
        M.compare(f"differentiate: {what}", M.spec(f"r[{ix}]", r=r), src, w, key=f"differentiate:{what}", X=X, dt=dt)
    ctx.absorb(S)


def blocks(t):
    """the assignments that fill an array"""
    out = []
    while t.op in ("squeeze", "copy"):
        t = t.args[0]
    while t.op == "upd":
        out.append(t.args[1:])
        t = t.args[0]
    return list(reversed(out))


def window(ix, axis):
    """bounds of the slice along an axis, None for everything"""
    ks = list(ix.args) if ix.op == "tuple" else [ix]
    if axis >= len(ks):
        return None
    k = ks[axis]
    if k.op != "slice":
        raise ValueError("index")
    return None if all(x is T("c", None) for x in k.args) else k.args[:2]


def layout(ctx, delays, lag, back):
    """block i of the Hankel matrix is the data delayed by i lags"""
    M, o = model(ctx, "HAVOK", dict(delays=delays, lag=lag))
    S = M.S
    M.shapes(lambda t: False if t.op in ("Lt", "Gt") else None)
    X = M.arr("X")
    name = "dehankel" if back else "hankel"
    w = loc(ctx, "HAVOK", name)
    what = f"HAVOK.{name}(delays={delays}, lag={lag})"
    r = S.method(o, name, **{"H" if back else "X": X})
    M.st = S.st
    ctx.obl(1, f"{what}: {delays} blocks")
    bs = blocks(r.term) if r is not None and r.term is not None else []
    if len(bs) != delays or any(v.op != "idx" or v.args[0] is not X.term for _, v in bs):
        ctx.undecided.append(f"{what}: not filled block by block")
        return
    if back:
        n, h = M.spec("X.shape[0]", X=X), M.spec("X.shape[1]", X=X)
        n = M.spec(f"int(n / {delays})", n=n)
    else:
        n, h = M.spec("X.shape[0]", X=X), M.spec(f"X.shape[1] - {(delays - 1) * lag}", X=X)
    for i, (dst, v) in enumerate(bs):
        src = v.args[1]
        hank, data = (src, dst) if back else (dst, src)
        for axis, (a, b) in enumerate(((hank, (f"{i} * n", f"{i + 1} * n")), (data, (f"{i * lag}", f"{i * lag} + h")))):
            got = window(a, axis)
            for side, g, want in zip(("from", "to"), got or (), b):
                M.compare(f"{what}: block {i} {'rows' if axis == 0 else 'times'} {side}", Val({N}, (), g), want, w, key=f"{name}:{axis}:{side}", n=n, h=h)
            if got is None:
                ctx.undecided.append(f"{what}: block {i} has no bounds")
    ctx.absorb(S)


def run(ctx):
    tasks = []
    for rescale in ("one", "number", "array"):
        for ls in (True, False):
            for pair in (False, True):
                for A in (False, True):
                    tasks.append((f"lando {rescale} {ls} {pair} {A}", lando, rescale, ls, pair, A, False))
    for pair in (False, True):
        for A in (False, True):
            tasks.append((f"update {pair} {A}", update, pair, A))
    for a, u in ((True, False), (True, True), (False, True)):
        tasks.append((f"online {a} {u}", online, a, u))
    for c in (True, False):
        tasks.append((f"predict {c}", predict, c))
    for n in range(8):
        keys = [k for i, k in enumerate(("gamma", "coef0", "degree")) if n >> i & 1]
        tasks.append((f"gradient poly {keys}", gradient, "poly", keys))
    tasks += [("gradient linear", gradient, "linear", []), ("gradient rbf", gradient, "rbf", []), ("gradient rbf g", gradient, "rbf", ["gamma"])]
    tasks.append(("differentiate", stencil))
    for d, l in ((2, 1), (3, 2), (4, 3)):
        for back in (False, True):
            tasks.append((f"layout {d} {l} {back}", layout, d, l, back))
    for st in (False, True):
        for times in (False, True):
            for ls in (False, True):
                tasks.append((f"havok {st} {ls} {times}", havok, st, ls, None, 1, times))
            tasks.append((f"havok chaos {st} {times}", havok, st, True, None, 2, times))
            for inner in ("DMD", "BOPDMD"):
                if not (st and inner == "BOPDMD"):
                    tasks.append((f"havok {st} {inner} {times}", havok, st, True, inner, 1, times))
    ctx.pmap(tasks)
