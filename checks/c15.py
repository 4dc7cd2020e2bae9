"""Continuous-time models."""
from engine.scenario import DEFAULT
from engine.vals import NONE, N, T, Term, U, Val, const, fmt_term, subterms
from .formula import CORE, Mod, many

RULE = "value number of the published quantity equals the documented formula"
MIN_OBLIGATIONS = 500
ASSUMPTIONS = ["numpy follows its documentation", "floating point arithmetic is treated as exact"]
BO = "pydmd.bopdmd:BOPDMDOperator."


def loc(ctx, c, m):
    f = ctx.prog.classes[c].find(m)
    return f"{f.module.relpath}:{f.node.lineno} in {c}.{m}" if f else c


def small(t):
    """assignments to the entries of negligible modes"""
    return t.op in ("Lt", "LtE") or t.op == "tuple" and any(small(x) for x in t.args)


def model(ctx, c, opts):
    M = Mod(ctx)
    S = M.S
    M.svd()
    M.hook("pydmd.utils:compute_rank", lambda env: M.fn("rank", [env["X"]], 0, True))
    init = S.prog.classes[c].find("__init__")
    pos = init.params()[0][1:] + init.params()[2]
    kw = {p: DEFAULT for p in pos}
    if callable(opts):
        opts = opts(M)
    kw.update({k: v if isinstance(v, Val) or v is DEFAULT else const(v) for k, v in opts.items()})
    return M, S.new(c, **kw)


def same(M, o, what, table, where, key, E, *others):
    for q, src in table:
        M.compare(f"{what}: {q}", M.S.get(o, q), src, where, key=f"{key}:{q}", alts=[M.spec(src, **F) for F in others], **E)


def bop(ctx, proj, A, basis, guess):
    """BOPDMD from the results of the variable projection"""
    def options(M):
        P, G = M.arr("P"), M.arr("G", 1)
        return dict(use_proj=proj, compute_A=A, svd_rank=3, **({"proj_basis": P} if basis else {}), **({"init_alpha": G} if guess else {}))
    M, o = model(ctx, "BOPDMD", options)
    S = M.S
    P, G = M.env["P"], M.env["G"]
    got = {}

    def vp(env):
        got.update(env)
        return Val({("t", (M.env["B"], M.env["alpha"], const(True)))})
    M.arr("B"), M.arr("alpha", 1)
    M.hook(BO + "_variable_projection", vp)
    S.I.skip_store = small
    X, t = M.arr("X"), M.arr("t", 1, True)
    S.method(o, "fit", X=X, t=t)
    M.st = S.st
    w = loc(ctx, "BOPDMD", "fit")
    what = f"BOPDMD(use_proj={proj}, compute_A={A}{', proj_basis' if basis else ''}{', init_alpha' if guess else ''})"
    E = {"X": X, "t": t}
    E["Ub"] = P if basis else M.fn("U", [X], 2)
    E["H"] = M.spec("(Ub.conj().T @ X).T" if proj else "X.T", **E)
    M.compare(f"{what}: fitted data", got.get("H"), E["H"], w, key="bop:data")
    M.compare(f"{what}: fitted times", got.get("t"), "t", w, key="bop:times")
    if guess:
        E["ini"] = G
    else:
        E["x"] = M.spec("Ub.conj().T @ X", **E)
        E["Y"] = M.spec("(x[:, :-1] + x[:, 1:]) / 2", **E)
        E["Z"] = M.spec("(x[:, 1:] - x[:, :-1]) / (t[1:] - t[:-1])", **E)
        M.st = S.st
        E["U"], E["s"], E["V"] = M.fn("U", [E["Y"]], 2), M.fn("s", [E["Y"]], 1, True), M.fn("V", [E["Y"]], 2)
        E["ini"] = M.spec("np.linalg.eig(U.conj().T @ Z @ V @ np.linalg.inv(np.diag(s)))[0]", **E)
    M.compare(f"{what}: initial eigenvalues", got.get("init_alpha"), E["ini"], loc(ctx, "BOPDMD", "_initialize_alpha"), key="bop:init_alpha")
    E["b"] = M.spec("np.sqrt(np.sum(np.abs(B.T)**2, axis=0))")
    E["W"] = M.spec("B.T / b", **E)
    E["modes"] = M.spec("Ub @ W" if proj else "W", **E)
    E["Wp"] = E["W"] if proj else M.spec("Ub.conj().T @ W", **E)
    E["dyn"] = M.spec("np.diag(b) @ np.exp(np.outer(alpha, t))", **E)
    table = [("modes", "modes"), ("eigs", "alpha"), ("amplitudes", "b"), ("atilde", "Wp @ np.diag(alpha) @ np.linalg.pinv(Wp)"), ("time", "t"),
             ("dynamics", "dyn"), ("reconstructed_data", "modes @ dyn")]
    if A:
        table.append(("A", "modes @ np.diag(alpha) @ np.linalg.pinv(modes)"))
    same(M, o, what, table, w, "bop", E)
    t2 = M.arr("t2", 1, True)
    M.compare(f"{what}: forecast", S.method(o, "forecast", t=t2), "modes @ np.diag(b) @ np.exp(np.outer(alpha, t2))", loc(ctx, "BOPDMD", "forecast"),
              key="bop:forecast", **E)
    ctx.absorb(S)


def search(ctx, proj, maxiter, rank):
    """BOPDMD with the search for the eigenvalues itself: candidates p1, p2, ... are what _push_eigenvalues returns, the fit of
    pk is better than that of pj exactly when rank[k] < rank[j]"""
    M, o = model(ctx, "BOPDMD", dict(svd_rank=3, use_proj=proj, compute_A=True))
    S = M.S
    cand = []

    def push(env):
        cand.append(M.arr(f"p{len(cand) + 1}", 1))
        return cand[-1]

    def lstsq(I, args, kwargs, node, st):
        if args and args[0].term is None:
            return Val({("t", tuple(I.fresh(st, node, frozenset({"step"}), None, "C", extra=f"step{n}") for n in range(4)))}), st
        return None
    M.ext("numpy.linalg.lstsq", lstsq)

    def newest(t):
        names = [s.args[0] for s in subterms(t) if s.op == "p"]
        return max([int(n[1:]) for n in names if n[0] == "p" and n[1:].isdigit()], default=0)

    def truth(t):
        if t.op not in ("Lt", "LtE", "Gt", "GtE") or len(t.args) != 2 or not any("norm" in s.op for s in subterms(t)):
            return None
        a, b = [rank.get(newest(x)) for x in t.args]
        if a is None or b is None:
            return False if t.op in ("Lt", "LtE") else None       # tolerances are not met
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[t.op]
    M.hook(BO + "_push_eigenvalues", push)
    S.set(o, "_varpro_opts_dict", M.value(f"{{'maxiter': {maxiter}, 'maxlam': 2}}"))
    S.I.truths = truth
    S.I.skip_store = small
    X, t = M.arr("X"), M.arr("t", 1, True)
    S.method(o, "fit", X=X, t=t)
    w = loc(ctx, "BOPDMDOperator", "_variable_projection")
    what = f"BOPDMD search(use_proj={proj}, maxiter={maxiter}, rank={rank})"
    e = S.get(o, "eigs")
    ctx.obl(1, f"{what}: eigenvalues are candidates that passed the constraints, and fit no worse than the first")
    if e is not None and "step" in e.deps:
        ctx.viol("search:unconstrained", f"{what}: the published eigenvalues contain a step that did not pass _push_eigenvalues", w)
        return
    k = [n for n, p in enumerate(cand, 1) if e is not None and e.term is not None and M.compare_terms(e, p)]
    if e is None or e.term is None or not cand:
        ctx.undecided.append(f"{what}: eigenvalues have no value number")
        return
    if not k:
        f = M.forms(e)[0]
        if f is None:
            ctx.undecided.append(f"{what}: eigenvalues not comparable")
        else:
            ctx.viol("search:unconstrained", f"{what}: the published eigenvalues {str(f)[:200]} are not what _push_eigenvalues returned", w)
        return
    if rank[k[0]] > rank[1]:
        ctx.viol("search:worse", f"{what}: candidate {k[0]} is published, which fits worse than the first one", w)
    E = {"X": X, "t": t, "e": e}
    M.st = S.st
    E["Ub"] = M.fn("U", [X], 2)
    E["H"] = M.spec("(Ub.conj().T @ X).T" if proj else "X.T", **E)
    E["B"] = M.spec("np.linalg.lstsq(np.exp(np.outer(t, e)), H, rcond=None)[0]", **E)
    E["b"] = M.spec("np.sqrt(np.sum(np.abs(B.T)**2, axis=0))", **E)
    E["W"] = M.spec("B.T / b", **E)
    same(M, o, what, [("amplitudes", "b"), ("modes", "Ub @ W" if proj else "W")], w, "search", E)
    ctx.absorb(S)


RANKS = [(1, {1: 9, 2: 1, 3: 0, 4: 0}), (1, {1: 5, 2: 9, 3: 1, 4: 0}), (1, {1: 0, 2: 7, 3: 8, 4: 9}), (2, {1: 9, 2: 5, 3: 1, 4: 0, 5: 0, 6: 0}),
         (2, {1: 9, 2: 5, 3: 7, 4: 1, 5: 0, 6: 0}), (2, {1: 9, 2: 5, 3: 7, 4: 8, 5: 6, 6: 6})]


def bag(ctx, proj, A, order, drop):
    """statistics over the trials: the first trial fails (converged is False) when drop"""
    M, o = model(ctx, "BOPDMD", dict(use_proj=proj, compute_A=A, svd_rank=3, num_trials=2, eig_sort=order, remove_bad_bags=drop, trial_size=0.5))
    S = M.S
    X, t = M.arr("X"), M.arr("t", 1, True)
    calls = []

    def trial(env):
        k = len(calls)
        calls.append(env)
        r = (M.arr(f"w{k}"), M.arr(f"e{k}", 1), M.arr(f"b{k}", 1, True), M.arr(f"At{k}"), M.arr(f"A{k}"), const(k != 1 or not drop))
        return Val({("t", r)})
    M.hook(BO + "_single_trial_compute_operator", trial)
    bags = []

    def bg(env):
        bags.append((env, M.arr(f"H{len(bags)}"), M.arr(f"i{len(bags)}", 1, True)))
        return Val({("t", bags[-1][1:])})
    M.hook(BO + "_bag", bg)
    S.method(o, "fit", X=X, t=t)
    what = f"BOPDMD(num_trials=2, use_proj={proj}, eig_sort={order}, remove_bad_bags={drop})"
    w = loc(ctx, "BOPDMDOperator", "compute_operator")
    E = {"X": X, "t": t}
    M.st = S.st
    E["Ub"] = M.fn("U", [X], 2)
    E["H"] = M.spec("(Ub.conj().T @ X).T" if proj else "X.T", **E)
    n = 4 if drop else 3
    ctx.obl(1, f"{what}: number of trials")
    if len(calls) != n or len(bags) != n - 1:
        if len(calls) > n + 4 or not calls:
            ctx.undecided.append(f"{what}: trials cannot be followed")
        else:
            ctx.viol("bag:trials", f"{what}: {len(calls) - 1} trials for 2 successes", w)
        return
    M.compare(f"{what}: data of the first fit", calls[0].get("H"), "H", w, key="bag:first", **E)
    for k, (env, h, i) in enumerate(bags):
        M.compare(f"{what}: bagged data", env.get("H"), "H", w, key="bag:data", **E)
        M.compare(f"{what}: data of trial {k}", calls[k + 1].get("H"), f"H{k}", w, key="bag:trial-data")
        M.compare(f"{what}: times of trial {k}", calls[k + 1].get("t"), f"t[i{k}]", w, key="bag:trial-times")
        M.compare(f"{what}: initial eigenvalues of trial {k}", calls[k + 1].get("init_alpha"), "e0", w, key="bag:trial-init")
    for k in range(1, n):
        key = {"real": "np.argsort(e{k})", "imag": "np.argsort(e{k}.imag + 1j * e{k}.real)", "abs": "np.argsort(np.abs(e{k}))"}[order]
        E[f"s{k}"] = M.spec(key.format(k=k), **E)
        for q in "web":
            E[f"{q}s{k}"] = M.spec(f"w{k}[:, s{k}]" if q == "w" else f"{q}{k}[s{k}]", **E)
    table = []
    g = range(n - 2, n)
    for q, name, std in (("w", "modes", "modes_std"), ("e", "eigs", "eigenvalues_std"), ("b", "amplitudes", "amplitudes_std")):
        E[q] = M.spec("(" + " + ".join(f"{q}s{k}" for k in g) + ") / 2", **E)
        E[q + "2"] = M.spec("(" + " + ".join(f"np.abs({q}s{k})**2" for k in g) + ") / 2", **E)
        table += [(name, q), (std, f"np.sqrt(np.abs({q}2 - np.abs({q})**2))")]
    E["wp"] = M.spec("Ub.conj().T @ w", **E)
    table.append(("atilde", "wp @ np.diag(e) @ np.linalg.pinv(wp)"))
    if A:
        table.append(("A", "w @ np.diag(e) @ np.linalg.pinv(w)"))
    same(M, o, what, table, w, "bag", E)
    ctx.absorb(S)


def constraints(ctx, which):
    """what _push_eigenvalues makes of candidate eigenvalues"""
    cons = {"none": "set()", "imag": "{'imag'}", "stable": "{'stable'}", "function": "lambda e: np.conj(e)"}[which]
    M = None

    def options(m):
        nonlocal M
        M = m
        v = m.value(cons)
        return dict(svd_rank=3, eig_constraints=v)
    M, o = model(ctx, "BOPDMD", options)
    S = M.S
    X, t, a = M.arr("X"), M.arr("t", 1, True), M.arr("a", 1)
    M.arr("B"), M.arr("alpha", 1)
    M.hook(BO + "_variable_projection", lambda env: Val({("t", (M.env["B"], M.env["alpha"], const(True)))}))
    S.method(o, "fit", X=X, t=t)
    op = S.get(o, "operator")
    w = loc(ctx, "BOPDMDOperator", "_push_eigenvalues")
    what = f"BOPDMD(eig_constraints={which})"
    if ctx.prog.classes["BOPDMDOperator"].find("_push_eigenvalues") is None:
        ctx.undecided.append(f"{what}: no _push_eigenvalues")
        return
    got = S.method(op, "_push_eigenvalues", eigenvalues=a)
    alts = []
    if which == "stable":
        m = M.spec("a.real > 0.0")
        src = Val({N}, (), T("upd", a.term, m.term, M.spec("1j * a[a.real > 0.0].imag").term))
        alts = ["np.where(a.real > 0, 1j * a.imag, a)", "np.minimum(a.real, 0) + 1j * a.imag", "np.minimum(a.real, 0.0) + 1j * a.imag",
                "np.where(a.real > 0, 0, a.real) + 1j * a.imag"]
    else:
        src = {"none": "a", "imag": "1j * a.imag", "function": "np.conj(a)"}[which]
    M.compare(f"{what}: constrained eigenvalues", got, src, w, key=f"constraint:{which}", alts=alts)
    ctx.absorb(S)


def prox(ctx):
    """the proximal operator is applied to the modes of a projected fit, and to the coefficients of an unprojected one"""
    M, o = model(ctx, "BOPDMD", lambda m: dict(svd_rank=3, compute_A=True, mode_prox=m.value("lambda w: 7 * np.conj(w)")))
    S = M.S
    X, t = M.arr("X"), M.arr("t", 1, True)
    M.arr("B"), M.arr("alpha", 1)
    M.hook(BO + "_variable_projection", lambda env: Val({("t", (M.env["B"], M.env["alpha"], const(True)))}))
    S.I.skip_store = small
    S.method(o, "fit", X=X, t=t)
    M.st = S.st
    E = {"X": X, "t": t, "Ub": M.fn("U", [X], 2)}
    E["b"] = M.spec("np.sqrt(np.sum(np.abs(B.T)**2, axis=0))")
    E["m"] = M.spec("7 * np.conj(Ub @ (B.T / b))", **E)
    same(M, o, "BOPDMD(mode_prox)", [("modes", "m"), ("amplitudes", "b"), ("A", "m @ np.diag(alpha) @ np.linalg.pinv(m)")], loc(ctx, "BOPDMD", "fit"), "prox", E)
    ctx.absorb(S)


def econ(ctx, guess):
    """fit_econ: the data are diag(s) @ V"""
    def options(M):
        P, G = M.arr("P"), M.arr("G", 1)
        return dict(svd_rank=3, proj_basis=P, **({"init_alpha": G} if guess else {}))
    M, o = model(ctx, "BOPDMD", options)
    S = M.S
    got = {}

    def vp(env):
        got.update(env)
        return Val({("t", (M.env["B"], M.env["alpha"], const(True)))})
    M.arr("B"), M.arr("alpha", 1)
    M.hook(BO + "_variable_projection", vp)
    S.I.skip_store = small
    s, V, t = M.arr("s", 1, True), M.arr("V"), M.arr("t", 1, True)
    S.method(o, "fit_econ", s=s, V=V, t=t)
    M.st = S.st
    w = loc(ctx, "BOPDMD", "fit_econ")
    what = f"BOPDMD.fit_econ({'init_alpha' if guess else ''})"
    E = {"x": M.spec("np.diag(s) @ V")}
    M.compare(f"{what}: fitted data", got.get("H"), "x.T", w, key="econ:data", **E)
    M.compare(f"{what}: fitted times", got.get("t"), "t", w, key="econ:times")
    if guess:
        E["ini"] = M.env["G"]
    else:
        E["Y"] = M.spec("(x[:, :-1] + x[:, 1:]) / 2", **E)
        E["Z"] = M.spec("(x[:, 1:] - x[:, :-1]) / (t[1:] - t[:-1])", **E)
        M.st = S.st
        E["Uy"], E["sy"], E["Vy"] = M.fn("U", [E["Y"]], 2), M.fn("s", [E["Y"]], 1, True), M.fn("V", [E["Y"]], 2)
        E["ini"] = M.spec("np.linalg.eig(Uy.conj().T @ Z @ Vy @ np.linalg.inv(np.diag(sy)))[0]", **E)
    M.compare(f"{what}: initial eigenvalues", got.get("init_alpha"), E["ini"], w, key="econ:init_alpha")
    E["b"] = M.spec("np.sqrt(np.sum(np.abs(B.T)**2, axis=0))")
    E["m"] = M.spec("P @ (B.T / b)", **E)
    same(M, o, what, [("modes", "m"), ("amplitudes", "b"), ("eigs", "alpha"), ("dynamics", "np.diag(b) @ np.exp(np.outer(alpha, t))")], w, "econ", E)
    t2 = M.arr("t2", 1, True)
    M.compare(f"{what}: forecast", S.method(o, "forecast", t=t2), "m @ np.diag(b) @ np.exp(np.outer(alpha, t2))", w, key="econ:forecast", **E)
    ctx.absorb(S)


def varpro(ctx, exact, comp, order):
    """VarProDMD from the point the optimizer returns"""
    M, o = model(ctx, "VarProDMD", dict(svd_rank=3, exact=exact, sorted_eigs=order or False, compression=0.5 if comp else 0.0))
    S = M.S
    seen = {}
    M.arr("x", 1, True), M.arr("tried", 1, True), M.arr("res", 1, True), M.arr("jac", 2, True)
    X, t, J, t2 = M.arr("X"), M.arr("t", 1, True), M.arr("J", 1, True), M.arr("t2", 1, True)
    M.full = lambda k: k.op == "arange" or k.op == "not" and k.args[0].op == "Eq" and k.args[0].args[1].op == "c" or \
        k.op in ("where", "nonzero", "flatnonzero", "get", "idx") and isinstance(k.args[0], Term) and M.full(k.args[0])
    S.I.truths = many
    if comp:
        M.hook("pydmd.varprodmd:select_best_samples_fast", lambda env: M.env["J"])

    def ls(I, args, kwargs, node, st):
        names = ["fun", "x0", "jac"]
        a = dict(zip(names, args), **kwargs)
        seen.update(a)
        extra = I.seq_elems(a["args"], st) if "args" in a else []
        if "fun" not in a or extra is None:
            return None
        # the last point that was tried need not be the one that is returned
        r, st = I.call_val(a["fun"], [M.env["tried"], *extra], {}, node, st)
        seen["residual"], seen["extra"] = r, extra
        oid = I.alloc(st, "ext", node, fields={"x": M.env["x"], "fun": M.env["res"], "jac": M.env["jac"]}, extra="optres")
        return Val({("o", oid)}), st
    M.ext("scipy.optimize.least_squares", ls)
    S.method(o, "fit", X=X, time=t)
    M.st = S.st
    w = loc(ctx, "VarProDMD", "fit")
    what = f"VarProDMD(exact={exact}{', compression' if comp else ''}, sorted_eigs={order})"
    E = {"X": X, "t": t, "U": M.fn("U", [X], 2), "s": M.fn("s", [X], 1, True), "V": M.fn("V", [X], 2)}
    E["D"] = M.spec("X" if exact else "np.diag(s) @ V.conj().T", **E)
    E["Dj"] = M.spec("D[:, J].T" if comp else "D.T", **E)
    E["tj"] = M.spec("t[J]" if comp else "t", **E)
    E["Y"] = M.spec("(D[:, :-1] + D[:, 1:]) / 2", **E)
    E["Z"] = M.spec("(D[:, 1:] - D[:, :-1]) / (t[1:] - t[:-1])", **E)
    M.st = S.st
    E["Uy"], E["sy"], E["Vy"] = M.fn("U", [E["Y"]], 2), M.fn("s", [E["Y"]], 1, True), M.fn("V", [E["Y"]], 2)
    E["w0"] = M.spec("np.linalg.eigvals(Uy.conj().T @ Z @ Vy @ np.diag(1 / sy))", **E)
    M.compare(f"{what}: initial eigenvalues", seen.get("x0"), "np.concatenate([w0.real, w0.imag])", w, key="varpro:initial", **E)
    ex = seen.get("extra") or [None] * 3
    M.compare(f"{what}: fitted times", ex[0], "tj", w, key="varpro:times", **E)
    M.compare(f"{what}: fitted data", ex[1], "Dj", w, key="varpro:data", **E)
    E["u"] = M.spec("x[:x.shape[-1] // 2] + 1j * x[x.shape[-1] // 2:]", **E)
    E["P"] = M.spec("np.exp(np.outer(tj, u))", **E)
    E["svd"] = M.spec("np.linalg.svd(P, full_matrices=False)", **E)
    F = dict(E)
    E["B"] = M.spec("svd[2].conj().T @ np.diag(1 / svd[1]) @ svd[0].conj().T @ Dj", **E)
    F["B"] = M.spec("np.linalg.pinv(P) @ Dj", **E)
    for G in (E, F):
        derive(M, G, exact, order)
    table = [("modes", "modes"), ("eigs", "eigs"), ("amplitudes", "amp"), ("dynamics", "dyn"), ("reconstructed_data", "modes @ dyn"),
             ("frequency", "eigs.imag / (2 * np.pi)"), ("growth_rate", "eigs.real"), ("selected_samples", "J" if comp else None)]
    same(M, o, what, [x for x in table if x[1]], w, "varpro", E, F)
    src = "modes @ np.diag(amp) @ np.exp(np.outer(eigs, t2))"
    M.compare(f"{what}: forecast", S.method(o, "forecast", time=t2), src, loc(ctx, "VarProDMD", "forecast"), key="varpro:forecast",
              alts=[M.spec(src, **F)], **E)
    ctx.absorb(S)


def derive(M, E, exact, order):
    E["xi"] = M.spec("B.T" if exact else "U @ B.T", **E)
    E["b"] = M.spec("np.linalg.norm(xi, axis=0)", **E)
    key = {"real": "np.abs(u.real)", "imag": "np.abs(u.imag)", "abs": "np.abs(u)"}.get(order)
    E["modes"], E["amp"], E["eigs"] = M.spec("xi / b", **E), E["b"], E["u"]
    if key:
        E["i"] = M.spec(f"np.argsort({key})[::-1]", **E)
        E["modes"], E["amp"], E["eigs"] = M.spec("modes[:, i]", **E), M.spec("b[i]", **E), M.spec("u[i]", **E)
    E["dyn"] = M.spec("np.diag(amp) @ np.exp(np.outer(eigs, t))", **E)


def run(ctx):
    B = (True, False)
    tasks = [(f"bop {p} {a} {b} {g}", bop, p, a, b, g) for p in B for a in B for b in B for g in B]
    tasks += [(f"search {p} {n} {r}", search, p, n, r) for p in B for n, r in RANKS]
    tasks += [(f"bag {p} {a} {o} {d}", bag, p, a, o, d) for p in B for a in B for o in ("real", "imag", "abs") for d in B]
    tasks += [(f"constraints {c}", constraints, c) for c in ("none", "imag", "stable", "function")]
    tasks += [("prox", prox), ("econ", econ, True), ("econ guess", econ, False)]
    tasks += [(f"varpro {e} {c} {o}", varpro, e, c, o) for e in B for c in B for o in (None, "real", "imag", "abs")]
    ctx.pmap(tasks)
