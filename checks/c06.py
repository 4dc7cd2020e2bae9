"""The numerical building blocks (pydmd.utils, the constrained solvers of pydmd.pidmd_utils, Snapshots) compute what they document:
the value number of every result is compared with the documented formula, for every branch of the rank rules."""
from engine.layout import Nd, data as entries
from engine.vals import NONE, N, T, Val, const
from .formula import Mod

RULE = "value number of the result and of the documented formula have the same linear-algebra normal form"
MIN_OBLIGATIONS = 20
ASSUMPTIONS = ["numpy / scipy linear algebra follows its documentation", "floating point arithmetic is treated as exact"]
UT = "pydmd.utils"
RANKS = {
    "3": "min(3, s.size)",
    "-1": "min(X.shape[0], X.shape[1])",
    "0.5": "np.searchsorted(np.cumsum(s**2 / (s**2).sum()), 0.5) + 1",
}


def where(ctx, mod, fn):
    f = ctx.prog.resolve(ctx.prog.modules[mod], fn)[1]
    return f"{f.module.relpath}:{f.node.lineno} in {fn}"


def parts(M, v, n):
    """the components of a returned (named) tuple"""
    if v is None:
        return [None] * n
    return [M.S.sub(v, const(i)) for i in range(n)]


def svd(ctx, rank):
    M = Mod(ctx)
    X = M.arr("X")
    E = dict(U=M.spec("np.linalg.svd(X)[0]"), s=M.spec("np.linalg.svd(X)[1]"), Vh=M.spec("np.linalg.svd(X)[2]"))
    E["r"] = M.spec(RANKS[rank], **E)
    r = const(int(rank) if "." not in rank else float(rank))
    w = where(ctx, UT, "compute_svd")
    got = parts(M, M.S.func(UT, "compute_svd", X=X, svd_rank=r), 3)
    for g, n, src in zip(got, "UsV", ("U[:, :r]", "s[:r]", "Vh.conj().T[:, :r]")):
        M.compare(f"compute_svd(X, {rank}).{n}", g, src, w, key=f"svd:{rank}:{n}", **E)
    M.compare(f"compute_rank(X, {rank})", M.S.func(UT, "compute_rank", X=X, svd_rank=r), E["r"], where(ctx, UT, "compute_rank"),
              key=f"rank:{rank}")
    ctx.absorb(M.S)


def svd_same_rank(ctx):
    """for every rank rule the three factors are cut at the same, computed, rank"""
    M = Mod(ctx)
    X = M.arr("X")

    def rank(env):
        v = M.fn("rank", [env["sigma_svd"]], 0, True)
        return v and v.with_(atoms=frozenset({N}))
    M.hook(f"{UT}:_compute_rank", rank)
    E = dict(U=M.spec("np.linalg.svd(X)[0]"), s=M.spec("np.linalg.svd(X)[1]"), Vh=M.spec("np.linalg.svd(X)[2]"))
    M.st = M.S.st
    E["r"] = M.fn("rank", [E["s"]], 0, True).with_(atoms=frozenset({N}))
    got = parts(M, M.S.func(UT, "compute_svd", X=X), 3)
    for g, n, src in zip(got, "UsV", ("U[:, :r]", "s[:r]", "Vh.conj().T[:, :r]")):
        M.compare(f"compute_svd(X, any rank rule).{n}", g, src, where(ctx, UT, "compute_svd"), key=f"svd:any:{n}", **E)
    ctx.absorb(M.S)


def tlsq(ctx, rank):
    M = Mod(ctx)
    X, Y = M.arr("X"), M.arr("Y")
    w = where(ctx, UT, "compute_tlsq")
    got = parts(M, M.S.func(UT, "compute_tlsq", X=X, Y=Y, tlsq_rank=const(rank)), 2)
    if rank == 0:
        for g, n in zip(got, "XY"):
            M.compare(f"compute_tlsq(X, Y, 0): {n}", g, n, w, key=f"tlsq:0:{n}")
    else:
        E = dict(Vh=M.spec("np.linalg.svd(np.vstack((X, Y)))[2]"))
        E["V"] = M.spec(f"Vh[:min({rank}, Vh.shape[0]), :].conj().T", **E)
        for g, n in zip(got, "XY"):
            M.compare(f"compute_tlsq(X, Y, {rank}): {n}", g, f"{n} @ V @ V.conj().T", w, key=f"tlsq:{rank}:{n}", **E)
    ctx.absorb(M.S)


def rqb(ctx, iters, given):
    M = Mod(ctx)
    S = M.S
    X, Om = M.arr("X"), M.arr("Om")
    r, p = M.arr("rk", 0, True), M.arr("over", 0, True)
    w = where(ctx, UT, "compute_rqb")
    M.hook(f"{UT}:compute_rank", lambda env: r)
    n0 = len(S.I.events)
    v = S.func(UT, "compute_rqb", X=X, svd_rank=const(-1), oversampling=p, power_iters=const(iters),
               test_matrix=Om if given else NONE, seed=const(3))
    got = parts(M, v, 3)
    ctx.obl(1, f"compute_rqb: test matrix {'given' if given else 'drawn'}")
    if given:
        M.compare("compute_rqb: test_matrix", got[2], "Om", w, key="rqb:test")
        om = Om
    else:
        draws = [e for e in S.I.events[n0:] if e.kind == "rng"]
        if len(draws) != 1:
            ctx.undecided.append(f"compute_rqb: {len(draws)} random draws")
        om = got[2]
        if om is None or om.term is None:
            ctx.undecided.append("compute_rqb: no value number for the drawn matrix")
            ctx.absorb(S)
            return
        M.declare(om.term, "Om", 2, True)
        if len(draws) == 1 and draws[0].data["args"]:
            M.compare("compute_rqb: columns of the drawn test matrix", S.sub(draws[0].data["args"][0], const(1)), "rk + over", w,
                      key="rqb:columns")
            M.compare("compute_rqb: rows of the drawn test matrix", S.sub(draws[0].data["args"][0], const(0)), "X.shape[1]", w,
                      key="rqb:rows")
    E = dict(O=om)
    E["Z"] = M.spec("X @ O", **E)
    for _ in range(iters):
        E["Q"] = M.spec("np.linalg.qr(Z)[0]", **E)
        E["R"] = M.spec("np.linalg.qr(X.conj().T @ Q)[0]", **E)
        E["Z"] = M.spec("X @ R", **E)
    E["Q"] = M.spec("np.linalg.qr(Z)[0]", **E)
    M.compare(f"compute_rqb(power_iters={iters}): Q", got[0], E["Q"], w, key=f"rqb:{iters}:Q")
    M.compare(f"compute_rqb(power_iters={iters}): B", got[1], "Q.conj().T @ X", w, key=f"rqb:{iters}:B", **E)
    ctx.absorb(S)


def differentiate(ctx):
    M = Mod(ctx)
    X, dt = M.arr("X"), M.arr("dt", 0, True)
    M.shapes()
    v = M.S.func(UT, "differentiate", X=X, dt=dt)
    S = M.S
    I = S.I
    E = dict(a=M.spec("(X[:, 2:] - X[:, :-2]) / (2 * dt)"), b=M.spec("(4 * X[:, 1] - X[:, 2] - 3 * X[:, 0]) / (2 * dt)"),
             c=M.spec("(3 * X[:, -1] - 4 * X[:, -2] + X[:, -3]) / (2 * dt)"))
    full = T("slice", T("c", None), T("c", None), T("c", None))
    t = T("empty", X.term)
    for ix, x in ((T("slice", T("c", 1), T("c", -1), T("c", None)), "a"), (T("c", 0), "b"), (T("c", -1), "c")):
        t = T("upd", t, T("tuple", full, ix), E[x].term)
    want = Val({N}, (), t)
    M.compare("differentiate(X, dt) (second order differences)", v, want, where(ctx, UT, "differentiate"), key="differentiate")
    ctx.absorb(S)


def hankel(ctx, d, n, m):
    M = Mod(ctx)
    X = M.arr("X")
    got = M.S.func(UT, "pseudo_hankel_matrix", X=X, d=const(d))
    x = entries("X", n, m)
    want = [x.cells[i * m + j + k] for k in range(d) for i in range(n) for j in range(m - d + 1)]
    M.layout(f"pseudo_hankel_matrix(X, {d}) for {n} space points and {m} snapshots", got, {X: x}, Nd((d * n, m - d + 1), want),
             where(ctx, UT, "pseudo_hankel_matrix"), key="hankel")
    ctx.absorb(M.S)


def snapshots(ctx, shape, m, listed):
    """Snapshots: the space dimensions of every snapshot in C order, one column per snapshot"""
    M = Mod(ctx)
    S = M.S
    x = entries("X", *shape, m)
    n = len(x.cells) // m
    if listed:
        vs = [M.arr(f"x{t}", len(shape)) for t in range(m)]
        leaves = {v: Nd(shape, x.cells[t::m]) for t, v in enumerate(vs)}
        S.I.distinct = True
        S.run("list", lambda st: (S.I.mk_list(vs, S.node, st), st))
        X = S.results["list"] if "list" in S.results else None
    else:
        X = M.arr("X", len(shape) + 1)
        leaves = {X: x}
    f = ctx.prog.classes["Snapshots"].find("__init__")
    w = f"{f.module.relpath}:{f.node.lineno} in Snapshots"
    o = S.new("Snapshots", X=X)
    got = S.get(o, "snapshots") if o is not None else None
    M.layout(f"Snapshots({'list of ' if listed else 'array of '}{'x'.join(map(str, shape))} snapshots).snapshots", got, leaves,
             Nd((n, m), x.cells), w, key=f"snapshots:{'list' if listed else 'array'}")
    ctx.absorb(S)


def uppertri(ctx):
    M = Mod(ctx)
    X, Y = M.arr("X"), M.arr("Y")
    v = M.S.func("pydmd.pidmd_utils", "compute_uppertriangular", X=X, Y=Y)
    got = M.S.sub(v, const("A")) if v is not None else None
    E = dict(R=M.spec("scipy.linalg.rq(X, mode='economic')[0]"), Q=M.spec("scipy.linalg.rq(X, mode='economic')[1]"))
    M.compare("compute_uppertriangular: A", got, "np.triu(Y @ Q.conj().T) @ np.linalg.pinv(R)",
              where(ctx, "pydmd.pidmd_utils", "compute_uppertriangular"), key="uppertriangular", **E)
    ctx.absorb(M.S)


def run(ctx):
    tasks = [(f"svd {r}", svd, r) for r in RANKS] + [("svd", svd_same_rank)]
    tasks += [(f"tlsq {r}", tlsq, r) for r in (0, 2)]
    tasks += [("rqb", rqb, k, g) for k in (0, 1, 2) for g in (True, False)]
    tasks += [("differentiate", differentiate), ("uppertriangular", uppertri)]
    tasks += [("hankel", hankel, *z) for z in ((1, 2, 3), (2, 2, 4), (3, 2, 5), (3, 1, 3), (2, 3, 2))]
    tasks += [("snapshots", snapshots, s, 3, b) for s in ((2,), (2, 3), (2, 3, 2)) for b in (False, True)]
    ctx.pmap(tasks)
