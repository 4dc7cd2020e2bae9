"""Pre- and post-processing.  A model wrapped by zero_mean / svd_projection / randomized / hankel preprocessing is fitted on symbolic
data; what the wrapped model is trained on, and what the wrapper publishes as reconstruction, are compared with the documented formulas
for the transformation of the most recent fit; every other quantity is the one of the wrapped model."""
from engine.scenario import DEFAULT, make
from engine.layout import Nd, add, data as entries, div, mul
from engine.vals import NONE, N, T, Val, const
from .common import WR
from .formula import Mod

RULE = "value number of the training data and of the reconstruction equal the documented formulas"
MIN_OBLIGATIONS = 60
ASSUMPTIONS = ["numpy follows its documentation", "floating point arithmetic is treated as exact"]
MOD = {fn: mod for mod, fn in WR}
# kind -> (function, constructor arguments, {name: formula over X}, training data, reconstruction from R)
KINDS = {
    "zero_mean": ("zero_mean_preprocessing", {}, {"m": "np.average({X})"}, "{X} - m", "{R} + m"),
    "zero_mean axis=1": ("zero_mean_preprocessing", {"axis": 1}, {"m": "np.average({X}, axis=1, keepdims=True)"}, "{X} - m", "{R} + m"),
    "zero_mean axis=0": ("zero_mean_preprocessing", {"axis": 0}, {"m": "np.average({X}, axis=0, keepdims=True)"}, "{X} - m", None),
    "svd_projection": ("svd_projection_preprocessing", {"svd_rank": 2}, {"U": "svdU({X})"}, "U.conj().T @ {X}", "U @ {R}"),
    "randomized": ("randomized_preprocessing", {"svd_rank": 2}, {"Q": "rqbQ({X})"}, "Q.conj().T @ {X}", "Q @ {R}"),
    "hankel": ("hankel_preprocessing", {"d": 2}, {"H": "hankel({X})"}, "H", None),
}


def loc(ctx, fn):
    m = ctx.prog.modules[MOD[fn]]
    f = ctx.prog.resolve(m, fn)[1]
    return f"{m.relpath}:{f.node.lineno} in {fn}"


def base(ctx):
    M = Mod(ctx)
    M.svd()

    M.hook("pydmd.utils:pseudo_hankel_matrix", lambda env: M.fn("hankel", [env["X"]], 2))
    return M


def value(M, src, X):
    M.st = M.S.st
    if src.startswith("svdU("):
        return M.fn("U", [X], 2)
    if src.startswith("hankel("):
        return M.fn("hankel", [X], 2)
    if src.startswith("rqbQ("):
        return rqbq(M, X)
    return M.spec(src.replace("{X}", "data"), data=X)


def rqbq(M, X):
    E = dict(data=X, O=M.env["Om"])
    E["Z"] = M.spec("data @ O", **E)
    for _ in range(1):
        E["Q"] = M.spec("np.linalg.qr(Z)[0]", **E)
        E["R"] = M.spec("np.linalg.qr(data.conj().T @ Q)[0]", **E)
        E["Z"] = M.spec("data @ R", **E)
    return M.spec("np.linalg.qr(Z)[0]", **E)


def wrap(M, kind, inner):
    fn, args, *_ = KINDS[kind]
    kw = {k: const(v) for k, v in args.items()}
    if kind == "randomized":
        kw.update(test_matrix=M.env["Om"], power_iters=const(1), oversampling=const(0), seed=NONE)
    return M.S.func(MOD[fn], fn, label=f"{fn}({kind})", dmd=inner, **kw)


def chain(ctx, kinds, c, refit, positional):
    """kinds: outermost first"""
    M = base(ctx)
    S = M.S
    X, X2, Om = M.arr("X"), M.arr("X2"), M.arr("Om", 2, True)
    d = make(S, c, label="inner")
    w = d
    for k in reversed(kinds):
        w = wrap(M, k, w)
        if w is None:
            ctx.undecided.append(f"{k}({c}) cannot be built")
            return
    what = "(".join(kinds) + f"({c}" + ")" * len(kinds)
    I = M.arr("I")

    def go(data, tag):
        kw = {"I": I} if c == "DMDc" else {}
        if positional:
            S.run("fit" + tag, lambda st: fit_pos(S, w, data, kw, st))
        else:
            S.method(w, "fit", "fit" + tag, X=data, **kw)
    go(X, "@1")
    if refit:
        S.get(w, "reconstructed_data")
        go(X2, "@2")
        what += " refitted"
    data = X2 if refit else X
    steps = []
    for k in kinds:
        fn, args, names, train, rec = KINDS[k]
        E = {n: value(M, src, data) for n, src in names.items()}
        if any(v is None for v in E.values()):
            ctx.undecided.append(f"{what}: formula of {k} has no value number")
            return
        steps.append((k, E, rec))
        data = M.spec(train.replace("{X}", "data"), data=data, **E)
    M.compare(f"{what}: training data of the wrapped model", S.get(d, "snapshots"), data, loc(ctx, KINDS[kinds[0]][0]),
              key=f"train:{'/'.join(kinds)}")
    # everything else is that of the wrapped model
    for q in ("modes", "eigs", "amplitudes", "dynamics", "operator", "snapshots", "dmd_timesteps", "original_timesteps", "frequency",
              "growth_rate"):
        a, b = S.get(d, q), S.get(w, q, label="wrapped " + q)
        ctx.obl(1, f"{what}: {q} is that of the wrapped model")
        if a is None or b is None:
            if (a is None) != (b is None):
                ctx.viol(f"proxy:{q}", f"{what}: {q} is available on only one of wrapper and wrapped model", loc(ctx, KINDS[kinds[0]][0]))
            continue
        if a.term is not None and b.term is not None and M.compare_terms(a, b) is False or a.oids() and b.oids() and q == "operator" and \
                not set(a.oids()) & set(b.oids()):
            ctx.viol(f"proxy:{q}", f"{what}: {q} differs from that of the wrapped model", loc(ctx, KINDS[kinds[0]][0]))
    # reconstruction
    if any(rec is None for _, _, rec in steps) or c == "DMDc":
        ctx.absorb(S)
        return
    M.assume(d, "reconstructed_data", M.arr("REC"))
    R = M.env["REC"]
    for k, E, rec in reversed(steps):
        R = M.spec(rec.replace("{R}", "inner"), inner=R, **E)
    M.compare(f"{what}: reconstructed_data", S.get(w, "reconstructed_data", label="rec"), R, loc(ctx, KINDS[kinds[0]][0]),
              key=f"reconstruction:{'/'.join(kinds)}")
    ctx.absorb(S)


def fit_pos(S, w, data, kw, st):
    f, st = S.I.load_attr(w, "fit", S.node, st)
    return S.I.call_val(f, [data], kw, S.node, st)


def delay(ctx, d, n, m, method):
    """entry (i, t) of the reconstruction of the delay embedding: first / average / weighted average of the occurrences of time t"""
    M = base(ctx)
    S = M.S
    X, R, W = M.arr("X"), M.arr("REC"), M.arr("W", 1, True)
    inner = make(S, "DMD", label="inner")
    w = S.func(MOD["hankel_preprocessing"], "hankel_preprocessing", dmd=inner, d=const(d),
               reconstruction_method=W if method == "weights" else const(method))
    if w is None:
        ctx.undecided.append("hankel_preprocessing cannot be built")
        return
    S.method(w, "fit", X=X)
    M.assume(inner, "reconstructed_data", R)
    got = S.get(w, "reconstructed_data")
    Y = entries("REC", d * n, m)
    ws = [2, 3, 5][:d]
    want = []
    for i in range(n):
        for t in range(m + d - 1):
            ks = [k for k in range(d) if 0 <= t - k < m]
            if method == "first":
                ks = ks[-1:]
            tot = tw = 0
            for k in ks:
                x = ws[k] if method == "weights" else 1
                tot, tw = add(tot, mul(x, Y.cells[(k * n + i) * m + t - k])), tw + x
            want.append(div(tot, tw))
    M.layout(f"hankel_preprocessing(d={d}, {method!r}): reconstructed_data for {n} space points and {m} columns", got,
             {R: Y, W: Nd((d,), ws)}, Nd((n, m + d - 1), want), loc(ctx, "hankel_preprocessing"), key=f"hankel:{method}")
    ctx.absorb(S)


def hodmd(ctx):
    """HODMD is a delay embedding of the data projected onto the leading left singular vectors"""
    M = base(ctx)
    S = M.S
    X = M.arr("X")
    o = make(S, "HODMD", svd_rank_extra=const(2), d=const(2))
    S.method(o, "fit", X=X)
    M.st = S.st
    U = M.fn("U", [X], 2)
    P = M.spec("U.conj().T @ X", U=U)
    M.st = S.st
    H = M.fn("hankel", [P], 2)
    f = ctx.prog.classes["HODMD"].find("fit")
    w = f"{f.module.relpath}:{f.node.lineno} in HODMD.fit"
    M.compare("HODMD: ho_snapshots", S.get(o, "ho_snapshots"), H, w, key="hodmd:ho_snapshots")
    M.compare("HODMD: snapshots", S.get(o, "snapshots"), "X", w, key="hodmd:snapshots")
    ctx.absorb(S)


def run(ctx):
    tasks = []
    for k in KINDS:
        for refit in (False, True):
            for pos in (False, True):
                for c in ("DMD", "BOPDMD", "DMDc"):
                    if c == "BOPDMD" or c == "DMDc" and (pos or refit):
                        continue
                    tasks.append((k, chain, [k], c, refit, pos))
    for ks in (["zero_mean axis=1", "svd_projection"], ["svd_projection", "zero_mean axis=1"], ["svd_projection", "hankel"],
               ["zero_mean", "randomized"], ["hankel", "svd_projection"]):
        tasks.append(("/".join(ks), chain, ks, "DMD", False, False))
    tasks.append(("HODMD", hodmd))
    for m in ("first", "mean", "weights"):
        tasks += [(f"hankel {m}", delay, *z, m) for z in ((1, 2, 3), (2, 2, 3), (3, 2, 4), (3, 1, 3))]
    ctx.pmap(tasks)
