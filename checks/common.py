"""Histories shared by several properties."""
from engine.scenario import (CLASSES, DEFAULT, MUTATORS, Session, fit, make, public_methods, public_props)
from engine.loader import FuncInfo
from engine.vals import N, NONE, T, U, Val, const

SKIP = {"fit", "load"}


def use_everything(S, o, c, rounds=1, skip=()):
    """Every public property, method and documented setter of a model."""
    cls = S.prog.classes[c]
    for r in range(rounds):
        suf = "" if r == 0 else f"#{r + 1}"
        for p in public_props(cls):
            if p not in skip:
                S.get(o, p, label=p + suf)
        for m in public_methods(cls):
            if m in SKIP or m in skip:
                continue
            S.method(o, m, label=m + suf)
        for n in sorted({k for k in cls.mro for k in k.setters} if False else setter_names(cls)):
            if n in skip:
                continue
            S.set(o, n, S.param("value", "@set " + n + suf), label="set " + n + suf)


def setter_names(cls):
    out = set()
    for c in cls.mro:
        out |= {n for n in c.setters if not n.startswith("_")}
    return sorted(out)


WR = [("pydmd.preprocessing.hankel", "hankel_preprocessing"),
      ("pydmd.preprocessing.randomized", "randomized_preprocessing"),
      ("pydmd.preprocessing.svd_projection", "svd_projection_preprocessing"),
      ("pydmd.preprocessing.zero_mean", "zero_mean_preprocessing")]
WQ = ("modes", "eigs", "amplitudes", "dynamics", "reconstructed_data", "modes_activation_bitmask")


def wfit(S, w, inner, tag):
    kw = {"X": S.param("X", tag, scope="")}
    if inner == "DMDc":
        kw["I"] = S.param("I", tag, scope="")
    return S.method(w, "fit", "fit" + tag, **kw)


def wget(S, w, q, inner, tag):
    v = S.get(w, q, label=q + tag)
    if v is not None and q == "reconstructed_data" and inner == "DMDc":
        v = S.run("call " + q + tag, lambda st, v=v: S.I.call_val(v, [], {}, S.node, st))
    return v


def wrapper_histories(ctx, scan):
    for mod, fn in WR:
        for inner in ("DMD", "DMDc") if fn != "hankel_preprocessing" else ("DMD",):
            S = Session(ctx.prog)
            d = make(S, inner, label="inner")
            w = S.func(mod, fn, dmd=d)
            if w is None:
                ctx.undecided.append(f"{fn}({inner})")
                continue
            for tag in ("@1", "@2"):
                wfit(S, w, inner, tag)
                for q in WQ:
                    wget(S, w, q, inner, tag)
            ctx.obl(len(S.steps), f"{fn}({inner})")
            scan(ctx, S, f"{fn}({inner})")


CRITERIA = {"module_threshold": ("low_threshold", "up_threshold"), "stable_modes": ("max_distance_from_unity",),
            "integral_contribution": ("n",)}


def tuner_histories(ctx, scan):
    for c in ("DMD", "HankelDMD", "BOPDMD"):
        for inplace in (True, False):
            S = Session(ctx.prog)
            o = make(S, c)
            fit(S, o, c)
            t = S.new("ModesTuner", "tuner", dmds=o, in_place=const(inplace))
            S.method(t, "select", criteria=S.param("criteria", "@sel", kind="fn"))
            for crit, ks in CRITERIA.items():
                S.method(t, "select", label="select " + crit, criteria=const(crit),
                         **{k: S.param(k, "@sel") for k in ks})
            S.method(t, "stabilize")
            S.method(t, "get")
            S.method(t, "copy")
            S.func("pydmd.dmd_modes_tuner", "select_modes", dmd=o, criteria=S.param("criteria", "@selm", kind="fn"),
                   in_place=const(inplace))
            S.func("pydmd.dmd_modes_tuner", "stabilize_modes", dmd=o, in_place=const(inplace))
            S.get(o, "modes")
            S.get(o, "reconstructed_data")
            ctx.obl(len(S.steps), f"ModesTuner({c}, in_place={inplace})")
            scan(ctx, S, f"ModesTuner({c})")


FUNCTIONS = [("pydmd.utils", ["compute_rank", "compute_tlsq", "compute_svd", "compute_rqb", "pseudo_hankel_matrix",
                              "differentiate"])]
PLOTS = ["plot_eigs", "plot_modes_2D", "plot_snapshots_2D", "plot_summary", "plot_eigs_mrdmd"]


def function_histories(ctx, scan):
    S = Session(ctx.prog)
    for mod, names in FUNCTIONS:
        for n in names:
            S.func(mod, n)
    ctx.obl(len(S.steps), "utility functions")
    scan(ctx, S, "utility functions")
    for c in ("DMD", "BOPDMD", "HankelDMD"):
        S = Session(ctx.prog)
        o = make(S, c)
        fit(S, o, c)
        for n in PLOTS:
            if n == "plot_eigs_mrdmd":
                continue
            if n == "plot_summary":
                S.func("pydmd.plotter", n, dmd=o)
            else:
                S.func("pydmd.plotter", n, dmd=o)
        ctx.obl(len(S.steps), f"plots of {c}")
        scan(ctx, S, f"plots of {c}")
