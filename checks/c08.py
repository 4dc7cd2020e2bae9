"""Options are honoured.  For every model class and every constructor option that is documented to influence a result, the
information-flow analysis (data and control dependence, through attributes, sub-objects and array stores) must find a flow from
the option into that result.  The dependence analysis over-approximates, so a missing flow means that no execution lets the option
influence the result.  The flows are required with all options symbolic and again with every switch (exact, opt, sorted_eigs,
forward_backward, a given second snapshot set, ...) fixed to each of its values, so an option that is dropped on one path only
is found.  In addition every constructor a model calls on the way (base class, operator, inner model) must receive, under an
option's own name, a value derived from that option, and options stored as public attributes must return what was given."""
import itertools

from engine.loader import FuncInfo
from engine.scenario import CLASSES, DEFAULT, Session, fit, make, public_methods
from engine.vals import NONE, N, Val, const
from . import common

RULE = "every documented option flows into the results it governs, under every combination of switches analysed"
MIN_OBLIGATIONS = 600
ASSUMPTIONS = ["numpy / scipy / sklearn calls let every argument influence their result (over-approximation)"]

M, E, A, D, R = "modes", "eigs", "amplitudes", "dynamics", "reconstructed_data"
ALL5 = (M, E, A, D, R)
BASE = {"svd_rank": ALL5, "tlsq_rank": (M, E), "opt": (A, D, R), "exact": (M,), "rescale_mode": (M,),
        "forward_backward": (M, E), "sorted_eigs": (E, M), "tikhonov_regularization": (M, E)}


def spec(*names, **extra):
    d = {n: BASE[n] for n in names}
    d.update(extra)
    return d


HANKEL = spec("svd_rank", "tlsq_rank", "opt", "exact", "rescale_mode", "forward_backward", "sorted_eigs",
              d=ALL5, reconstruction_method=(R,))
SPEC = {
    "DMD": dict(BASE),
    "FbDMD": spec("svd_rank", "tlsq_rank", "opt", "exact", "rescale_mode", "sorted_eigs"),
    "SpDMD": spec("svd_rank", "tlsq_rank", "exact", "rescale_mode", "forward_backward", "sorted_eigs",
                  abs_tolerance=(A, D, R), rel_tolerance=(A, D, R), max_iterations=(A, D, R), rho=(A, D, R), gamma=(A, D, R),
                  enforce_zero=(A, D, R), zero_absolute_tolerance=(A, D, R)),
    "EDMD": spec("svd_rank", "tlsq_rank", "opt", kernel_metric=ALL5, kernel_params=ALL5),
    "PiDMD": {"manifold": (M, E), "manifold_opt": (M, E), "svd_rank": (M, E), "tlsq_rank": (M, E), "opt": (A, D, R)},
    "HankelDMD": dict(HANKEL, tikhonov_regularization=(M, E)),
    "HODMD": dict(HANKEL, svd_rank_extra=(M, R)),
    "CDMD": spec("svd_rank", "tlsq_rank", "opt", "rescale_mode", "forward_backward", "sorted_eigs",
                 "tikhonov_regularization", compression_matrix=ALL5),
    "RDMD": spec("svd_rank", "tlsq_rank", "opt", "rescale_mode", "forward_backward", "sorted_eigs",
                 "tikhonov_regularization", test_matrix=ALL5, seed=ALL5, oversampling=ALL5, power_iters=ALL5),
    "SubspaceDMD": spec("svd_rank", "opt", "rescale_mode", "sorted_eigs"),
    "MrDMD": {"max_level": ALL5, "max_cycles": ALL5, "svd_rank": ALL5, "tlsq_rank": (M, E), "exact": (M,), "opt": (A, D, R)},
    "OptDMD": {"factorization": (M, E, "predict"), "svd_rank": (M, E, "predict"), "tlsq_rank": (M, E, "predict")},
    "DMDc": {"svd_rank": ALL5, "tlsq_rank": (M, E), "opt": (A, D), "svd_rank_omega": (M, E, R), "lag": (M, E)},
    "BOPDMD": {"svd_rank": ALL5 + ("forecast",), "use_proj": ALL5, "proj_basis": ALL5, "init_alpha": ALL5, "num_trials": ALL5,
               "trial_size": ALL5, "eig_sort": (E, M, A), "eig_constraints": ALL5, "mode_prox": (M, R), "remove_bad_bags": ALL5,
               "varpro_opts_dict": ALL5},
    "VarProDMD": {"svd_rank": ALL5 + ("forecast",), "exact": ALL5, "sorted_eigs": (E, M, A), "compression": ALL5,
                  "optargs": ALL5},
    "LANDO": {"svd_rank": ("modes", "eigs"), "kernel_metric": ("predict", "sparse_dictionary"), "tlsq_rank": ("predict",),
              "kernel_params": ("predict", "sparse_dictionary"), "kernel_function": ("predict", "sparse_dictionary"),
              "kernel_gradient": (M, E), "x_rescale": ("predict", "sparse_dictionary", M, E), "dict_tol": ("sparse_dictionary",
              "predict"), "online": ("predict",), "lstsq": ("predict",)},
    "HAVOK": {"svd_rank": (M, E, R), "delays": (M, E, R), "lag": (M, E, R), "num_chaos": (E, R, "forcing"),
              "structured": (M, E, R), "lstsq": (E, R)},
    "COSTS": {k: ("amplitudes_array", "modes_array", "omega_array", "global_reconstruction") for k in
              ("svd_rank", "global_svd", "initialize_artificially", "use_last_freq", "init_alpha", "pydmd_kwargs",
               "reset_alpha_init", "force_even_eigs", "max_rank", "cluster_centroids")},
    "mrCOSTS": {k: ("ragged_amplitudes_array", "ragged_modes_array", "ragged_omega_array") for k in
                ("window_length_array", "step_size_array", "svd_rank_array", "global_svd_array", "pydmd_kwargs",
                 "costs_recon_kwargs", "n_components_array", "cluster_sweep", "transform_method")},
    "ParametricDMD": {"svd_rank": (R, "forecasted_modal_coefficients"), "tlsq_rank": (R,), "opt": (R,), "exact": (R,),
                      "spatial_pod": (R, "training_modal_coefficients"), "approximation": (R, "interpolated_modal_coefficients")},
}
SPEC["LANDO"].pop("svd_rank")
B = (True, False)
SWITCH = {"exact": B, "opt": (True, False, 1), "sorted_eigs": (False, "abs", "real"), "forward_backward": B,
          "tikhonov_regularization": (None, 0.5), "rescale_mode": (None, "auto"), "tlsq_rank": (2,), "svd_rank": (0, -1, 3, 0.5),
          "reconstruction_method": ("first", "mean"), "d": (1, 3), "enforce_zero": B, "online": B, "permute": (False,),
          "use_proj": B, "num_trials": (0, 5), "eig_sort": ("real", "imag", "abs", "auto"), "remove_bad_bags": B,
          "lag": (1, 2), "lstsq": B, "structured": B, "num_chaos": (0, 1), "kernel_metric": ("linear", "rbf"),
          "factorization": ("svd", "evd"), "manifold": ("unitary", "uppertriangular", "diagonal", "symmetric", "circulant"),
          "compression_matrix": ("uniform", "sparse", "normal", "sample"), "global_svd": B, "use_last_freq": B,
          "initialize_artificially": B, "reset_alpha_init": B, "force_even_eigs": B, "cluster_sweep": B,
          "max_level": (0, 2), "compute_A": B, "light": B}
# (class, fixed option, value) -> the required flows that documentation itself removes in that configuration
EXEMPT = {
    ("BOPDMD", "num_trials", 0): {"trial_size", "remove_bad_bags", "eig_sort"},
    ("BOPDMD", "use_proj", False): {"proj_basis"},
    ("SpDMD", "enforce_zero", False): {"zero_absolute_tolerance"},
    ("HankelDMD", "d", 1): {"reconstruction_method"},
    ("HODMD", "d", 1): {"reconstruction_method"},
    ("COSTS", "global_svd", True): {"force_even_eigs", "max_rank", "reset_alpha_init", "use_last_freq"},
    ("COSTS", "initialize_artificially", False): {"init_alpha", "cluster_centroids"},
    ("COSTS", "use_last_freq", True): {"reset_alpha_init"},
    ("LANDO", "online", True): {"lstsq"},
    ("PiDMD", "manifold", "unitary"): {"manifold_opt"},
    ("PiDMD", "manifold", "uppertriangular"): {"manifold_opt", "svd_rank"},
    ("PiDMD", "manifold", "circulant"): {"manifold_opt"},
    ("PiDMD", "manifold", "symmetric"): {"manifold_opt"},
    ("PiDMD", "manifold", "diagonal"): {"svd_rank"},
    ("mrCOSTS", "cluster_sweep", True): {"n_components_array"},
    ("HAVOK", "structured", True): {"lstsq"},
}
# values the documentation lists for an option but that a class or a second option rules out
REFUSED = {("HAVOK", "num_chaos", 0), ("ParametricDMD", "light", True)}
METHODS = {"predict": {}, "forecast": {}, "global_reconstruction": {}}


def where(ctx, c):
    f = ctx.prog.classes[c].find("__init__")
    return f"{f.module.relpath}:{f.node.lineno} in {c}.__init__"


def observe(S, o, c, wanted):
    out = {}
    cls = S.prog.classes[c]
    if c == "LANDO":
        S.method(o, "analyze_fixed_point", label="analyze_fixed_point")
    if c == "COSTS":
        S.method(o, "cluster_omega", label="cluster_omega")
    for q in wanted:
        if q in METHODS:
            v = S.method(o, q, label=q)
        else:
            v = S.get(o, q, label=q)
            if v is not None and c == "DMDc" and q == R:
                v = S.run("call " + q, lambda st, v=v: S.I.call_val(v, [], {}, S.node, st))
            f = cls.find(q)
            if v is not None and isinstance(f, FuncInfo) and f.kind != "property":
                v = S.method(o, q, label="call " + q)
        out[q] = v
    return out


def config(ctx, c, over, fitkw, inner=None):
    """one configuration: the given options fixed, everything else symbolic"""
    sp = SPEC[c]
    S = Session(ctx.prog)
    kw = {k: const(v) for k, v in over.items()}
    o = make(S, c, **kw)
    if o is None:
        return None
    fk = {k: (NONE if v is None else S.param(k, "@1", scope="")) for k, v in fitkw.items()}
    what = c + "(" + ", ".join(f"{k}={v!r}" for k, v in over.items()) + ")" + \
        ("" if not fitkw else " fitted with " + ", ".join(f"{k}={'None' if v is None else 'given'}" for k, v in fitkw.items()))
    if fit(S, o, c, **fk) is None:
        refused = any((c, k, v) in REFUSED for k, v in over.items())
        if not refused and all(k in SWITCH and v in SWITCH[k] for k, v in over.items()) and len(over) == 1:
            r = S.raises.get("fit@1") or []
            ctx.viol(f"documented-value-refused:{c}:{list(over)[0]}={list(over.values())[0]!r}",
                     f"{what}: fit raises on every path ({', '.join(sorted({str(x[0]) for x in r}))}) although the value is documented",
                     "%s:%s" % r[0][4][:2] if r and r[0][4] else "")
        return None
    wanted = []
    for k in sp:
        for q in sp[k]:
            if q not in wanted:
                wanted.append(q)
    res = observe(S, o, c, wanted)
    ctx.absorb(S)
    skip = set(over)
    for k, v in over.items():
        skip |= EXEMPT.get((c, k, v), set())
    for k, qs in sp.items():
        if k in skip:
            continue
        for q in qs:
            if res.get(q) is None:
                ctx.undecided.append(f"{what}: {q} raises on every path")
                continue
            ctx.obl(1, f"{what}: {k} -> {q}" if not over else None)
            if f"ctor:{k}" not in res[q].deps:
                ctx.viol(f"option-ignored:{c}:{k}:{q}", f"{what}: the option '{k}' cannot influence {q}", where(ctx, c))
    return S


def options(prog, c):
    init = prog.classes[c].find("__init__")
    pos, va, kwonly, kwarg = init.params()
    return [p for p in pos[1:] + kwonly]


def configs(prog, c, tier):
    ops = options(prog, c)
    out = [({}, {})]
    f = prog.classes[c].find("fit")
    pos = f.params()[0][1:] if isinstance(f, FuncInfo) else []
    if "Y" in pos:
        out += [({}, {"Y": None}), ({}, {"Y": 1})]
    sw = [(p, v) for p in ops for v in SWITCH.get(p, ())]
    out += [({p: v}, {}) for p, v in sw]
    if tier == "thorough":
        for (p, v), (q, w) in itertools.combinations(sw, 2):
            if p != q:
                out.append(({p: v, q: w}, {}))
    return out


def binds(ctx, c):
    """constructors called on the way receive every option under its own name"""
    S = Session(ctx.prog)
    o = make(S, c)
    if o is None:
        return
    fit(S, o, c)
    ctx.absorb(S)
    ops = set(options(ctx.prog, c))
    for e in S.I.events:
        if e.kind != "bind" or e.data["fn"].name != "__init__" or e.data["fn"].cls is None:
            continue
        if len(e.stack) == 0:
            continue
        for p in sorted(e.data["explicit"] & ops):
            v = e.data["env"].get(p)
            if v is None:
                continue
            own = {d[5:] for d in v.deps if d.startswith("ctor:")} & ops
            ctx.obl(1)
            if own and p not in own and (c, p, tuple(sorted(own))) not in CROSSED:
                ctx.viol(f"option-crossed:{c}:{e.data['fn'].cls.name}:{p}",
                         f"{c}: {e.data['fn'].cls.name} receives as '{p}' a value computed from {sorted(own)} instead", e.where())


CROSSED = {("HODMD", "svd_rank", ("svd_rank_extra",))}


def attributes(ctx, c):
    """an option that is readable as a public attribute of the same name reads back what was given"""
    cls = ctx.prog.classes[c]
    names = [p for p in options(ctx.prog, c) if isinstance(cls.find(p), FuncInfo) and cls.find(p).kind == "property"]
    if not names:
        return
    S = Session(ctx.prog)
    o = make(S, c)
    if o is None:
        return
    for p in names:
        v = S.get(o, p, label=p + " before fit")
        ctx.obl(1, f"{c}.{p} reads back the option")
        if v is not None and f"ctor:{p}" not in v.deps:
            ctx.viol(f"option-attribute:{c}:{p}", f"{c}.{p} does not return the option given to the constructor", where(ctx, c))
    ctx.absorb(S)


def setters(ctx, c):
    """an option changed through its documented setter governs the next fit"""
    cls = ctx.prog.classes[c]
    for p in common.setter_names(cls):
        if p not in SPEC[c]:
            continue
        S = Session(ctx.prog)
        o = make(S, c)
        S.set(o, p, S.param("value", "@set", kind="scalar" if p == "svd_rank" else "arr"))
        if fit(S, o, c) is None:
            continue
        res = observe(S, o, c, SPEC[c][p])
        ctx.absorb(S)
        for q, v in res.items():
            if v is None:
                continue
            ctx.obl(1, f"{c}.{p} = value; fit: {p} -> {q}")
            if "arg:value@set" not in v.deps:
                ctx.viol(f"setter-ignored:{c}:{p}:{q}", f"{c}: {p} set before fit cannot influence {q}", where(ctx, c))


PRESENTATION = {("COSTS", "fit", "verbose"), ("mrCOSTS", "fit", "verbose"), ("mrCOSTS", "global_cluster_hyperparameter_sweep", "verbose"),
                ("mrCOSTS", "to_netcdf", "filename"), ("mrCOSTS", "to_netcdf", "filepath")}


def arguments(ctx, c, m):
    """every argument of a public method can influence what the method returns or stores"""
    S = Session(ctx.prog)
    o = make(S, c)
    f = ctx.prog.classes[c].find(m)
    pos, va, kwonly, kwarg = f.params()
    names = pos[0 if f.kind == "static" else 1:] + kwonly
    if o is None or not names:
        return
    if not m.startswith("fit"):
        if fit(S, o, c) is None:
            return
        if c == "LANDO" and m in ("nonlinear", "linear"):
            S.method(o, "analyze_fixed_point", label="analyze_fixed_point")
        if c == "COSTS" and ("reconstruction" in m or "separation" in m):
            S.method(o, "cluster_omega", label="cluster_omega")
    n = len(S.I.events)
    v = S.method(o, m, label="Q")
    ctx.absorb(S)
    if v is None:
        ctx.undecided.append(f"{c}.{m}: raises on every path")
        return
    deps = set(v.deps)
    for e in S.I.events[n:]:
        if e.kind in ("attr-write", "mutate") and e.data.get("val") is not None:
            deps |= e.data["val"].deps | set(e.pc or ())
    for p in names:
        if (c, m, p) in PRESENTATION:
            continue
        ctx.obl(1, f"{c}.{m}: {p} -> result or state")
        if f"arg:{p}@Q" not in deps:
            ctx.viol(f"argument-ignored:{c}.{m}:{p}", f"{c}.{m}: the argument '{p}' cannot influence the result or the state",
                     f"{f.module.relpath}:{f.node.lineno} in {c}.{m}")


def functions(ctx, mod, name):
    """every argument of a public function can influence its result"""
    f = ctx.prog.modules[mod].names[name][1]
    S = Session(ctx.prog)
    n = len(S.I.events)
    v = S.func(mod, name, label="Q")
    ctx.absorb(S)
    if v is None:
        ctx.undecided.append(f"{mod}.{name}: raises on every path")
        return
    deps = reach_deps(S, v)
    for e in S.I.events[n:]:
        if e.kind in ("attr-write", "mutate") and e.data.get("val") is not None:
            deps |= e.data["val"].deps | set(e.pc or ())
    pos, va, kwonly, kwarg = f.params()
    for p in pos + kwonly:
        ctx.obl(1, f"{name}: {p} -> result")
        if f"arg:{p}@Q" not in deps:
            ctx.viol(f"argument-ignored:{name}:{p}", f"{mod}.{name}: the argument '{p}' cannot influence the result",
                     f"{f.module.relpath}:{f.node.lineno} in {name}")


def reach_deps(S, v):
    deps = set(v.deps)
    work = [v] + [Val({("o", k)}) for k in S.reach(v) if not isinstance(k, tuple)]
    for w in work:
        for a in w.atoms:
            if a[0] in ("t", "tn"):
                work.extend(a[-1])
            elif a[0] == "o":
                for x in S.st.heap.get(a[1], {}).values():
                    if isinstance(x, Val):
                        deps |= x.deps
        deps |= w.deps
    for k in S.reach(v):
        if isinstance(k, tuple) and k[0] == "closure":
            x = S.st.frames.get(k[1], {}).get(k[2])
            deps |= x.deps if isinstance(x, Val) else frozenset()
    return deps


def forwarded(ctx, partitioned, how):
    """ParametricDMD hands dmd_fit_args / dmd_fit_kwargs to every model it fits"""
    S = Session(ctx.prog)
    inner = [S.new("DMD", f"inner{i}") for i in range(2 if partitioned else 1)]
    if None in inner:
        return
    t = S.param("t", "@given", kind="ndarray")
    src = {"args": "[t]", "kwargs": "{'Y': t}"}[how]
    import ast
    node = ast.parse(src, mode="eval").body
    S.st.frames[S.fid] = dict(S.st.frames[S.fid], t=t, inner0=inner[0], inner1=inner[-1])
    extra = S.run("extra", lambda st: S.I.ev(node, st))
    dmd = S.run("dmd", lambda st: S.I.ev(ast.parse("[inner0, inner1]" if partitioned else "inner0", mode="eval").body, st))
    o = S.new("ParametricDMD", "ParametricDMD", dmd=dmd, spatial_pod=Val({N}, {"ctor:spatial_pod"}), approximation=Val({N}, {"ctor:approximation"}),
              **{"dmd_fit_args": DEFAULT, "dmd_fit_kwargs": DEFAULT, "dmd_fit_" + how: extra})
    what = f"ParametricDMD({'partitioned' if partitioned else 'monolithic'}, dmd_fit_{how})"
    ctx.obl(1, f"{what}: dmd_fit_{how} -> reconstructed_data")
    r = fit(S, o, "ParametricDMD")
    v = S.get(o, R) if r is not None else None
    ctx.absorb(S)
    if v is None:
        ctx.undecided.append(f"{what}: raises on every path")
    elif "arg:t@given" not in v.deps:
        ctx.viol(f"fit-arguments-lost:{partitioned}:{how}", f"{what}: the given arguments cannot influence the reconstruction", where(ctx, "ParametricDMD"))


FUNCTIONS = ["pydmd.utils", "pydmd.preprocessing.hankel", "pydmd.preprocessing.zero_mean", "pydmd.preprocessing.svd_projection",
             "pydmd.preprocessing.randomized", "pydmd.varprodmd"]


def run(ctx):
    tasks = []
    for mod in FUNCTIONS:
        m = ctx.prog.modules.get(mod)
        for name in sorted(k for k, x in m.names.items() if x[0] == "func") if m else ():
            if not name.startswith("_"):
                tasks.append((f"function {name}", functions, mod, name))
    for p in B:
        for how in ("args", "kwargs"):
            tasks.append((f"forwarded {p} {how}", forwarded, p, how))
    for c in CLASSES:
        for m in public_methods(ctx.prog.classes[c]):
            if not m.startswith(("plot", "save", "load", "print")):
                tasks.append((f"{c}.{m}", arguments, c, m))
    for c in CLASSES:
        for over, fk in configs(ctx.prog, c, ctx.tier):
            tasks.append((f"{c} {over} {fk}", config, c, over, fk))
    for c in CLASSES:
        tasks.append((c + " binds", binds, c))
        tasks.append((c + " attributes", attributes, c))
        tasks.append((c + " setters", setters, c))
    ctx.pmap(tasks)
