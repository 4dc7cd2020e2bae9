"""Invalid requests are rejected explicitly.  For every option, argument and key whose documentation restricts its values, the
abstract interpreter runs the public call sequence with an invalid value (everything else symbolic) and requires that *every*
path ends in an exception raised by an explicit raise statement of the package (ValueError, TypeError, RuntimeError or KeyError), no
later than the named step.  A path that returns normally, or fails by accident (AttributeError, UnboundLocalError, ...) before
the check, is reported."""
import ast

from engine.layout import Layout, Nd, NoLayout, data as entries
from engine.scenario import CLASSES, DEFAULT, Session, fit, make
from engine.vals import NONE, N, Val, const, subterms
from . import common

RULE = "with the invalid value every path ends in an explicit raise, no later than the named step"
MIN_OBLIGATIONS = 60
ASSUMPTIONS = ["the list of invalid values in checks/c09.py; values whose validity depends on array contents are not covered"]
EXPLICIT = {"ValueError", "TypeError", "RuntimeError", "KeyError", "NotImplementedError"}


def expr(S, src, label="bad"):
    """the value of a caller-side expression, labelled so that conditions computed from it can be recognised"""
    node = ast.parse(src, mode="eval").body
    v = S.run("argument " + src, lambda st: S.I.ev(node, st))
    for x in S.reach(v):
        h = S.st.heap.get(x) if isinstance(x, str) else None
        if h:
            S.st.heap[x] = {k: (y.add_deps({label}) if isinstance(y, Val) else y) for k, y in h.items()}
    return v.add_deps({label})


def rejected(ctx, S, what, step, loose=False):
    """decide the last step of a session"""
    ctx.obl(1, what)
    n = len(ctx.undecided)
    ctx.absorb(S)
    del ctx.undecided[n:]
    outcome = dict(S.steps).get(step)
    rs = S.raises.get(step) or []
    if outcome == "ok":
        # a guard that depends on nothing but the invalid value, and that the analysis could not evaluate, decides nothing
        for e in S.I.events:
            d = e.data["val"].deps if e.kind == "branch" else ()
            if e.kind == "branch" and e.data["taken"] is None and (d == {"bad"} if not loose else "bad" in d and guard(ctx, e, loose)) and \
                    any(r.kind == "raise" and "bad" in r.pc and r.fn == e.fn for r in S.I.events):
                ctx.undecided.append(f"{what}: {e.where()} tests the value in a way that is not evaluated")
                return
        ctx.viol(f"accepted:{what}", f"{what}: a path returns normally", where_last(S, step))
        return
    bad = [r for r in rs if not r[3] or r[0] not in EXPLICIT]
    if bad and not any(r[3] for r in rs):
        r = bad[0]
        ctx.viol(f"accidental:{what}", f"{what}: fails with {r[0]} instead of an explicit rejection", "%s:%s in %s" % r[4])


SIMPLE = {"Eq", "NotEq", "Lt", "LtE", "Gt", "GtE", "and", "or", "not", "Not", "len", "shape", "ndim", "size", "idx", "get", "c", "p", "squeeze",
          "array", "asarray", "reshape", "tuple", "list", "isinstance", "hasattr", "T", "atleast_1d", "atleast_2d", "Add", "Sub", "Mult", "slice",
          "Is", "IsNot", "In", "NotIn", "neg", "set", "Div", "FloorDiv", "min", "max", "int"}


# tests of computed numbers: they say nothing about whether the arguments fit together
NUMERIC = ("linalg.", "svd", "eig", "dot", "H", "recip", "log", "allclose", "sliding_window_view", "diag", "exp", "isclose", "isnan", "isfinite")
INNER = {"Snapshots.__init__", "Snapshots._unroll_space_dimensions", "Snapshots._check_condition_number", "differentiate", "_svht", "_compute_rank"}


def guard(ctx, e, names):
    """could this test be one of the shapes of the arguments: it reads nothing but sizes, or it is the condition of a raise"""
    t = e.data["val"].term
    fn = e.fn.split(":")[-1]
    if t is None:
        return fn.split(".")[0] in names or fn not in INNER and "Operator" not in fn and guards_raise(ctx, e)
    odd = [x.op for x in subterms(t) if x.op not in SIMPLE]
    return not odd or not any(o.startswith(NUMERIC) for o in odd) and guards_raise(ctx, e)


def guards_raise(ctx, e):
    for m in ctx.prog.modules.values():
        if m.relpath == e.file or str(m.path) == e.file:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.If) and n.test.lineno <= e.line <= n.test.end_lineno and any(isinstance(x, ast.Raise) for x in n.body + n.orelse):
                    return True
    return False


def where_last(S, step):
    for e in reversed(S.I.events):
        if e.step == step:
            return e.where()
    return ""


def option(ctx, c, opt, bad, until="fit", **fixed):
    """constructor option: rejected by the constructor, by fit or by the named query"""
    S = Session(ctx.prog)
    what = f"{c}({opt}={bad})" + ("" if not fixed else " with " + ", ".join(f"{k}={v}" for k, v in fixed.items()))
    kw = {k: expr(S, v, 'fixed') for k, v in fixed.items()}
    kw[opt] = expr(S, bad)
    if c == "MrDMD" and opt == "dmd":
        o = S.new("MrDMD", "ctor", **kw)
    elif c == "ParametricDMD":
        inner = S.new("DMD", "inner")
        o = S.new("ParametricDMD", "ctor", dmd=inner, **{"dmd_fit_args": DEFAULT, "dmd_fit_kwargs": DEFAULT, **kw})
    else:
        o = make(S, c, **kw)
    step = "ctor"
    if o is not None and until != "ctor":
        step = "fit@1"
        r = fit(S, o, c)
        if r is not None and until != "fit":
            step = until
            if until == "cluster_omega":
                S.method(o, until)
            else:
                S.get(o, until)
    rejected(ctx, S, what, step)


SORTED = ["DMD", "FbDMD", "SpDMD", "HankelDMD", "HODMD", "CDMD", "RDMD", "SubspaceDMD"]
OPTIONS = []
for _c in SORTED:
    OPTIONS.append((_c, "sorted_eigs", "'other'"))
    OPTIONS.append((_c, "sorted_eigs", "True"))
    OPTIONS.append((_c, "rescale_mode", "'other'"))
    OPTIONS.append((_c, "rescale_mode", "5"))
OPTIONS += [
    ("HankelDMD", "reconstruction_method", "'other'", "reconstructed_data"),
    ("HODMD", "reconstruction_method", "'other'", "reconstructed_data"),
    ("EDMD", "svd_rank", "0"), ("EDMD", "kernel_params", "3"), ("EDMD", "kernel_params", "[1, 2]"),
    ("LANDO", "kernel_metric", "'other'"), ("LANDO", "kernel_params", "3"), ("LANDO", "kernel_params", "[('gamma', 1)]"),
    ("LANDO", "x_rescale", "'a'"), ("LANDO", "x_rescale", "[1.0]"),
    ("LANDO", "kernel_function", "3"), ("LANDO", "kernel_function", "'linear'"),
    ("BOPDMD", "bag_warning", "1.5"), ("BOPDMD", "bag_maxfail", "1.5"), ("BOPDMD", "bag_maxfail", "None"),
    ("BOPDMD", "varpro_opts_dict", "3"), ("BOPDMD", "varpro_opts_dict", "[1]"),
    ("BOPDMD", "eig_constraints", "'stable'"), ("BOPDMD", "eig_constraints", "['stable']"),
    ("BOPDMD", "eig_constraints", "{'other'}"), ("BOPDMD", "eig_constraints", "{'stable', 'imag'}"),
    ("BOPDMD", "eig_constraints", "{'stable', 'other'}"), ("BOPDMD", "eig_constraints", "{'stable', 'imag', 'conjugate_pairs'}"),
    ("PiDMD", "manifold", "'other'"), ("OptDMD", "factorization", "'other'"), ("OptDMD", "factorization", "None"),
    ("CDMD", "compression_matrix", "'other'"),
    ("DMDc", "lag", "0"), ("DMDc", "lag", "-1"),
    ("HAVOK", "delays", "0"), ("HAVOK", "lag", "0"), ("HAVOK", "num_chaos", "0"), ("HAVOK", "delays", "2.5"),
    ("HAVOK", "lag", "-1"), ("HAVOK", "num_chaos", "1.0"),
    ("VarProDMD", "sorted_eigs", "'other'"), ("VarProDMD", "compression", "1.5"), ("VarProDMD", "compression", "1"),
    ("MrDMD", "dmd", "3"), ("MrDMD", "dmd", "'DMD'"), ("MrDMD", "dmd", "None"),
    ("ParametricDMD", "dmd_fit_args", "3"), ("ParametricDMD", "dmd_fit_args", "'abc'"), ("ParametricDMD", "dmd_fit_kwargs", "3"),
    ("ParametricDMD", "dmd_fit_kwargs", "[1]"),
]
COMBOS = [
    ("BOPDMD", "eig_sort", "'other'", "fit", dict(num_trials="5", remove_bad_bags="False")),
    ("LANDO", "kernel_function", "None", "ctor", dict(kernel_gradient="lambda x, y: x")),
    ("LANDO", "kernel_gradient", "3", "ctor", dict(kernel_function="lambda x, y: x")),
    ("COSTS", "svd_rank", "3", "fit", dict(global_svd="False", force_even_eigs="True")),
    ("mrCOSTS", "n_components_array", "[3, 4]", "ctor", dict(step_size_array="[1, 2, 3]")),
    ("HankelDMD", "reconstruction_method", "[1, 2]", "ctor", dict(d="3")),
    ("HODMD", "reconstruction_method", "[1, 2]", "ctor", dict(d="3")),
] + [("PiDMD", "manifold_opt", "None", "fit", dict(manifold=repr(m), compute_A="True")) for m in
     ("BC", "BCTB", "BCCB", "BCCBunitary", "BCCBsymmetric", "BCCBskewsymmetric")] + \
    [("PiDMD", "manifold_opt", "3", "fit", dict(manifold=repr(m), compute_A="True")) for m in ("BC", "BCCB", "BCTB")] + \
    [("PiDMD", "manifold_opt", "(1, 2, 3)", "fit", dict(manifold=repr(m), compute_A="True")) for m in ("BC", "BCCB", "BCTB")] + \
    [("PiDMD", "compute_A", "False", "fit", dict(manifold=repr(m))) for m in ("uppertriangular", "lowertriangular", "toeplitz", "hankel", "BC", "BCCB", "BCTB")]


def weights(ctx, c, d, shape):
    """weights given as an array of the wrong shape"""
    S = Session(ctx.prog)
    S.I.versioned = True
    W = S.param("weights", scope="ctor", kind="ndarray").with_(deps=frozenset({"bad"}))
    L = Layout({W.term: entries("w", *shape)})

    def truth(t):
        try:
            r = L.of(t)
        except NoLayout:
            return None
        return r if type(r) is bool else None
    S.I.truths = truth
    make(S, c, d=const(d), reconstruction_method=W)
    rejected(ctx, S, f"{c}(d={d}, reconstruction_method=array of shape {shape})", "ctor")


def two(S, label):
    """a list of two models"""
    a, b = S.new("DMD", label + "1"), S.new("DMD", label + "2")
    S.st.frames[S.fid] = dict(S.st.frames[S.fid], first=a, second=b)
    node = ast.parse("[first, second]", mode="eval").body
    return S.run("list", lambda st: S.I.ev(node, st))


# class, constructor options, steps (method, {argument: shape}); the last step has to be rejected
SHAPES = [
    ("BOPDMD", {}, [("fit", dict(X=(2, 5), t=(4,)))]),
    ("BOPDMD", {}, [("fit", dict(X=(2, 5), t=(6,)))]),
    ("BOPDMD", {}, [("fit", dict(X=(2, 5), t=(5, 2)))]),
    ("BOPDMD", dict(init_alpha=(2,)), [("fit", dict(X=(4, 5), t=(5,)))]),
    ("BOPDMD", dict(init_alpha=(4,)), [("fit", dict(X=(4, 5), t=(5,)))]),
    ("BOPDMD", dict(init_alpha=(3, 1)), [("fit", dict(X=(4, 5), t=(5,)))]),
    ("BOPDMD", dict(proj_basis=(4, 2)), [("fit", dict(X=(4, 5), t=(5,)))]),
    ("BOPDMD", dict(proj_basis=(4, 4)), [("fit", dict(X=(4, 5), t=(5,)))]),
    ("BOPDMD", dict(proj_basis=(3,)), [("fit", dict(X=(4, 5), t=(5,)))]),
    ("BOPDMD", dict(proj_basis=(4, 3)), [("fit_econ", dict(s=(2,), V=(3, 5), t=(5,)))]),
    ("BOPDMD", dict(proj_basis=(4, 3)), [("fit_econ", dict(s=(3,), V=(2, 5), t=(5,)))]),
    ("BOPDMD", dict(proj_basis=(4, 3)), [("fit_econ", dict(s=(3,), V=(3, 4), t=(5,)))]),
    ("BOPDMD", dict(proj_basis=(4, 3)), [("fit_econ", dict(s=(3,), V=(3, 6), t=(5,)))]),
    ("BOPDMD", dict(proj_basis=(4, 3)), [("fit_econ", dict(s=(3,), V=(3, 5), t=(5, 2)))]),
    ("BOPDMD", dict(proj_basis=(4, 3), init_alpha=(2,)), [("fit_econ", dict(s=(3,), V=(3, 5), t=(5,)))]),
    ("BOPDMD", dict(proj_basis=(4, 2)), [("fit_econ", dict(s=(3,), V=(3, 5), t=(5,)))]),
    ("BOPDMD", {}, [("fit_econ", dict(s=(3,), V=(3, 5), t=(5,)))]),
    ("BOPDMD", {}, [("fit", dict(X=(2, 5), t=(5,))), ("forecast", dict(t=(3, 2)))]),
    ("HAVOK", {}, [("fit", dict(X=(30,), t=(29,)))]),
    ("HAVOK", {}, [("fit", dict(X=(30,), t=(31,)))]),
    ("HAVOK", {}, [("fit", dict(X=(2, 30), t=(30, 2)))]),
    ("HAVOK", {}, [("fit", dict(X=(2, 3, 30), t=(30,)))]),
    ("HAVOK", dict(delays=10, lag=3), [("fit", dict(X=(27,), t=(27,)))]),
    ("HAVOK", {}, [("dehankel", dict(H=(30,)))]),
    ("DMD", {}, [("fit", dict(X=(2, 5), Y=(2, 4)))]),
    ("DMD", {}, [("fit", dict(X=(2, 5), Y=(2, 6)))]),
    ("DMD", {}, [("fit", dict(X=(2, 5), Y=(3, 5)))]),
    ("EDMD", {}, [("fit", dict(X=(2, 5), Y=(2, 4)))]),
    ("PiDMD", {}, [("fit", dict(X=(2, 5), Y=(2, 4)))]),
    ("LANDO", {}, [("fit", dict(X=(2, 5), Y=(2, 4)))]),
    ("LANDO", dict(x_rescale=(3,)), [("fit", dict(X=(2, 5)))]),
    ("LANDO", {}, [("fit", dict(X=(2, 5))), ("analyze_fixed_point", dict(fixed_point=(3,)))]),
    ("LANDO", {}, [("fit", dict(X=(2, 5))), ("f", dict(X=(3, 4)))]),
    ("LANDO", {}, [("fit", dict(X=(2, 5))), ("predict", dict(x0=(3,)))]),
    ("HankelDMD", dict(d=4), [("fit", dict(X=(2, 3)))]),
    ("HODMD", dict(d=4), [("fit", dict(X=(2, 3)))]),
    ("ParametricDMD", {}, [("fit", dict(X=(3, 2, 4), training_parameters=(2, 1)))]),
    ("ParametricDMD", {}, [("fit", dict(X=(3, 2, 4), training_parameters=(4, 1)))]),
    ("ParametricDMD", {}, [("fit", dict(X=(3, 2, 4), training_parameters=(3, 1, 1)))]),
    ("ParametricDMD", dict(dmd=two), [("fit", dict(X=(3, 2, 4), training_parameters=(3, 1)))]),
    ("ParametricDMD", dict(dmd=two), [("fit", dict(X=(1, 2, 4), training_parameters=(1, 1)))]),
    ("ParametricDMD", {}, [("parameters=", dict(value=(2, 2, 2)))]),
] + [(c, {}, [("fit", dict(X=z, **({"t": (1,)} if c == "BOPDMD" else {"I": (1, 1)} if c == "DMDc" else {})))])
     for c in ("DMD", "FbDMD", "CDMD", "SubspaceDMD", "HankelDMD", "MrDMD", "DMDc", "BOPDMD") for z in ((4, 1), (4,))]


def misfit(ctx, c, opts, steps):
    """arrays whose shapes do not go together"""
    S = Session(ctx.prog)
    S.I.versioned = True
    L = Layout({})
    L3 = const(3)
    if c == "BOPDMD":
        h = lambda I, fn, args, kwargs, node, st: (L3, st)
        S.I.hooks = {"pydmd.utils:compute_rank": h}

    if c == "HAVOK":
        parts = [S.param(n, "@svd", kind="ndarray") for n in "UsV"]
        for v, n, z in zip(parts, "UsV", ((10, 3), (3,), (20, 3))):
            L.memo[v.term.id] = entries(n, *z)
        svd = Val({("t", tuple(parts))})
        S.I.hooks = {"pydmd.utils:compute_svd": lambda I, fn, args, kwargs, node, st: (svd, st)}

    def arg(name, shape, tag):
        v = S.param(name, tag, kind="ndarray", scope="bad").with_(deps=frozenset({"bad"}))
        L.memo[v.term.id] = entries(name, *shape)
        return v

    def truth(t):
        if t.op in ("hasattr", "isinstance") and len(t.args) == 2 and isinstance(t.args[1], str):
            try:
                x = L.of(t.args[0])
            except NoLayout:
                return None
            if isinstance(x, Nd):
                if t.op == "isinstance":
                    names = set(t.args[1].split(","))
                    return "ndarray" in names if names <= {"ndarray", "int", "float", "complex", "str", "bool", "list", "tuple"} else None
                return True if t.args[1] in ("ndim", "shape", "dtype", "size", "T") else None
        try:
            r = L.of(t)
        except NoLayout:
            return None
        return r if type(r) is bool else None
    S.I.truths = truth
    kw = {}
    for k, v in opts.items():
        kw[k] = v(S, "m") if callable(v) else arg(k, v, "@ctor") if isinstance(v, tuple) else const(v)
    if c == "BOPDMD":
        kw.setdefault("svd_rank", L3)
        for k in ("init_alpha", "proj_basis"):
            kw.setdefault(k, NONE)
        kw["use_proj"] = const(True)
        kw["eig_constraints"] = NONE
    if c == "LANDO":
        kw.setdefault("x_rescale", const(1.0))
    if "dmd" in kw:
        o = S.new(c, "ctor", spatial_pod=Val({N}, {"pod"}), approximation=Val({N}, {"apx"}), dmd_fit_args=DEFAULT,
                  dmd_fit_kwargs=DEFAULT, **kw)
    elif c == "HAVOK":
        o = S.new(c, "ctor", **{"dmd": NONE, "delays": const(10), "lag": const(1), "num_chaos": const(1), **kw})
    else:
        o = make(S, c, **kw)
    what = f"{c}({', '.join(f'{k}={v if not callable(v) else 2}' for k, v in opts.items())})"
    for i, (m, args) in enumerate(steps):
        if o is None:
            break
        what += f".{m}({', '.join(f'{k}: {v}' for k, v in args.items())})"
        a = {k: arg(k, v, f"@{i}") for k, v in args.items()}
        if m.endswith("="):
            S.set(o, m[:-1], a["value"], label="step" + str(i))
            continue
        f = ctx.prog.classes[c].find(m)
        for k in f.params()[0][1:] + f.params()[2]:
            a.setdefault(k, DEFAULT if k in ("continuous", "dt", "solve_ivp_opts", "compute_A", "Y") else S.param(k, f"@{i}"))
        S.method(o, m, label="step" + str(i), **a)
    rejected(ctx, S, what, "step" + str(len(steps) - 1),
             loose={k.name for k in ctx.prog.classes[c].mro})


def lowest(I, args, kwargs, node, st):
    xs = [a for a in args if a.term is not None and a.term.op == "c"]
    logs = [a for a in args if a.term is not None and any(s.op in ("log", "log2") for s in subterms(a.term))]
    return (xs[0], st) if len(args) == 2 and len(xs) == 1 and len(logs) == 1 else None


def requests(ctx):
    """invalid arguments of calls on a fitted model"""
    def model(c="DMD", **kw):
        S = Session(ctx.prog)
        o = make(S, c, **{k: expr(S, v) for k, v in kw.items()})
        fit(S, o, c)
        return S, o

    def call(what, step, S, thunk):
        thunk()
        rejected(ctx, S, what, step)
    for c in ("DMD", "CDMD", "BOPDMD", "DMDc"):
        for key in ("'a'", "1.5", "None", "(1, 2)", "[0, 'a']", "[1, 1]", "[0.5]"):
            S, o = model(c)
            k = expr(S, key)
            call(f"{c}()[{key}]", "getitem", S, lambda: S.sub(o, k))
    for c in ("DMD", "HankelDMD", "MrDMD", "HODMD", "DMDc", "CDMD"):
        for key in ("'T0'", "'end'", "0"):
            S, o = model(c)
            k = expr(S, key)
            t = S.get(o, "dmd_time")
            v = S.param("value")
            if t is None:
                ctx.undecided.append(f"{c}.dmd_time raises on every path")
                continue
            call(f"{c}().dmd_time[{key}] = value", "store", S,
                 lambda: S.run("store", lambda st: (NONE, S.I.store_sub(t, k, v, S.node, st))))
    for bad in ("'other'", "3", "None", "'stable'"):
        S, o = model()
        t = S.new("ModesTuner", "tuner", dmds=o)
        k = expr(S, bad)
        call(f"ModesTuner.select({bad})", "select", S, lambda: S.method(t, "select", criteria=k))
    for kw in (dict(max_distance_from_unity="0.1", max_distance_from_unity_inside="0.1"),
               dict(max_distance_from_unity="0.1", max_distance_from_unity_outside="0.1"), dict(),
               dict(max_distance_from_unity_inside="None", max_distance_from_unity_outside="None")):
        S, o = model()
        t = S.new("ModesTuner", "tuner", dmds=o)
        a = {k: expr(S, v) for k, v in kw.items()}
        call(f"ModesTuner.select('stable_modes', {', '.join(f'{k}={v}' for k, v in kw.items())})", "select", S,
             lambda: S.method(t, "select", criteria=const("stable_modes"), **a))
    for c, m, kws in (("MrDMD", "partial_modes", dict(level="1", node="2")),
                      ("MrDMD", "partial_eigs", dict(level="1", node="2")),
                      ("MrDMD", "partial_eigs", dict(level="3", node="0")),
                      ("MrDMD", "partial_amplitudes", dict(level="3", node="1")),
                      ("MrDMD", "partial_dynamics", dict(level="3", node="1")),
                      ("MrDMD", "partial_reconstructed_data", dict(level="3", node="None")),
                      ("MrDMD", "partial_time_interval", dict(level="3", leaf="0")),
                      ("MrDMD", "partial_time_interval", dict(level="1", leaf="2"))):
        S = Session(ctx.prog)
        S.I.hooks = {"builtins.min": lowest}          # there are enough snapshots for the requested levels
        o = make(S, c, max_level=const(2))
        fit(S, o, c)
        a = {k: expr(S, v) for k, v in kws.items()}
        call(f"{c}(max_level=2).{m}({', '.join(f'{k}={v}' for k, v in kws.items())})", m, S, lambda: S.method(o, m, **a))
    for bad in ("'other'", "3"):
        S, o = model("COSTS")
        k = expr(S, bad)
        call(f"COSTS.cluster_omega(transform_method={bad})", "cluster_omega", S, lambda: S.method(o, "cluster_omega", transform_method=k))
    S = Session(ctx.prog)
    call("PrePostProcessingDMD(None)", "ctor", S, lambda: S.new("PrePostProcessingDMD", "ctor", dmd=NONE))


def run(ctx):
    tasks = []
    for t in OPTIONS:
        c, opt, bad = t[:3]
        tasks.append((f"{c} {opt}={bad}", lambda ctx, c, opt, bad, until: option(ctx, c, opt, bad, until), c, opt, bad,
                      t[3] if len(t) > 3 else "fit"))
    for c, opt, bad, until, fixed in COMBOS:
        tasks.append((f"{c} {opt}={bad}", lambda ctx, c, opt, bad, until, fixed: option(ctx, c, opt, bad, until, **fixed),
                      c, opt, bad, until, fixed))
    tasks.append(("requests", requests))
    tasks += [("weights", weights, c, d, z) for c in ("HankelDMD", "HODMD") for d, z in ((3, (2,)), (2, (3,)), (2, (2, 2)))]
    tasks += [("shapes " + t[0], misfit, *t) for t in SHAPES]
    ctx.pmap(tasks)
