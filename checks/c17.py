"""Number-kind analysis: every abstract value carries whether it is real or possibly complex.  With complex snapshots, no operation on
the way to a published quantity may discard an imaginary part by storing into a real array or converting to a real type, and no
published quantity of the data space may be real whatever the data."""
from engine.scenario import CLASSES, Session, fit, make, public_methods, public_props
from engine.vals import NONE, Val, const
from . import common

RULE = "no possibly complex value is stored in a real array or converted to a real type; quantities of the data space are not real by construction"
MIN_OBLIGATIONS = 300
ASSUMPTIONS = ["numpy's result types as modelled in engine/models.py"]
REAL = {"COSTS", "mrCOSTS"}      # documented for real data: reconstructions are the real parts of the modal sums
SPACE = {"snapshots", "snapshots_y", "ho_snapshots", "modes", "eigs", "dynamics", "reconstructed_data", "A", "B", "atilde", "operator",
         "delay_embeddings", "linear_dynamics", "forcing", "reconstructed_embeddings", "sparse_dictionary", "linear", "bias", "forecast", "predict",
         "f", "nonlinear", "hankel", "dehankel", "partial_modes", "partial_dynamics", "partial_reconstructed_data", "partial_eigs",
         "training_modal_coefficients", "forecasted_modal_coefficients", "interpolated_modal_coefficients", "kernel_gradient"}
RESULTS = {"compute_tlsq": (0, 1), "compute_svd": (0, 2), "compute_rqb": (0, 1), "pseudo_hankel_matrix": None, "differentiate": None,
           "compute_optimal_basis": None}


DATA = ("X", "Y", "training", "data", "snapshots", "I", "x", "x0", "y")


def scan(ctx, S, what):
    ctx.absorb(S)
    for e in S.I.events:
        if e.kind == "mutate" and e.data.get("how") == "[]=" or e.kind == "narrow":
            ctx.count("stores_and_conversions")
        if e.kind != "narrow" or e.step.startswith(("plot", "save")) or "plotter" in e.file:
            continue
        if S.integer:
            if e.data["to"] != "I":
                continue
            ctx.viol(f"fraction-lost:{e.fn}", f"{what}, integer data: step '{e.step}' truncates a result to integers or fails ({e.data['how']}) via "
                     + " -> ".join(e.stack[1:]), e.where())
            continue
        if e.data["val"].ck != "C" or e.data["to"] != "R":
            continue
        ctx.viol(f"imaginary-part-lost:{e.fn}", f"{what}: step '{e.step}' discards the imaginary part of complex data ({e.data['how']}) via "
                 + " -> ".join(e.stack[1:]), e.where())


def kind(ctx, what, v, where):
    ctx.obl(1, f"{what}: complex for complex data")
    if v is not None and v.ck == "R":
        ctx.viol(f"always-real:{what}", f"{what} is real whatever the data", where)


def loc(ctx, c, m):
    f = ctx.prog.classes[c].find(m)
    return f"{f.module.relpath}:{f.node.lineno} in {c}.{m}" if hasattr(f, "node") else c


def history(ctx, c, integer=()):
    S = Session(ctx.prog)
    S.integer = integer
    o = make(S, c)
    fit(S, o, c)
    cls = ctx.prog.classes[c]
    if c == "LANDO":
        S.method(o, "analyze_fixed_point")
    for p in public_props(cls):
        v = S.get(o, p)
        if p in SPACE and not integer:
            kind(ctx, f"{c}.{p}", v, loc(ctx, c, p))
    for m in public_methods(cls):
        if m.startswith(("fit", "plot", "save", "load")):
            continue
        v = S.method(o, m)
        if m in SPACE and not integer:
            kind(ctx, f"{c}.{m}", v, loc(ctx, c, m))
    ctx.obl(len(S.steps), f"{c}: {len(S.steps)} steps")
    scan(ctx, S, c)


def function(ctx, mod, name, integer=()):
    S = Session(ctx.prog)
    S.integer = integer
    v = S.func(mod, name, label=name)
    ctx.obl(1, f"{name}")
    scan(ctx, S, name)
    if v is None or name not in RESULTS or integer:
        return
    parts = [v]
    for a in v.atoms:
        if a[0] in ("t", "tn") and RESULTS[name] is not None:
            parts = [x for i, x in enumerate(a[-1]) if i in RESULTS[name]]
    for i, x in enumerate(parts):
        kind(ctx, f"{name}[{i}]" if len(parts) > 1 else name, x, f"{mod} in {name}")


def wrapped(ctx):
    def look(ctx, S, what):
        ctx.obl(len(S.steps), what)
        scan(ctx, S, what)
    common.wrapper_histories(ctx, look)


def run(ctx):
    tasks = [(c, history, c) for c in CLASSES if c not in REAL]
    tasks += [(c + " integers", history, c, DATA) for c in CLASSES]
    for mod in ("pydmd.utils", "pydmd.preprocessing.hankel", "pydmd.preprocessing.zero_mean", "pydmd.preprocessing.svd_projection",
                "pydmd.preprocessing.randomized", "pydmd.rdmd", "pydmd.pidmd_utils", "pydmd.varprodmd", "pydmd.dmd_modes_tuner"):
        m = ctx.prog.modules.get(mod)
        for name in sorted(k for k, x in m.names.items() if x[0] == "func") if m else ():
            if not name.startswith("_"):
                tasks.append((f"function {name}", function, mod, name))
                tasks.append((f"function {name} integers", function, mod, name, DATA))
    tasks.append(("wrappers", wrapped))
    ctx.pmap(tasks)
