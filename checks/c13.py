"""Time windows and dynamics.  The time grid, the dynamics, the frequencies and the reconstruction of every model that publishes
dmd_time / original_time are compared with their documented formulas (value numbers in linear-algebra normal form), and the flow
from the six entries of the two time dictionaries into every published quantity is computed: the entries that a quantity has to
depend on reach it, also when it has been queried before they were changed, and no other entry does."""
from engine.layout import Layout, NoLayout, data as entries
from engine.scenario import DEFAULT, fit, make
from engine.vals import NONE, N, T, Val, const
from .formula import Mod
from engine.scenario import Session

RULE = "value number of the result equals the documented formula; influence of the entries of the time dictionaries on each result"
MIN_OBLIGATIONS = 150
ASSUMPTIONS = ["numpy follows its documentation", "floating point arithmetic is treated as exact"]
FAMILY = ["DMD", "FbDMD", "SpDMD", "EDMD", "PiDMD", "CDMD", "RDMD", "SubspaceDMD", "HankelDMD", "HODMD", "DMDc"]
KEYS = ("t0", "tend", "dt")
D, O = "dmd_time", "original_time"
WINDOW = {f"{D}.{k}" for k in KEYS}
TABLE = {
    "modes": set(), "eigs": set(), "amplitudes": set(),
    "frequency": {f"{O}.dt"}, "growth_rate": {f"{O}.dt"},
    "original_timesteps": {f"{O}.{k}" for k in KEYS},
    "dmd_timesteps": WINDOW,
    "dynamics": WINDOW | {f"{O}.t0", f"{O}.dt"},
    "reconstructed_data": WINDOW | {f"{O}.t0", f"{O}.dt"},
}
EXTRA = {("HankelDMD", "reconstructed_data"): WINDOW | {f"{O}.t0"}, ("HODMD", "reconstructed_data"): WINDOW | {f"{O}.t0"},
         ("DMDc", "reconstructed_data"): None}


def loc(ctx, c, m):
    f = ctx.prog.classes[c].find(m)
    return f"{f.module.relpath}:{f.node.lineno} in {c}.{m}" if f else c


def dicts(M, o):
    return {d: M.S.get(o, d) for d in (D, O)}


def set_entries(S, o, mk, tag=""):
    """assign a fresh symbol to each entry of the two dictionaries, the way a caller does"""
    vals = {}
    for d in (D, O):
        t = S.get(o, d)
        if t is None:
            return None
        for k in KEYS:
            v = mk(f"{d}.{k}{tag}")
            vals[d, k] = v
            S.run(f"{d}[{k!r}] = value", lambda st: (NONE, S.I.store_sub(t, const(k), v, S.node, st)))
    return vals


def initial(ctx, c):
    """fit publishes the window 0, 1, ..., n - 1 in two independent dictionaries"""
    M = Mod(ctx)
    S = M.S
    o = make(S, c, **({"compression_matrix": M.arr("C")} if c == "CDMD" else {}))
    X = M.arr("X")
    S.method(o, "fit", X=X, **({"Y": NONE} if "Y" in ctx.prog.classes[c].find("fit").params()[0] else {}))
    w = loc(ctx, c, "fit")
    ds = dicts(M, o)
    for d, t in ds.items():
        if t is None:
            ctx.undecided.append(f"{c}.{d} raises after fit")
            continue
        for k, src in (("t0", "0"), ("tend", "X.shape[1] - 1"), ("dt", "1")):
            if c == "RDMD" and k == "tend":
                continue          # the width of a randomized factor
            M.compare(f"{c}: {d}[{k!r}] after fit", S.sub(t, const(k)), src, w, key=f"initial:{c}:{d}:{k}")
    ctx.obl(1, f"{c}: dmd_time and original_time are independent objects")
    a, b = ds[D], ds[O]
    if a is not None and b is not None:
        shared = set(a.oids()) & set(b.oids())
        if shared:
            ctx.viol(f"shared:{c}", f"{c}: after fit dmd_time and original_time are the same dictionary", w)
    ctx.absorb(S)


def formulas(ctx, c, opt):
    M = Mod(ctx)
    S = M.S
    init = ctx.prog.classes[c].find("__init__")
    kw = {}
    if "opt" in init.params()[0]:
        kw["opt"] = const(opt)
    if c == "HankelDMD":
        kw["d"] = M.arr("d", 0, True)
    o = make(S, c, **kw)
    X = M.arr("X")
    S.method(o, "fit", X=X, **({"Y": NONE} if "Y" in ctx.prog.classes[c].find("fit").params()[0] else {}))

    def mk(n):
        v = M.arr(n.replace(".", "_"), 0, True)
        return v
    vals = set_entries(S, o, mk)
    if vals is None:
        ctx.undecided.append(f"{c}: no time dictionaries after fit")
        return
    E = {("d_" if d == D else "o_") + k: v for (d, k), v in vals.items()}
    what = f"{c}(opt={opt})"

    def cmp(q, src, got=None, **more):
        M.compare(f"{what}: {q}", S.get(o, q) if got is None else got, src, loc(ctx, c, q), key=f"formula:{c}:{q}",
                  **E, **more)
    cmp("dmd_timesteps", "np.arange(d_t0, d_tend + d_dt, d_dt)")
    cmp("original_timesteps", "np.arange(o_t0, o_tend + o_dt, o_dt)")
    M.assume(o, "eigs", M.arr("lam", 1))
    M.assume(o, "amplitudes", M.arr("b", 1))
    M.assume(o, "modes", M.arr("PHI"))
    M.assume(o, "dmd_timesteps", M.arr("ts", 1, True))
    M.assume(o, "snapshots", M.env["X"])
    M.dims = {"size(X,1)": "snapshots", "size(X,0)": "space", "len(ts)": "steps", "size(ts,0)": "steps", "len(b)": "modes", "len(lam)": "modes"}
    k = "0" if isinstance(opt, bool) else (str(opt) if opt >= 0 else f"(X.shape[1] - {-opt})")
    cmp("frequency", "np.log(lam).imag / (2 * np.pi * o_dt)")
    cmp("growth_rate", "lam.real / o_dt")
    cmp("dynamics", f"lam[:, None] ** ((ts - o_t0) / o_dt - {k}) * b[:, None]")
    if c in ("HankelDMD", "HODMD"):
        hankel(ctx, M, o, c, E)
    elif c != "DMDc":
        M.assume(o, "dynamics", M.arr("DYN"))
        cmp("reconstructed_data", "PHI @ DYN")
    ctx.absorb(S)


def hankel(ctx, M, o, c, E):
    """the window of the delay-embedded model: the first column that contains the requested time"""
    S = M.S
    if c != "HankelDMD":
        return
    S.get(o, "reconstructed_data")
    sub = S.get(o, "_sub_dmd")
    t = S.get(sub, D) if sub is not None else None
    if t is None:
        ctx.undecided.append(f"{c}: window of the delay-embedded model")
        return
    for k in ("t0", "tend"):
        M.compare(f"{c}: {k} of the window of the delay-embedded model", S.sub(t, const(k)),
                  f"max(0, (d_{k} - o_t0) // d_dt - (d - 1))", loc(ctx, c, "reconstructed_data"),
                  key=f"formula:{c}:subwindow:{k}", **E)


def control(ctx, lag, given, m=2):
    """DMDc: every reconstructed snapshot is A x(lag steps earlier) + B u, started from the first lag snapshots"""
    M = Mod(ctx)
    S = M.S
    X, I, B, J = M.arr("X"), M.arr("I"), M.arr("B"), M.arr("J")
    o = make(S, "DMDc", lag=const(lag))
    S.method(o, "fit", X=X, I=I, B=B)
    vals = set_entries(S, o, lambda n: M.arr(n.replace(".", "_"), 0, True))
    if vals is None:
        ctx.undecided.append("DMDc: no time dictionaries after fit")
        return
    E = {("d_" if d == D else "o_") + k: v for (d, k), v in vals.items()}
    for q, n, k in (("eigs", "lam", 1), ("modes", "PHI", 2), ("dynamics", "DYN", 2)):
        M.assume(o, q, M.arr(n, k))
    M.assume(o, "snapshots", X)
    S.I.sizes = Layout({X.term: entries("X", 2, m + lag), I.term: entries("I", 1, m), J.term: entries("J", 1, m),
                        M.env["DYN"].term: entries("DYN", 2, m + lag)})

    def truth(t):
        try:
            r = S.I.sizes.of(t)
        except NoLayout:
            return None
        return r if type(r) is bool else None
    S.I.truths = truth
    S.I.distinct = True
    got = S.method(o, "reconstructed_data", control_input=J if given else NONE)
    S.I.truths = {}
    M.st = S.st
    u = "J" if given else "I"
    xs = [M.spec(f"X[:, {k}]") for k in range(lag)]
    for k in range(m):
        xs.append(M.spec(f"(PHI @ np.diag(lam ** (d_dt // o_dt)) @ np.linalg.pinv(PHI)) @ x + B @ {u}[:, {k}]", x=xs[k], **E))
    N_ = {f"x{k}": v for k, v in enumerate(xs)}
    M.compare(f"DMDc(lag={lag}): reconstructed_data({'control_input' if given else ''})", got,
              f"np.array(({', '.join(N_)})).T", loc(ctx, "DMDc", "reconstructed_data"), key="formula:DMDc:reconstructed_data", **N_)
    ctx.absorb(S)


def query(S, c, o, q, tag=""):
    v = S.get(o, q, label=q + tag)
    if v is not None and c == "DMDc" and q == "reconstructed_data":
        return S.method(o, q, label=q + tag, control_input=NONE)
    return v


def flows(ctx, c, before):
    """which entries of the time dictionaries reach which result; before: everything has been queried earlier"""
    S = Session(ctx.prog)
    o = make(S, c)
    fit(S, o, c)
    qs = [q for q in TABLE if ctx.prog.classes[c].find(q)]
    if before:
        for q in qs:
            query(S, c, o, q, "@before")
    vals = set_entries(S, o, lambda n: S.param("tv", "@" + n, kind="scalar"))
    if vals is None:
        ctx.undecided.append(f"{c}: no time dictionaries after fit")
        return
    labels = {f"{d}.{k}" for d in (D, O) for k in KEYS}
    for q in qs:
        want = EXTRA.get((c, q), TABLE[q])
        v = query(S, c, o, q)
        ctx.obl(1, f"{c}.{q}: influenced by {sorted(want) if want is not None else 'the time step'}")
        if v is None:
            ctx.undecided.append(f"{c}.{q} raises")
            continue
        got = {x for x in labels if f"arg:tv@{x}" in v.deps}
        when = " (changed after the quantity was first queried)" if before else ""
        if want is None:
            continue
        w = loc(ctx, c, q)
        for x in sorted(want - got):
            ctx.viol(f"flow:{c}:{q}:{x}", f"{c}.{q} does not depend on {x}{when}", w)
        for x in sorted(got - want):
            ctx.viol(f"flow:{c}:{q}:+{x}", f"{c}.{q} depends on {x}, which must not influence it", w)
    ctx.absorb(S)


def setter(ctx, c):
    """assigning a whole dictionary to dmd_time replaces the window, and only the window"""
    S = Session(ctx.prog)
    o = make(S, c)
    fit(S, o, c)
    for q in ("dynamics", "reconstructed_data"):
        query(S, c, o, q, "@before")
    I = S.I
    f = {f"k:{k!r}": S.param("tv", "@new." + k, kind="scalar") for k in KEYS}
    oid = I.alloc(S.st, "dict", S.node, extra="timedict", fields=f)
    S.set(o, D, Val({("o", oid)}))
    for q in ("dmd_timesteps", "dynamics", "reconstructed_data"):
        if (c, q) == ("DMDc", "reconstructed_data"):
            continue
        v = query(S, c, o, q)
        ctx.obl(1, f"{c}.{q} follows an assigned dmd_time")
        if v is None:
            ctx.undecided.append(f"{c}.{q} raises after dmd_time was assigned")
            continue
        for k in KEYS:
            if f"arg:tv@new.{k}" not in v.deps:
                ctx.viol(f"assign:{c}:{q}:{k}", f"{c}.{q} does not depend on the {k} of an assigned dmd_time", loc(ctx, c, q))
    v = S.get(o, "original_timesteps")
    ctx.obl(1, f"{c}.original_timesteps is independent of dmd_time")
    if v is not None and any(x.startswith("arg:tv@new") for x in v.deps):
        ctx.viol(f"assign:{c}:original", f"{c}.original_timesteps depends on dmd_time", loc(ctx, c, "original_timesteps"))
    ctx.absorb(S)


def run(ctx):
    tasks = []
    for c in FAMILY:
        tasks.append((f"initial {c}", initial, c))
        for opt in (False, True, 2, -2):
            if "opt" in ctx.prog.classes[c].find("__init__").params()[0] or opt is False:
                if c == "SpDMD" and opt is not False:
                    continue
                tasks.append((f"formulas {c}", formulas, c, opt))
        for before in (False, True):
            tasks.append((f"flows {c}", flows, c, before))
        tasks.append((f"setter {c}", setter, c))
    tasks += [("control", control, lag, g) for lag in (1, 2) for g in (False, True)]
    ctx.pmap(tasks)
