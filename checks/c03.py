"""Effect analysis of the query interface.  After a fit (and after one warm-up round, so that lazily computed caches exist)
every public property, prediction, reconstruction and plotting call is interpreted abstractly from the same state.  An
attribute write or in-place write that reaches the model and leaves a different value behind is an effect; it is a
violation when some public query reads that field (or buffer) before writing it, so that the answer of a query depends on
which queries were asked before.  Writes that are undone on every path, and scratch fields always written before they are
read, are not observable and therefore allowed."""
from engine.scenario import CLASSES, MUTATORS, Session, fit, make, public_methods, public_props
from engine.vals import MISSING, NONE, Val
from . import common

RULE = "no query leaves behind a change of model state that a query can observe"
MIN_OBLIGATIONS = 250
ASSUMPTIONS = ["matplotlib state is not part of the model"]

CRITERIA = {"threshold": ("low_threshold", "up_threshold"), "stable_modes": ("max_distance_from_unity",),
            "integral_contribution": ("n",)}

# documented operations that change the model on purpose
CHANGERS = set(MUTATORS) | {"transform_omega", "cluster_hyperparameter_sweep", "global_cluster_hyperparameter_sweep"}


def analyse(ctx, S, o, what, steps):
    """steps: {name: thunk running that query}"""
    S.suf = "#2"
    W = S.st
    before = {k: v for k, v in W.heap.items()}
    reach = {x for x in S.reach(o) if isinstance(x, str)}
    reads, changed, mut = {}, {}, {}
    for name, go in steps.items():
        S.st = W.copy()
        n0 = len(S.I.events)
        v = go()
        if v is None:
            ctx.count("queries_that_raise_for_this_model")
            continue
        ctx.obl(1)
        wrote = {}
        for e in S.I.events[n0:]:
            if e.kind == "attr-read" and e.data["obj"] in reach:
                k = (e.data["obj"], e.data["name"])
                if k not in wrote or still_old(before.get(k[0], {}).get(k[1]), wrote[k], e.data.get("val")):
                    reads.setdefault(k, name)
            elif e.kind == "attr-write" and e.data["obj"] in reach:
                k = (e.data["obj"], e.data["name"])
                wrote.setdefault(k, []).append(e.data["val"])
                ev_old = e.data.get("old")
                if ev_old is None or ev_old.atoms == NONE.atoms or ev_old.atoms == {MISSING} or (
                        e.data["obj"] in S.I.multi and NONE.atoms <= ev_old.atoms):
                    ctx.count("lazy_initialisations")
                    continue
                old = before.get(k[0], {}).get(k[1])
                new = S.st.heap.get(k[0], {}).get(k[1])
                if new != old and not same_val(old, new):
                    changed.setdefault(k, (name, e))
            elif e.kind == "mutate":
                for x in e.data["objs"]:
                    if x in reach and not same_fields(before.get(x, {}), S.st.heap.get(x, {}), S.I.objs[x].kind):
                        mut.setdefault(x, (name, e))
    S.st = W
    for (oid, f), (name, e) in changed.items():
        if (oid, f) in reads:
            cn = S.I.objs[oid].cls.name if S.I.objs[oid].cls is not None else "?"
            ctx.viol(f"query-writes:{what}.{name}:{cn}.{f}",
                     f"{what}.{name} leaves '{f}' of {cn} changed, which '{reads[(oid, f)]}' reads", e.where())
    for x, (name, e) in mut.items():
        ob = S.I.objs[x]
        ctx.viol(f"query-mutates:{what}.{name}:{e.fn}",
                 f"{what}.{name} modifies in place ({e.data['how']}) a {ob.kind} that belongs to the model", e.where())


def still_old(old, written, val):
    """May the value read still be the one the field had before the query (a write on some path only)?"""
    if old is None or val is None:
        return False
    wa, wd = set(), set()
    for w in written:
        wa |= w.atoms
        wd |= w.deps
    return bool((old.atoms - wa) & val.atoms) or bool((old.deps - wd) & val.deps)


def same_val(a, b):
    if a is None or b is None:
        return False
    if a.term is not None and a.term is b.term:
        return True
    return False


def same_fields(a, b, kind):
    if kind == "arr" or kind == "any":
        return False
    for k in set(a) | set(b):
        if a.get(k) != b.get(k):
            return False
    return True


def history(ctx, c):
    S = Session(ctx.prog)
    S.suf = ""
    o = make(S, c)
    fit(S, o, c)
    cls = ctx.prog.classes[c]
    if c == "LANDO":
        S.method(o, "analyze_fixed_point", compute_A=S.param("compute_A", "@fp"))
    steps = {}
    for p in public_props(cls):
        steps[p] = lambda p=p: S.get(o, p, label=p + S.suf)
    for m in public_methods(cls):
        if m in CHANGERS or m in common.SKIP:
            continue
        if c in ("MrDMD",) and ctx.tier == "quick" and m in ("enumerate",):
            continue
        steps[m] = lambda m=m: S.method(o, m, label=m + S.suf)
    for name, go in steps.items():      # warm-up
        go()
    analyse(ctx, S, o, c, steps)
    ctx.absorb(S)


def wrappers(ctx):
    for mod, fn in common.WR:
        S = Session(ctx.prog)
        S.suf = ""
        d = make(S, "DMD", label="inner")
        w = S.func(mod, fn, dmd=d)
        common.wfit(S, w, "DMD", "@1")
        steps = {q: (lambda q=q: common.wget(S, w, q, "DMD", S.suf)) for q in common.WQ}
        for go in steps.values():
            go()
        analyse(ctx, S, w, fn, steps)
        ctx.absorb(S)


def plots(ctx):
    for c in ("DMD", "HankelDMD", "BOPDMD", "MrDMD"):
        S = Session(ctx.prog)
        S.suf = ""
        o = make(S, c)
        fit(S, o, c)
        names = ["plot_eigs", "plot_modes_2D", "plot_snapshots_2D", "plot_summary"] if c != "MrDMD" else ["plot_eigs_mrdmd"]
        m = ctx.prog.modules.get("pydmd.plotter")
        steps = {n: (lambda n=n: S.func("pydmd.plotter", n, label=n + S.suf, dmd=o)) for n in names if n in m.names}
        for p in ("modes", "eigs", "amplitudes", "dynamics", "reconstructed_data"):
            steps[p] = lambda p=p: S.get(o, p, label=p + S.suf)
        for go in steps.values():
            go()
        analyse(ctx, S, o, "plots of " + c, steps)
        ctx.absorb(S)


def criteria(ctx):
    """evaluating a predefined selection criterion is a query too"""
    mod = ctx.prog.modules["pydmd.dmd_modes_tuner"]
    cls = ctx.prog.resolve(mod, "ModesSelectors")[1]
    for c in ("DMD", "HankelDMD", "BOPDMD"):
        S = Session(ctx.prog)
        S.suf = ""
        o = make(S, c)
        fit(S, o, c)

        def go(name, kw):
            def call(st):
                f, st = S.I.load_attr(Val({("k", cls)}), name, S.node, st)
                k, st = S.I.call_val(f, [], {x: S.param(x, "@crit") for x in kw}, S.node, st)
                return S.I.call_val(k, [o], {}, S.node, st)
            return lambda: S.run(name + S.suf, call)
        steps = {n: go(n, kw) for n, kw in CRITERIA.items() if cls.find(n)}
        for p in ("modes", "eigs", "amplitudes", "dynamics", "dmd_time", "dmd_timesteps", "reconstructed_data"):
            steps[p] = lambda p=p: S.get(o, p, label=p + S.suf)
        # the time window of the results is not the one of the data
        S.set(o, "dmd_time", S.param("value", "@time"), label="set time")
        for q in ("modes", "dynamics", "reconstructed_data", "dmd_time", "dmd_timesteps"):
            steps[q]()
        analyse(ctx, S, o, "criteria on " + c, steps)
        ctx.absorb(S)


def run(ctx):
    ctx.guard("criteria", criteria, ctx)
    for c in CLASSES:
        ctx.guard(c, history, ctx, c)
    ctx.guard("wrappers", wrappers, ctx)
    ctx.guard("plots", plots, ctx)
