"""Information-flow analysis of histories fit(data 1), queries, setters, fit(data 2), queries.  Every value carries the set
of symbolic inputs it may depend on (explicit flow through arithmetic, library calls, containers, attributes, caches,
closures and objects reachable from a result).  After the second fit no public query may depend on the first data set, nor
on an activation bitmask or time window chosen before it.  When one does, the analysis names the field(s) that carry the
old value across the refit, by re-running the second fit with the other candidate fields cleansed."""
from engine.scenario import CLASSES, Session, fit, make, public_props
from engine.vals import Val
from . import common

RULE = "after a refit, no public query depends on data, bitmask or time window of an earlier fit"
MIN_OBLIGATIONS = 150
ASSUMPTIONS = ["library calls modelled in engine/models.py keep no hidden state between calls",
               "options changed on purpose between fits (setters of fit parameters, clustering results used as initial "
               "guess) are outside the history"]

SETTERS = ("modes_activation_bitmask", "dmd_time")
METHODS = {"forecast", "predict", "partial_modes", "partial_eigs", "partial_dynamics", "partial_amplitudes",
           "partial_reconstructed_data", "partial_time_interval", "reconstructions_of_timeindex",
           "global_reconstruction", "get_window_indices", "time_window_bins", "time_window_eigs", "save", "enumerate",
           "change_initial", "print_varpro_opts"}


def stale(d):
    return {x for x in d if "@1" in x or "@set " in x}


def res_deps(S, v):
    d = set(v.deps)
    for a in v.atoms:
        if a[0] in ("t", "tn"):
            for y in a[-1]:
                d |= res_deps(S, y)
    for oid in S.reach(v):
        if isinstance(oid, str):
            for x in S.st.heap.get(oid, {}).values():
                d |= x.deps
    return d


def queries(S, o, cls, suf):
    out = {}
    for p in public_props(cls):
        v = S.get(o, p, label=p + suf)
        if v is not None:
            out[p] = v
    for m in sorted(METHODS):
        f = cls.find(m)
        if f is not None and m != "save":
            v = S.method(o, m, label=m + suf)
            if v is not None:
                out[m] = v
    return out


def cleanse(S, cand):
    st = S.st
    for oid in list(st.heap):
        cls = getattr(S.I.objs[oid], "cls", None)
        cn = cls.name if cls is not None else None
        h = None
        for k, v in list(st.heap[oid].items()):
            if (cn, k) in cand and isinstance(v, Val):
                w = strip(v)
                if w is not v:
                    h = h if h is not None else dict(st.heap[oid])
                    h[k] = w
                for sub in S.reach(v):
                    if isinstance(sub, str) and S.I.objs[sub].kind != "inst":
                        f = st.heap.get(sub, {})
                        f2 = {kk: strip(vv) if isinstance(vv, Val) else vv for kk, vv in f.items()}
                        if any(f2[kk] is not f[kk] for kk in f):
                            st.heap[sub] = f2
        if h is not None:
            st.heap[oid] = h


def strip(v, depth=0):
    s = stale(v.deps)
    g = v.gate
    if g is not None and depth < 20:
        a, b = strip(g[1], depth + 1), strip(g[2], depth + 1)
        if a is not g[1] or b is not g[2]:
            g = (g[0], a, b)
    if not s and g is v.gate:
        return v
    return v.with_(deps=v.deps - s, gate=g)


def second(ctx, c, S, o, cls):
    """fit(data 2) + queries; returns {query: stale labels} and the fields read while still holding old values."""
    before = S.st.heap
    snap = {oid: dict(f) for oid, f in before.items()}
    n0 = len(S.I.events)
    fit(S, o, c, "@2")
    bad = {}
    res = queries(S, o, cls, "#2")
    for p, v in res.items():
        d = stale(res_deps(S, v))
        if d:
            bad[p] = d
    cand = {}
    for e in S.I.events[n0:]:
        if e.kind != "attr-read":
            continue
        v, ob, nm = e.data.get("val"), e.data.get("obj"), e.data.get("name")
        if v is None or not stale(v.deps):
            continue
        if snap.get(ob, {}).get(nm) is not None and snap[ob][nm].deps & stale(v.deps):
            oc = getattr(S.I.objs[ob], "cls", None)
            key = (oc.name if oc is not None else "?", nm)
            cand.setdefault(key, e)
    return bad, cand, res


def first(ctx, c, prog):
    S = Session(prog)
    o = make(S, c)
    fit(S, o, c, "@1")
    cls = prog.classes[c]
    if c != "MrDMD":
        q = queries(S, o, cls, "")
        for n in SETTERS:
            if n in q and cls.find_setter(n) is not None:
                S.set(o, n, S.param("value", "@set " + n), label="set " + n)
        if c == "LANDO":
            S.method(o, "analyze_fixed_point", fixed_point=S.param("fixed_point", "@1"))
        for p in ("modes", "dynamics", "reconstructed_data"):
            if p in public_props(cls):
                S.get(o, p, label=p + " again")
    else:
        for p in ("modes", "eigs", "reconstructed_data"):
            S.get(o, p)
    return S, o, cls


def history(ctx, c):
    known = {}
    for k in ctx.known:
        if k.startswith("stale:"):
            cn, at = k[len("stale:"):].rsplit(".", 1)
            known[(cn, at)] = k
    S, o, cls = first(ctx, c, ctx.prog)
    base = S.st
    bad, cand, res = second(ctx, c, S, o, cls)
    ctx.absorb(S)
    ctx.obl(len(res), f"{c}: {len(res)} query results after refit free of labels of the first history")
    ctx.count("fields_carrying_old_values_read_during_refit", len(cand))
    if not bad:
        return
    slow = c in ("MrDMD", "mrCOSTS", "COSTS") and ctx.tier == "quick"
    guilty = {}

    def trial(clean):
        S.st = base.copy()
        cleanse(S, clean)
        return second(ctx, c, S, o, cls)
    # cleansing may reveal further carriers; iterate to a fixpoint of candidates
    allc = dict(cand)
    for _ in range(4):
        b2, c2, _r = trial(set(allc))
        new = {k: e for k, e in c2.items() if k not in allc}
        if not new:
            break
        allc.update(new)
    if b2:
        # flows not attributable to a field read
        for p, d in b2.items():
            ctx.viol(f"stale-result:{c}.{p}", f"{c}.{p} after a refit may still depend on {sorted(d)} of the earlier history",
                     c)
    for k in sorted(allc):
        b3, _c3, _r = trial(set(allc) - {k}) if not slow else (bad, None, None)
        if b3:
            guilty[k] = b3
    for k, b3 in guilty.items():
        e = allc[k]
        key = f"stale:{k[0]}.{k[1]}"
        qs = sorted(b3)
        ctx.viol(key, f"{c}: field '{k[1]}' of {k[0]} keeps a value of the earlier fit across a refit and reaches "
                 f"{', '.join(qs[:6])} (labels {sorted(set().union(*b3.values()))[:4]})", e.where())


def run(ctx):
    for c in CLASSES:
        ctx.guard(c, history, ctx, c)
    ctx.guard("wrappers", wrappers, ctx)


def wrappers(ctx):
    for mod, fn in common.WR:
        for inner in ("DMD", "DMDc") if fn != "hankel_preprocessing" else ("DMD",):
            S = Session(ctx.prog)
            d = make(S, inner, label="inner")
            w = S.func(mod, fn, dmd=d)
            if w is None:
                ctx.undecided.append(f"{fn}({inner})")
                continue
            for tag in ("@1", "@2"):
                common.wfit(S, w, inner, tag)
                for q in common.WQ:
                    v = common.wget(S, w, q, inner, tag)
                    if tag == "@2" and v is not None:
                        ctx.obl()
                        bad = stale(res_deps(S, v))
                        if bad:
                            ctx.viol(f"stale-result:{fn}({inner}).{q}",
                                     f"{fn}({inner}): '{q}' after a refit may still depend on {sorted(bad)}", fn)
            ctx.absorb(S)
