"""Ownership / sharing analysis of everything the library hands out as a separate model.  For tuning with in_place=False,
ModesTuner copies, sub-models obtained by indexing, the per-node models of the multi-resolution tree, the per-level models
of mrCOSTS and the time dictionaries, the abstract heap is inspected: (1) no step that works on the copy writes to an
object reachable from the original, and (2) copy and original share no mutable object that any public operation writes."""
import ast

from engine.scenario import CLASSES, DEFAULT, AnchorMissing, Session, fit, make, public_props
from engine.vals import N, NONE, Val, const
from . import common

RULE = "operations on a copy write only to objects the original cannot reach"
MIN_OBLIGATIONS = 60
ASSUMPTIONS = ["copy.deepcopy and pickle give fully separate objects (library model)",
               "a user supplied selection criterion does not itself modify the model it is given"]

TUNABLE = ["DMD", "FbDMD", "SpDMD", "CDMD", "RDMD", "SubspaceDMD", "PiDMD", "HankelDMD", "HODMD", "DMDc", "BOPDMD", "HAVOK"]
MUTABLE = ("arr", "dict", "list", "inst", "set")


def oids(S, v):
    return {x for x in S.reach(v) if isinstance(x, str)}


def writes(S, n0, targets, before):
    """events since n0 that write to one of the given objects and leave it changed"""
    out = []
    for e in S.I.events[n0:]:
        if e.kind == "mutate":
            hit = [x for x in e.data["objs"] if x in targets]
            if hit:
                out.append((e, S.I.objs[hit[0]], e.data["how"]))
        elif e.kind == "attr-write" and e.data["obj"] in targets:
            k = e.data["name"]
            old = before.get(e.data["obj"], {}).get(k)
            new = S.st.heap.get(e.data["obj"], {}).get(k)
            if old != new and not (old is not None and new is not None and old.term is not None and old.term is new.term):
                out.append((e, S.I.objs[e.data["obj"]], "attribute " + k))
    return out


def describe(ob):
    return ob.cls.name if ob.cls is not None else ob.kind


def check_untouched(ctx, S, key, what, targets, n0, before):
    ctx.obl(1, what)
    for e, ob, how in writes(S, n0, targets, before):
        ctx.viol(f"original-written:{key}:{describe(ob)}:{e.fn}",
                 f"{what}: step '{e.step}' writes ({how}) to a {describe(ob)} that belongs to the original", e.where())


def tuner(ctx, c):
    """ModesTuner / select_modes / stabilize_modes with in_place=False, ModesTuner.copy."""
    def fresh():
        S = Session(ctx.prog)
        o = make(S, c)
        if fit(S, o, c) is None:
            return None, None
        for p in ("modes", "eigs", "amplitudes", "modes_activation_bitmask"):
            S.get(o, p)
        return S, o
    ops = {
        "select_modes": lambda S, o: S.func("pydmd.dmd_modes_tuner", "select_modes", dmd=o, in_place=const(False),
                                            criteria=S.param("criteria", "@selm", kind="fn")),
        "stabilize_modes": lambda S, o: S.func("pydmd.dmd_modes_tuner", "stabilize_modes", dmd=o, in_place=const(False)),
    }
    for name, go in ops.items():
        S, o = fresh()
        if S is None:
            ctx.undecided.append(f"{c}: fit")
            return
        own, before, n0 = oids(S, o), dict(S.st.heap), len(S.I.events)
        r = go(S, o)
        check_untouched(ctx, S, name, f"{name}({c}, in_place=False)", own, n0, before)
        if r is not None:
            check_apart(ctx, S, o, r, name, c)
        ctx.absorb(S)
    S, o = fresh()
    own, before, n0 = oids(S, o), dict(S.st.heap), len(S.I.events)
    t = S.new("ModesTuner", "tuner", dmds=o, in_place=DEFAULT)
    if t is not None:
        for crit, ks in common.CRITERIA.items():
            S.method(t, "select", label="select " + crit, criteria=const(crit), **{k: S.param(k, "@sel") for k in ks})
        S.method(t, "select", criteria=S.param("criteria", "@sel", kind="fn"))
        S.method(t, "stabilize")
        check_untouched(ctx, S, "ModesTuner", f"ModesTuner({c})", own, n0, before)
        g = S.method(t, "get")
        if g is not None:
            check_apart(ctx, S, o, g, "ModesTuner.get", c)
            own2, before2 = oids(S, g), dict(S.st.heap)
            cp = S.method(t, "copy")
            if cp is not None:
                check_apart(ctx, S, g, cp, "ModesTuner.copy", c)
    ctx.absorb(S)


def tuners(ctx, c):
    """a list of models: the copies are separate, and the ones given are not written with in_place=False"""
    S = Session(ctx.prog)
    a, b = make(S, c, label="first"), make(S, c, label="second")
    if fit(S, a, c, "@1") is None or fit(S, b, c, "@2") is None:
        ctx.undecided.append(f"{c}: fit")
        return
    fid = S.fid
    S.st.frames[fid] = dict(S.st.frames[fid], first=a, second=b)
    node = ast.parse("[first, second]", mode="eval").body
    both = S.run("list", lambda st: S.I.ev(node, st))
    own, before, n0 = oids(S, both), dict(S.st.heap), len(S.I.events)
    t = S.new("ModesTuner", "tuner", dmds=both, in_place=const(False))
    if t is None:
        ctx.undecided.append("ModesTuner of a list")
        return
    S.method(t, "select", criteria=S.param("criteria", "@sel", kind="fn"))
    S.method(t, "stabilize")
    check_untouched(ctx, S, "ModesTuner list", f"ModesTuner([{c}, {c}])", own, n0, before)
    g = S.method(t, "get")
    if g is not None:
        check_apart(ctx, S, both, g, "ModesTuner.get of a list", c)
        cp = S.method(t, "copy")
        if cp is not None:
            check_apart(ctx, S, g, cp, "ModesTuner.copy of a list", c)
    ctx.absorb(S)


def check_apart(ctx, S, a, b, name, c):
    """The two models must not share the model instance, its operator or result arrays."""
    ctx.obl(1)
    shared = oids(S, a) & oids(S, b)
    bad = [x for x in shared if S.I.objs[x].kind in MUTABLE and not S.I.objs[x].caller]
    for x in bad:
        ob = S.I.objs[x]
        path = S.reach(a)[x]
        ctx.viol(f"shared:{name}:{describe(ob)}:{'.'.join(map(str, path[:3]))}",
                 f"{name}({c}): result and original share a {describe(ob)} reached through {'.'.join(map(str, path))}", str(ob.site))


def getitem(ctx, c):
    S = Session(ctx.prog)
    o = make(S, c)
    if fit(S, o, c) is None:
        return
    for p in ("modes", "eigs", "amplitudes", "modes_activation_bitmask"):
        S.get(o, p)
    own, before, n0 = oids(S, o), dict(S.st.heap), len(S.I.events)
    s = S.sub(o, S.param("key", "@getitem"))
    if s is None:
        ctx.count("no_indexing")
        ctx.absorb(S)
        return
    S.set(s, "modes_activation_bitmask", S.param("value", "@mask"))
    S.func("pydmd.dmd_modes_tuner", "stabilize_modes", dmd=s, in_place=const(True))
    S.set(s, "modes_activation_bitmask", S.param("value", "@mask2"), label="set mask 2")
    S.get(s, "reconstructed_data")
    tv = S.get(s, "dmd_time")
    if tv is not None:
        S.run("dmd_time[]=", lambda st: (NONE, S.I.store_sub(tv, S.param("k", "@item"), S.param("v", "@item"), S.node, st)))
    S.set(s, "dmd_time", S.param("value", "@time"), label="set time")
    check_untouched(ctx, S, "getitem", f"{c}[key]", own, n0, before)
    ctx.absorb(S)


def times(ctx, c):
    """original_time and dmd_time are separate, and the caller's dictionary is not kept."""
    S = Session(ctx.prog)
    o = make(S, c)
    if fit(S, o, c) is None:
        return
    a, b = S.get(o, "original_time"), S.get(o, "dmd_time")
    if a is None or b is None:
        ctx.count("no_time_dictionary")
        ctx.absorb(S)
        return
    ctx.obl(1, f"{c} time dictionaries")
    sh = {x for x in oids(S, a) & oids(S, b) if S.I.objs[x].kind in ("dict", "inst")}
    for x in sh:
        ctx.viol(f"shared-time:{c}", f"{c}: original_time and dmd_time are the same object", str(S.I.objs[x].site))
    if not ctx.prog.classes[c].find("dmd_time"):
        return
    v = S.param("value", "@time", kind="dict")
    r = S.set(o, "dmd_time", v)
    ctx.obl(1)
    callers = {x for x in oids(S, o) if S.I.objs[x].caller and "@time" in (S.I.objs[x].label or "")}
    if callers:
        ctx.viol(f"kept-time:{c}", f"{c}: assigning dmd_time keeps the caller's dictionary itself")
    ctx.absorb(S)


def tree(ctx):
    """MrDMD: the template(s) given by the caller are only copied; every node gets a copy of its own."""
    for kind in ("instance", "list"):
        S = Session(ctx.prog)
        d = S.new("DMD", "template")
        arg = d
        if kind == "list":
            arg = Val({("t", (d,))})
        own = oids(S, d)
        before = dict(S.st.heap)
        n0 = len(S.I.events)
        m = S.new("MrDMD", "mr", dmd=arg)
        S.name = "MrDMD"
        if m is None or fit(S, m, "MrDMD") is None:
            ctx.undecided.append(f"MrDMD with template {kind}")
            continue
        for q in ("modes", "eigs", "reconstructed_data"):
            S.get(m, q)
        check_untouched(ctx, S, "MrDMD", f"MrDMD(template {kind})", own, n0, before)
        ctx.obl(1, "one model per node")
        nodes = {e.data["obj"] for e in S.I.events[n0:] if e.kind == "attr-write" and e.data["name"] == "_snapshots_holder"
                 and S.I.objs[e.data["obj"]].cls is not None and S.I.objs[e.data["obj"]].cls.name == "DMD"}
        for x in nodes - own:
            if x not in S.I.multi:
                ctx.viol("one-node-model:MrDMD", "MrDMD fits one and the same DMD instance for several tree nodes",
                         str(S.I.objs[x].site))
        ctx.count("node_models", len(nodes))
        ctx.absorb(S)


def levels(ctx):
    """mrCOSTS: one COSTS model per decomposition level."""
    S = Session(ctx.prog)
    o = make(S, "mrCOSTS")
    if fit(S, o, "mrCOSTS") is None:
        ctx.undecided.append("mrCOSTS.fit")
        return
    ctx.obl(1, "one model per level")
    v = S.get(o, "costs_array")
    inst = {x for x in (oids(S, v) if v is not None else ()) if S.I.objs[x].cls is not None and S.I.objs[x].cls.name == "COSTS"}
    ctx.count("level_models", len(inst))
    for x in inst:
        if x not in S.I.multi:
            ctx.viol("one-level-model:mrCOSTS", "mrCOSTS keeps one and the same COSTS instance for several levels",
                     str(S.I.objs[x].site))
    ctx.absorb(S)


def place(ctx, c, m):
    f = ctx.prog.classes[c].find(m)
    return f"{f.module.relpath}:{f.node.lineno} in {c}.{m}" if hasattr(f, "node") else c


def strangers(ctx, c):
    """two models of the same class, constructed with the same options and fitted to different data: nothing flows from one to the other"""
    S = Session(ctx.prog)
    pair = {}
    for t in "AB":
        pair[t] = make(S, c, label="ctor " + t)
        if pair[t] is None:
            ctx.undecided.append(f"{c}: construction")
            return
    for t in "AB":
        if fit(S, pair[t], c, tag="@" + t) is None:
            ctx.undecided.append(f"{c}: fit")
            return
    cls = ctx.prog.classes[c]
    other = {"A": "@B", "B": "@A"}
    for t in "BA":
        for p in public_props(cls):
            v = S.get(pair[t], p, label=f"{p} {t}")
            ctx.obl(1, f"two {c}: {p}")
            if v is None:
                continue
            heap = [x for o in oids(S, v) for k, x in S.st.heap.get(o, {}).items() if isinstance(x, Val)] if len(v.oids()) < 50 else []
            got = sorted({d for x in [v] + heap for d in x.deps if isinstance(d, str) and d.endswith(other[t]) and not d.startswith("arg:")})
            if got:
                ctx.viol(f"flow:{c}.{p}", f"two {c} models: {p} of one depends on data of the other ({', '.join(got[:3])})",
                         place(ctx, c, p))
    ctx.obl(1, f"two {c}: no class attribute written")
    for e in S.I.events:
        if e.kind == "global-write":
            ctx.count("global_variables_written")
        if e.kind == "class-write":
            ctx.viol(f"class-attribute:{e.data['cls']}.{e.data['name']}", f"{c}: step '{e.step}' writes the class attribute "
                     f"{e.data['cls']}.{e.data['name']}, which every model of the class sees", e.where())
    ctx.absorb(S)


def wrapped_strangers(ctx, mod, fn):
    """the same for two models wrapped by a preprocessing"""
    S = Session(ctx.prog)
    pair = {}
    for t in "AB":
        pair[t] = S.func(mod, fn, label=f"{fn} {t}", dmd=make(S, "DMD", label="inner " + t))
    if None in pair.values():
        ctx.undecided.append(fn)
        return
    for t in "AB":
        common.wfit(S, pair[t], "DMD", "@" + t)
    for t, o in (("B", "@A"), ("A", "@B")):
        for q in common.WQ:
            v = common.wget(S, pair[t], q, "DMD", " " + t)
            ctx.obl(1, f"two {fn}: {q}")
            got = sorted(d for d in (v.deps if v is not None else ()) if isinstance(d, str) and d.endswith(o) and not d.startswith("arg:"))
            if got:
                ctx.viol(f"flow:{fn}.{q}", f"two models wrapped by {fn}: {q} of one depends on data of the other ({', '.join(got[:3])})", mod)
    for e in S.I.events:
        if e.kind == "class-write":
            ctx.viol(f"class-attribute:{e.data['cls']}.{e.data['name']}", f"{fn}: step '{e.step}' writes the class attribute "
                     f"{e.data['cls']}.{e.data['name']}, which every model of the class sees", e.where())
    ctx.absorb(S)


def run(ctx):
    tasks = [("two " + fn, wrapped_strangers, mod, fn) for mod, fn in common.WR]
    tasks += [("two " + c, strangers, c) for c in CLASSES]
    for c in TUNABLE:
        tasks += [("tuner " + c, tuner, c), ("tuners " + c, tuners, c), ("getitem " + c, getitem, c)]
    tasks += [("times " + c, times, c) for c in CLASSES if c not in ("COSTS", "mrCOSTS")]
    tasks += [("tree", tree), ("levels", levels)]
    ctx.pmap(tasks)
