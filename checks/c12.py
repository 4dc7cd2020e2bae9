"""Round trip through save/load.  For every class and wrapper with save/load the two methods are interpreted abstractly:
save must pickle the object it was called on into a file opened for (over)writing in binary mode under the caller's name;
load must open the caller's file and return exactly what pickle.load returns.  Everything reachable from a model after
construction, fit and every query is enumerated, and a lambda, nested function, generator or open file created by the package
and kept there is reported (pickle refuses it).  Classes that customise copying/pickling have their hooks interpreted: every
query on the restored object must depend on the same inputs as on the saved one and must not miss an attribute."""
from engine.loader import FuncInfo
from engine.models import deep_clone
from engine.scenario import CLASSES, Session, fit, make, public_methods, public_props
from engine.vals import Val, one_const
from . import common

RULE = "load(save(model)) is the same model: complete state is written, all of it picklable, and returned by load"
MIN_OBLIGATIONS = 60
ASSUMPTIONS = ["functions supplied by the caller (mode_prox, kernels, transforms) are picklable",
               "pickle restores instances of ordinary classes field by field"]
HOOKS = ("__getstate__", "__setstate__", "__reduce__", "__reduce_ex__")


def file_ok(e, want, arg, ctx, key, what):
    """an open() event: its name is the caller's argument and its mode is acceptable"""
    a, k = e.data["args"], e.data["kwargs"]
    fn = a[0] if a else k.get("file")
    mode = a[1] if len(a) > 1 else k.get("mode")
    if fn is None or arg not in fn.deps:
        ctx.viol(key + ":file-name", f"{what} opens a file that is not the one named by the caller", e.where())
    ok, m = one_const(mode) if mode is not None else (True, "r")
    if ok and isinstance(m, str):
        good = ("b" in m) and (want in m or want == "w" and "x" in m) and "a" not in m
        if not good:
            ctx.viol(key + ":file-mode", f"{what} opens its file with mode {m!r}", e.where())


def save_load(ctx, S, o, what):
    n0 = len(S.I.events)
    S.method(o, "save", label="save")
    ev = [e for e in S.I.events[n0:] if e.step == "save"]
    dumps = [e for e in ev if e.kind == "pickle-dump"]
    ctx.obl(1, f"{what}.save")
    if not dumps:
        ctx.viol(f"save:{what}:nothing", f"{what}.save writes nothing with pickle")
    for e in dumps:
        if e.data["val"] is None or e.data["val"].atoms != o.atoms:
            ctx.viol(f"save:{what}:other-object", f"{what}.save pickles something else than the model it is called on", e.where())
    if dumps and S.raises.get("save"):
        for r in S.raises["save"]:
            if r[3]:
                ctx.viol(f"save:{what}:raises", f"{what}.save raises {r[0]} on some path", f"{r[4][0]}:{r[4][1]}")
    for e in ev:
        if e.kind == "open":
            file_ok(e, "w", "arg:fname@save", ctx, f"save:{what}", f"{what}.save")
        elif e.kind == "attr-write" and e.data["obj"] in o.oids():
            ctx.viol(f"save:{what}:writes:{e.data['name']}", f"{what}.save changes the attribute {e.data['name']}", e.where())
    n0 = len(S.I.events)
    v = S.method(o, "load", label="load")
    ev = [e for e in S.I.events[n0:] if e.step == "load"]
    loads = {e.data["obj"] for e in ev if e.kind == "pickle-load"}
    ctx.obl(1, f"{what}.load")
    if v is None or not loads or not (set(v.oids()) and set(v.oids()) <= loads and len(v.atoms) == len(v.oids())):
        ctx.viol(f"load:{what}:other-object", f"{what}.load does not return exactly what it unpickles")
    for e in ev:
        if e.kind == "open":
            file_ok(e, "r", "arg:fname@load", ctx, f"load:{what}", f"{what}.load")
        elif e.kind in ("attr-write", "mutate") and loads & set(e.data.get("objs", ()) or [e.data.get("obj")]):
            ctx.viol(f"load:{what}:changes", f"{what}.load changes the object it unpickled", e.where())


def unpicklable(ctx, S, o, what, when):
    heap = S.st.heap
    seen = set()
    work = [("", o)]
    n = 0
    while work:
        path, v = work.pop()
        for a in v.atoms:
            if a[0] == "f" and isinstance(a[1], FuncInfo):
                n += 1
                if a[1].outer is not None or a[1].name == "<lambda>":
                    ctx.viol(f"unpicklable:{what}{path.split('.')[1] and '.' + path.split('.')[1] if '.' in path else ''}",
                             f"{what}{path} holds the local function {a[1].qual} {when}: the model can no longer be saved",
                             f"{a[1].file}:{a[1].node.lineno}")
            elif a[0] == "b":
                work.append((path + ".__self__", Val({a[1]})))
                if a[2].outer is not None:
                    ctx.viol(f"unpicklable:{what}{path}", f"{what}{path} holds a method of a local class {when}", a[2].file)
            elif a[0] in ("t", "tn"):
                for x in a[-1]:
                    work.append((path, x))
            elif a[0] == "x" and not a[1].startswith("builtins") and a[1] in MODULES:
                ctx.viol(f"unpicklable:{what}{path}", f"{what}{path} holds the module {a[1]} {when}")
            elif a[0] == "o":
                if a[1] in seen:
                    continue
                seen.add(a[1])
                ob = S.I.objs[a[1]]
                if ob.caller:
                    continue
                if getattr(ob, "gen", False) or "#file" in heap.get(a[1], {}):
                    kind = "a generator" if getattr(ob, "gen", False) else "an open file"
                    ctx.viol(f"unpicklable:{what}{path}", f"{what}{path} holds {kind} {when}: the model can no longer be saved",
                             f"{ob.site[0]}:{ob.site[1]}")
                if ob.kind == "inst" and ob.cls is not None and "<locals>" in getattr(ob.cls, "qual", ""):
                    ctx.viol(f"unpicklable:{what}{path}", f"{what}{path} holds an instance of a local class {when}")
                for k, y in heap.get(a[1], {}).items():
                    if isinstance(y, Val):
                        n += 1
                        work.append((path + "." + k, y))
    ctx.obl(1, f"{what} {when}: {n} reachable values picklable")
    ctx.count("values_inspected", n)
    return seen


MODULES = {"numpy", "scipy", "xarray", "sys", "os", "warnings", "logging", "pickle"}


def hooked(S, o):
    out = set()
    for oid in [x for x in S.reach(o) if isinstance(x, str)]:
        ob = S.I.objs.get(oid)
        if ob is not None and ob.kind == "inst" and ob.cls is not None:
            for h in HOOKS:
                if isinstance(ob.cls.find(h), FuncInfo):
                    out.add(f"{ob.cls.name}.{h}")
    return sorted(out)


def round_trip(ctx, S, o, c, what, queries):
    hs = hooked(S, o)
    ctx.obl(1, f"{what}: pickle hooks {hs or 'none'}")
    if not hs:
        return
    st0 = S.st
    before = {}
    for q in queries:
        v = query(S, o, c, q, "saved " + q)
        before[q] = (v, {(r[0],) + tuple(r[4][:2]) for r in S.raises["saved " + q]})
    S.st = st0.copy()
    w = S.run("restore", lambda st: (deep_clone(S.I, o, st, S.node, {"#pickle": True}), st))
    if w is None:
        ctx.viol(f"round-trip:{what}", f"restoring a saved {what} raises ({', '.join(hs)})")
        return
    for q in queries:
        v = query(S, w, c, q, "restored " + q)
        ctx.obl(1)
        old, oldr = before[q]
        if old is not None and v is None:
            ctx.viol(f"round-trip:{what}.{q}", f"{what}.{q} works before saving and fails after loading ({', '.join(hs)})")
            continue
        if old is None:
            continue
        new = {r for r in ((r[0],) + tuple(r[4][:2]) for r in S.raises["restored " + q]) if r[0] == "AttributeError"} - oldr
        if new:
            ctx.viol(f"round-trip:{what}.{q}", f"{what}.{q} misses an attribute after loading ({', '.join(hs)})",
                     "; ".join(f"{r[1]}:{r[2]}" for r in sorted(new)))
        elif old.deps - v.deps:
            ctx.viol(f"round-trip:{what}.{q}", f"{what}.{q} no longer depends on {sorted(old.deps - v.deps)[:4]} after "
                     f"saving and loading ({', '.join(hs)})")


def query(S, o, c, q, label):
    if q in ("predict", "forecast", "reconstructed_data()"):
        return S.method(o, q.rstrip("()"), label=label)
    return S.get(o, q, label=label)


def model(ctx, c):
    S = Session(ctx.prog)
    cls = S.prog.classes[c]
    o = make(S, c)
    unpicklable(ctx, S, o, c, "after construction")
    fit(S, o, c)
    unpicklable(ctx, S, o, c, "after fit")
    qs = public_props(cls)
    if "predict" in public_methods(cls):
        qs.append("predict")
    round_trip(ctx, S, o, c, c, qs)
    common.use_everything(S, o, c, skip=("save", "load"))
    unpicklable(ctx, S, o, c, "after use")
    if isinstance(cls.find("save"), FuncInfo):
        if not isinstance(cls.find("load"), FuncInfo):
            ctx.viol(f"load:{c}:missing", f"{c} can be saved but not loaded")
        else:
            save_load(ctx, S, o, c)
    elif c == "ParametricDMD" or any(k.name == "DMDBase" for k in cls.mro):
        ctx.viol(f"save:{c}:missing", f"{c} has no save method")
    ctx.absorb(S)


def wrappers(ctx):
    for mod, fn in common.WR:
        S = Session(ctx.prog)
        S.name = fn
        d = make(S, "DMD", label="inner")
        w = S.func(mod, fn, dmd=d)
        if w is None:
            ctx.undecided.append(fn)
            continue
        unpicklable(ctx, S, w, fn, "after construction")
        common.wfit(S, w, "DMD", "@1")
        unpicklable(ctx, S, w, fn, "after fit")
        round_trip(ctx, S, w, "DMD", fn, list(common.WQ))
        for q in common.WQ:
            common.wget(S, w, q, "DMD", "@1")
        unpicklable(ctx, S, w, fn, "after use")
        save_load(ctx, S, w, fn)
        ctx.absorb(S)


def run(ctx):
    for c in CLASSES:
        ctx.guard(c, model, ctx, c)
    ctx.guard("wrappers", wrappers, ctx)
