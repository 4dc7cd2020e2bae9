"""Definite-assignment analysis over life-cycle histories.  Every public property, method and setter of every model is
interpreted abstractly before fit, after fit and after a refit, with every option symbolic; wrappers, tuner, utility
functions and plots likewise.  A step is a violation when some path of it reads an instance attribute no earlier step on
that history assigned (and the resulting AttributeError escapes to the caller), reads a local variable that is unassigned on
a consistent path, calls a package function with arguments it does not take, uses an undefined name, or does arithmetic with
an attribute that is still None.  In addition the value returned by fit must be the model fit was called on."""
import ast

from engine.loader import FuncInfo
from engine.paths import may_be_unbound
from engine.scenario import CLASSES, Session, fit, make
from engine.vals import const
from . import common

RULE = "no public call reads state that was never assigned; fit returns the model itself"
MIN_OBLIGATIONS = 500
ASSUMPTIONS = ["attributes are only added by the package itself"]


def fnode(ctx, qual):
    mod, _, name = qual.partition(":")
    m = ctx.prog.modules.get(mod)
    if m is None:
        return None
    node = m.tree
    for part in name.split("."):
        nxt = None
        for x in ast.walk(node):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part and x is not node:
                nxt = x
                break
        if nxt is None:
            return None
        node = nxt
    return node if isinstance(node, ast.FunctionDef) else None


def fnodes(ctx, qual, name):
    mod, _, q = qual.partition(":")
    m = ctx.prog.modules.get(mod)
    last = q.split(".")[-1]
    return [x for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef) and x.name == last] if m else []


def scan(ctx, S, what):
    ctx.absorb(S)
    esc = {}
    for label, rs in S.raises.items():
        for r in rs:
            esc.setdefault(label, set()).add((r[0],) + tuple(r[4][:2]))
    for e in S.I.events:
        if e.kind == "attr-missing":
            if ("AttributeError", e.file, e.line) in esc.get(e.step, ()):
                ctx.viol(f"attribute-never-set:{e.data['cls']}.{e.data['name']}",
                         f"{what}: '{e.step}' reads {e.data['cls']}.{e.data['name']}, which nothing has set on this history",
                         e.where())
        elif e.kind == "unbound":
            key = f"variable-never-set:{e.fn}:{e.data['name']}"
            if key in ctx.violations or key in seen_ok:
                continue
            ns = fnodes(ctx, e.fn, e.data["name"])
            ns = [n for n in ns if n.lineno <= e.line <= (n.end_lineno or n.lineno)]
            if ns and not any(may_be_unbound(n, e.data["name"], e.line) for n in ns):
                ctx.count("unbound_reads_excluded_by_path_search")
                continue
            ctx.viol(key, f"{what}: '{e.step}' may read the local variable {e.data['name']} before it is assigned", e.where())
        elif e.kind == "undefined":
            ctx.viol(f"undefined-name:{e.fn}:{e.data['name']}", f"{what}: undefined name {e.data['name']}", e.where())
        elif e.kind == "bad-call":
            if e.data.get("open"):          # the caller's own **kwargs decide what is passed
                continue
            ctx.viol(f"bad-call:{e.fn}:{e.data['fn']}", f"{what}: call of {e.data['fn']} in {e.fn}: {e.data['why']}", e.where())
        elif e.kind == "none-arith":
            ctx.viol(f"none-arith:{e.fn}", f"{what}: '{e.step}' does arithmetic with an attribute that is still None",
                     e.where())


seen_ok = set()


def returns_self(ctx, o, r, what):
    ctx.obl(1, f"{what}.fit returns the model")
    if r is None:
        ctx.undecided.append(f"{what}.fit raises on every path")
        return
    if r.atoms != o.atoms:
        ctx.viol(f"fit-returns:{what}", f"{what}.fit returns {kind(r)} instead of the model itself")


def kind(v):
    a = next(iter(v.atoms))
    return "None" if a[:2] == ("c", "NoneType") else f"another value ({a[1] if a[0] == 'o' else a[0]})"


def unfitted(ctx, c):
    S = Session(ctx.prog)
    o = make(S, c)
    common.use_everything(S, o, c)
    ctx.obl(len(S.steps), f"{c} before fit: {len(S.steps)} steps")
    scan(ctx, S, f"{c} before fit")


def fitted(ctx, c):
    S = Session(ctx.prog)
    o = make(S, c)
    r = fit(S, o, c)
    returns_self(ctx, o, r, c)
    common.use_everything(S, o, c)
    if c not in ("MrDMD", "mrCOSTS") or ctx.tier == "thorough":
        fit(S, o, c, "@2")
        common.use_everything(S, o, c)
    ctx.obl(len(S.steps), f"{c} after fit: {len(S.steps)} steps")
    scan(ctx, S, f"{c} after fit")


def wrappers(ctx):
    for mod, fn in common.WR:
        S = Session(ctx.prog)
        d = make(S, "DMD", label="inner")
        w = S.func(mod, fn, dmd=d)
        for q in common.WQ:
            common.wget(S, w, q, "DMD", "@0")
        r = common.wfit(S, w, "DMD", "@1")
        returns_self(ctx, w, r, fn)
        scan(ctx, S, fn)


def run(ctx):
    seen_ok.clear()
    for c in CLASSES:
        ctx.guard(c + " unfitted", unfitted, ctx, c)
        ctx.guard(c + " fitted", fitted, ctx, c)
    ctx.guard("wrappers", wrappers, ctx)
    ctx.guard("wrapper histories", common.wrapper_histories, ctx, scan)
    ctx.guard("tuner", common.tuner_histories, ctx, scan)
    ctx.guard("functions", common.function_histories, ctx, scan)
