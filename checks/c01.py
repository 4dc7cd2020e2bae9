"""Effect and alias analysis: every public class and function is interpreted abstractly over symbolic options and
symbolic caller-owned arrays, lists, dicts and sets, through construction, fit, every public query, method, setter and
plot, a second round of them, and a refit.  Views (slices, reshape, .T, asarray, real/imag ...) keep the identity of the
buffer they alias, across calls, attributes and containers, so an in-place write (subscript store, augmented assignment,
mutating method, out=, in-place library call) reaching caller data at any later step is seen."""
from engine.scenario import (ARR, CLASSES, DEFAULT, MUTATORS, Session, fit, make, public_methods, public_props)
from engine.vals import N, U, Val, T, NONE, const
from . import common

RULE = "no in-place effect may reach an object owned by the caller"
MIN_OBLIGATIONS = 300
ASSUMPTIONS = ["numpy/scipy/xarray view-or-copy behaviour as modelled in engine/models.py",
               "user-supplied callables do not themselves modify their arguments"]


def scan(ctx, S, what):
    ctx.absorb(S)
    steps = {}
    for e in S.I.events:
        if e.kind != "mutate":
            continue
        ctx.count("in_place_effects")
        bad = [x for x in e.data["objs"] if S.I.objs[x].caller]
        for b in bad:
            lab = S.I.objs[b].label.split("@")[0].split("[")[0]
            ctx.viol(f"caller-data-modified:{e.fn}:{lab}",
                     f"{what}: step '{e.step}' modifies the caller's '{lab}' in place ({e.data['how']}) via "
                     + " -> ".join(e.stack[1:]), e.where())


def history(ctx, c):
    S = Session(ctx.prog)
    o = make(S, c)
    fit(S, o, c)
    cls = ctx.prog.classes[c]
    rounds = 1 if c in ("MrDMD", "mrCOSTS") and ctx.tier == "quick" else 2
    common.use_everything(S, o, c, rounds=rounds)
    if c not in ("MrDMD",) or ctx.tier == "thorough":
        fit(S, o, c, "@2")
    ctx.obl(len(S.steps), f"{c}: {len(S.steps)} steps")
    scan(ctx, S, c)


def run(ctx):
    for c in CLASSES:
        ctx.guard(c, history, ctx, c)
    ctx.guard("wrappers", common.wrapper_histories, ctx, scan)
    ctx.guard("tuner", common.tuner_histories, ctx, scan)
    ctx.guard("functions", common.function_histories, ctx, scan)
