"""Reproducibility.  Every place that draws random numbers, creates a generator, seeds one, constructs a clustering or reads a
clock / entropy source is enumerated over the histories of every class, wrapper and utility function, together with the
provenance of its seed.  A violation is: a draw in a configuration that is documented as deterministic; a generator whose seed
does not come from the caller's seed option, or that outlives the call that draws from it; a change of numpy's global generator;
a clustering without a fixed random_state when the caller did not ask for another; results computed by iterating over a set
or from clocks / OS entropy."""
from engine.scenario import CLASSES, DEFAULT, Session, fit, make, public_methods
from engine.vals import FALSE, NONE, N, Val, const, one_const
from . import common

RULE = "random draws happen only in documented stochastic configurations and are governed by the caller's seed / numpy's global state"
MIN_OBLIGATIONS = 400
ASSUMPTIONS = ["numpy, scipy and sklearn routines are deterministic for fixed inputs, random_state and global random state"]

# configurations that are documented to draw from numpy's global generator (class, step prefix)
STOCHASTIC = {"CDMD": ("fit",), "BOPDMD": ("fit", "forecast"), "LANDO": ("fit", "update"), "COSTS": ("fit",), "mrCOSTS": ("fit",)}
# ... and the options that switch the randomness off
OFF = {"CDMD": dict(compression_matrix="arr"), "BOPDMD": dict(num_trials=0), "LANDO": dict(permute=False),
       "COSTS": dict(pydmd_kwargs=None), "mrCOSTS": dict(pydmd_kwargs=None)}
CLOCKS = ("time.", "datetime.", "uuid.", "secrets.", "os.urandom", "random.")


def scan(ctx, S, what, stochastic=(), seedopt=None, default_clustering=False):
    ctx.absorb(S)
    ids = {}
    for e in S.I.events:
        k = e.kind
        if k == "rng-new":
            ids[(e.file, e.line)] = e
            seed = e.data["seed"]
            user = seedopt is not None and seed is not None and seedopt in seed.deps
            fixed = seed is not None and one_const(seed)[0] and one_const(seed)[1] is not None
            if seedopt is not None and not user:
                ctx.viol(f"generator-ignores-seed:{e.fn}", f"{what}: the random generator is not created from the seed option", e.where())
            elif not user and not fixed:
                ctx.viol(f"generator-unseeded:{e.fn}", f"{what}: a random generator is created from fresh entropy, so neither "
                         f"a seed nor numpy.random.seed makes the result reproducible", e.where())
            ctx.count("generators")
        elif k == "rng-seed":
            ctx.viol(f"global-seed:{e.fn}", f"{what}: numpy's global random state is overwritten", e.where())
        elif k == "rng":
            ctx.count("draws")
            src = e.data["src"]
            if src.startswith(CLOCKS):
                ctx.viol(f"clock:{e.fn}:{src}", f"{what}: a result depends on {src}", e.where())
            elif src.startswith("generator."):
                for o in e.data.get("gens") or ():
                    born = o.rpartition("#")[2]
                    if born != e.step:
                        ctx.viol(f"generator-outlives-call:{e.fn}", f"{what}: '{e.step}' draws from a generator created in "
                                 f"'{born or 'import'}', so repeating the call gives another result", e.where())
                if not e.data.get("gens"):
                    ctx.viol(f"generator-shared:{e.fn}", f"{what}: draws from a generator of unknown origin", e.where())
            elif not any(e.step.startswith(p) for p in stochastic):
                ctx.viol(f"unexpected-draw:{what.split(' ')[0]}:{e.fn}",
                         f"{what}: '{e.step}' draws random numbers ({src}) although this configuration is deterministic", e.where())
        elif k == "cluster-new":
            ctx.count("clusterings")
            seed = e.data["seed"]
            if default_clustering and (seed is None or any(a == ("c", "NoneType", None) for a in seed.atoms)
                                       or not (seed.atoms and all(a[0] == "c" for a in seed.atoms))):
                ctx.viol(f"clustering-unseeded:{e.fn}", f"{what}: '{e.step}' clusters without a fixed random_state", e.where())
        elif k == "set-iter":
            ctx.viol(f"set-order:{e.fn}", f"{what}: '{e.step}' iterates over a set, whose order is not reproducible", e.where())


def plain(ctx, c):
    """every option symbolic: only the documented draws"""
    S = Session(ctx.prog)
    seedopt = "ctor:seed" if c == "RDMD" else None
    o = make(S, c)
    fit(S, o, c)
    common.use_everything(S, o, c)
    ctx.obl(len(S.steps), f"{c}: {len(S.steps)} steps")
    scan(ctx, S, c, STOCHASTIC.get(c, ()), seedopt)
    if c == "RDMD":
        S = Session(ctx.prog)
        o = make(S, c, test_matrix=NONE)
        r = fit(S, o, c)
        drew = [e for e in S.I.events if e.kind == "rng"]
        for e in drew:
            if not e.data["src"].startswith("generator."):
                ctx.viol(f"draw-ignores-seed:{e.fn}", f"RDMD(seed=...): {e.data['src']} is not governed by the seed", e.where())
        ctx.obl(1, "RDMD: test matrix drawn from the seed")
        S = Session(ctx.prog)
        o = make(S, c, test_matrix=S.param("test_matrix", scope="ctor"))
        fit(S, o, c)
        for e in S.I.events:
            if e.kind == "rng":
                ctx.viol(f"draw-despite-test-matrix:{e.fn}", "RDMD(test_matrix=...) still draws random numbers", e.where())
        ctx.obl(1, "RDMD: no draw with a given test matrix")


def switched_off(ctx, c):
    S = Session(ctx.prog)
    over = {}
    for k, v in OFF[c].items():
        over[k] = S.param(k, scope="ctor", kind="ndarray") if v == "arr" else DEFAULT if v is None else const(v)
    o = make(S, c, **over)
    fit(S, o, c)
    common.use_everything(S, o, c)
    ctx.obl(len(S.steps), f"{c} with {sorted(OFF[c])} fixed: {len(S.steps)} steps")
    scan(ctx, S, f"{c} with its random option off")


def clustering(ctx, c):
    S = Session(ctx.prog)
    o = make(S, c, kmeans_kwargs=DEFAULT, clustering_kwargs=DEFAULT)
    fit(S, o, c)
    cls = S.prog.classes[c]
    for m in public_methods(cls):
        if "cluster" in m:
            S.method(o, m, label=m, kmeans_kwargs=DEFAULT, clustering_kwargs=DEFAULT, method=DEFAULT)
            ctx.obl(1, f"{c}.{m} with default clustering options")
    scan(ctx, S, c, STOCHASTIC[c], None, default_clustering=True)
    n = sum(e.kind == "cluster-new" for e in S.I.events)
    ctx.obl(n, f"{c}: {n} clusterings")


def wrappers(ctx):
    for mod, fn in common.WR:
        S = Session(ctx.prog)
        S.name = fn
        d = make(S, "DMD", label="inner")
        w = S.func(mod, fn, dmd=d)
        for tag in ("@1", "@2"):
            common.wfit(S, w, "DMD", tag)
            for q in common.WQ:
                common.wget(S, w, q, "DMD", tag)
        ctx.obl(len(S.steps), fn)
        scan(ctx, S, fn, (), f"arg:seed@{fn}" if "randomized" in fn else None)
        if "randomized" in fn:
            drew = [e for e in S.I.events if e.kind == "rng"]
            for e in drew:
                if not e.data["src"].startswith("generator."):
                    ctx.viol(f"draw-ignores-seed:{e.fn}", f"{fn}(seed=...): {e.data['src']} is not governed by the seed", e.where())


def zero_seed(ctx):
    """a seed of 0 is a seed"""
    for what in ("RDMD", "randomized_preprocessing", "compute_rqb"):
        S = Session(ctx.prog)
        if what == "RDMD":
            fit(S, make(S, what, test_matrix=NONE, seed=const(0)), what)
        elif what == "compute_rqb":
            S.func("pydmd.utils", what, test_matrix=NONE, seed=const(0))
        else:
            d = make(S, "DMD", label="inner")
            common.wfit(S, S.func(dict((b, a) for a, b in common.WR)[what], what, dmd=d, test_matrix=NONE, seed=const(0)), "DMD", "@1")
        ctx.obl(1, f"{what}(seed=0)")
        for e in S.I.events:
            if e.kind == "rng-new":
                seed = e.data["seed"]
                if seed is None or any(a[0] == "c" and (a[2] is None or a[2] != 0) for a in seed.atoms):
                    ctx.viol(f"zero-seed:{what}", f"{what}(seed=0): the random generator is not created from the seed", e.where())


def functions(ctx):
    S = Session(ctx.prog)
    for n in ("compute_rank", "compute_tlsq", "compute_svd", "pseudo_hankel_matrix", "differentiate"):
        S.func("pydmd.utils", n)
    ctx.obl(len(S.steps), "utility functions")
    scan(ctx, S, "utility functions")
    S = Session(ctx.prog)
    S.func("pydmd.utils", "compute_rqb")
    ctx.obl(1, "compute_rqb")
    scan(ctx, S, "compute_rqb", (), "arg:seed@compute_rqb")


def run(ctx):
    for c in CLASSES:
        ctx.guard(c, plain, ctx, c)
    for c in OFF:
        ctx.guard(c + " off", switched_off, ctx, c)
    for c in ("COSTS", "mrCOSTS"):
        ctx.guard(c + " clustering", clustering, ctx, c)
    ctx.guard("wrappers", wrappers, ctx)
    ctx.guard("tuner", common.tuner_histories, ctx, lambda ctx, S, what: scan(ctx, S, what, ("fit",)))
    ctx.guard("functions", functions, ctx)
    ctx.guard("zero seed", zero_seed, ctx)
