"""Whole-object usage histories, interpreted abstractly.

A Session drives the abstract interpreter through a public-API history of one object: construction with symbolic
options, fit on symbolic data X@1, every public query, refit on X@2, ...  Only public names of the package appear here.
"""
from __future__ import annotations

import ast

from .interp import BudgetExceeded, Frame, Interp, State, Stop, changed_keys
from .loader import FuncInfo
from .vals import NONE, T, TRUE, U, N, UNKNOWN, Val, const, join

ARR = {"X", "Y", "data", "t", "time", "I", "B", "init_alpha", "proj_basis", "compression_matrix", "test_matrix", "H",
       "forcing", "V0", "x0", "fixed_point", "training_parameters", "eigs_true", "x_rescale", "cluster_centroids",
       "s", "V", "x", "y", "control_input", "x_est", "x_true", "omega_array", "ds", "da", "da_interp", "value",
       "gamma", "true_switch_indices", "parameters", "alphas", "phi", "omegas", "eigenf", "alphas_init", "v",
       "controlin", "H", "sigma_svd"}
DICTS = {"pydmd_kwargs", "varpro_opts_dict", "optargs", "kernel_params", "kmeans_kwargs", "clustering_kwargs",
         "scale_reconstruction_kwargs", "fig_kwargs", "plot_kwargs", "hf_plot_kwargs", "solve_ivp_opts", "kwargs",
         "costs_recon_kwargs", "dmd_fit_kwargs"}
# containers whose elements may themselves be mutable caller data
DEEP = {"pydmd_kwargs", "dmd_fit_kwargs", "dmd_fit_args", "kwargs"}
SETS = {"eig_constraints"}
LISTS = {"window_length_array", "step_size_array", "svd_rank_array", "global_svd_array", "n_components_array",
         "dmd_fit_args", "file_list", "n_components_range", "indexes", "index_mode", "index_snap", "order_list"}
FUNCS = {"mode_prox", "kernel_function", "kernel_gradient"}
REALARR = {"t", "time", "window_length_array", "step_size_array", "svd_rank_array", "n_components_array",
           "training_parameters", "parameters", "indexes", "s", "sigma_svd"}
REALSCAL = {"svd_rank", "tlsq_rank", "dt", "tend", "d", "delays", "lag", "num_chaos", "window_length", "step_size"}


def kind_of(name):
    if name in DICTS:
        return "dict"
    if name in SETS:
        return "set"
    if name in LISTS:
        return "list"
    if name in FUNCS:
        return "fn"
    if name in ARR:
        return "arr"
    return "scalar"


class Session:
    def __init__(self, prog, quiet_paths=True):
        self.prog = prog
        self.I = Interp(prog)
        self.st = State()
        self.node = ast.parse("user_code()").body[0].value
        I = self.I
        fid = I.new_fid(None)
        self.st.frames[fid] = {}
        I.stack.append(Frame(fid, None, 0, _UserModule(prog)))
        self.fid = fid
        self.integer = ()        # names of array arguments that hold integers
        self.steps = []          # (label, outcome)
        self.raises = {}         # label -> raised outcomes
        self.results = {}

    # -------------------------------------------------------------- inputs
    def param(self, name, tag="", optional=False, kind=None, scope="arg"):
        """A symbolic caller-supplied argument."""
        kind = kind or kind_of(name)
        label = f"{name}{tag}"
        lab = f"{scope}:{label}" if scope else label
        st, I = self.st, self.I
        if kind == "scalar":
            ck = "R" if name in REALSCAL else None
            return Val({U}, {lab}, T("p", label), None, ck)
        if kind == "fn":
            return Val({N} | ({("c", "NoneType", None)} if optional else set()), {lab}, T("p", label))
        ck = "R" if name in REALARR else "I" if name in self.integer else "C"
        oid = I.caller_obj(st, label, {"arr": "any", "ndarray": "arr", "dict": "dict", "set": "set", "list": "list"}[kind])
        if kind in ("dict", "list"):
            f = {"[]": Val({N}, {lab}, None, None, None)}
            if name in DEEP:
                inner = I.caller_obj(st, label + "[*]", "any")
                f = {"[]": Val({N, ("o", inner)}, {lab}, None, None, None)}
            if kind == "dict":
                f["#open"] = TRUE
            st.heap[oid] = f
        v = Val({("o", oid)}, {lab}, T("p", label), None, ck)
        if optional:
            v = Val(v.atoms | NONE.atoms, v.deps, v.term, None, v.ck)
        return v

    # -------------------------------------------------------------- steps
    def run(self, label, fn, unnarrow=False):
        """Run one step; on every-path-raises the state is restored and None returned.

        unnarrow: what a query merely learned about fields on its succeeding paths is forgotten again (its failing
        paths are histories too)."""
        I = self.I
        n0 = len(I.events)
        I.step = label
        before = self.st
        I.sinks.append([])
        x = before.copy()
        x.facts = {}
        x.pc = frozenset()
        try:
            v, x = fn(x)
            self.st = x
            ok = "ok"
        except Stop:
            v = None
            ok = "raises"
            self.st = before
        finally:
            self.raises[label] = I.sinks.pop()
        if unnarrow and ok == "ok":
            self.forget(before, n0)
        self.steps.append((label, ok))
        self.results[label] = v
        return v

    def forget(self, before, n0):
        I = self.I
        written = {(e.data["obj"], e.data["name"]) for e in I.events[n0:] if e.kind == "attr-write"}
        mutated = {o for e in I.events[n0:] if e.kind == "mutate" for o in e.data["objs"]} if I.versioned else ()
        for oid in changed_keys(before.heap, self.st.heap):
            a, b = before.heap.get(oid), self.st.heap.get(oid)
            if a is None or b is None or a is b or I.objs[oid].kind != "inst":
                continue
            h = None
            for k, x in a.items():
                if b.get(k) is not x and (oid, k) not in written and not k.startswith(("k:", "[", "#")):
                    if mutated and isinstance(x, Val) and any(o in mutated for o in x.oids()):
                        continue
                    h = h if h is not None else dict(b)
                    h[k] = x
            if h is not None:
                self.st.heap[oid] = h

    def new(self, cname, label="ctor", **over):
        cls = self.prog.classes.get(cname)
        if cls is None:
            raise AnchorMissing(f"class {cname}")
        init = cls.find("__init__")
        kw = {}
        if isinstance(init, FuncInfo):
            pos, va, kwonly, kwarg = init.params()
            nd = len(init.node.args.defaults)
            opt = set(pos[len(pos) - nd:]) | set(kwonly)
            for p in pos[1:] + kwonly:
                if p in over:
                    if over[p] is not DEFAULT:
                        kw[p] = over[p]
                    continue
                kw[p] = self.param(p, "", optional=p in opt, scope="ctor")
            for p, v in over.items():
                if p not in kw and v is not DEFAULT and (kwarg is not None):
                    kw[p] = v
        return self.run(label, lambda st: self.I.construct(cls, [], kw, self.node, st))

    def method(self, obj, name, label=None, **over):
        """Call a public method, filling unspecified parameters with symbolic arguments."""
        label = label or name

        def go(st):
            f, st = self.I.load_attr(obj, name, self.node, st)
            fi = first_fn(f)
            kw = {}
            if fi is not None:
                pos, va, kwonly, kwarg = fi.params()
                nd = len(fi.node.args.defaults)
                opt = set(pos[len(pos) - nd:]) if nd else set()
                opt |= set(kwonly)
                start = 0 if fi.kind == "static" else 1
                old, self.st = self.st, st
                for p in pos[start:] + kwonly:
                    if p in over:
                        if over[p] is not DEFAULT:
                            kw[p] = over[p]
                        continue
                    kw[p] = self.param(p, "@" + label, optional=p in opt)
                self.st = old
                if kwarg:
                    kw.update({k: v for k, v in over.items() if k not in kw and k not in pos and v is not DEFAULT})
            else:
                kw = {k: v for k, v in over.items() if v is not DEFAULT}
            return self.I.call_val(f, [], kw, self.node, st)
        return self.run(label, go, unnarrow=not name.startswith("fit"))

    def get(self, obj, name, label=None):
        return self.run(label or name, lambda st: self.I.load_attr(obj, name, self.node, st), unnarrow=True)

    def set(self, obj, name, v, label=None):
        def go(st):
            return NONE, self.I.store_attr(obj, name, v, self.node, st)
        return self.run(label or ("set " + name), go)

    def sub(self, obj, idx, label="getitem"):
        return self.run(label, lambda st: self.I.load_sub(obj, idx, self.node, st))

    def func(self, mod, name, label=None, **over):
        m = self.prog.modules.get(mod)
        r = self.prog.resolve(m, name) if m else None
        if r is None or r[0] != "func":
            raise AnchorMissing(f"function {mod}.{name}")
        fi = r[1]
        label = label or name

        def go(st):
            pos, va, kwonly, kwarg = fi.params()
            nd = len(fi.node.args.defaults)
            opt = set(pos[len(pos) - nd:]) if nd else set()
            opt |= set(kwonly)
            kw = {}
            old, self.st = self.st, st
            for p in pos + kwonly:
                if p in over:
                    if over[p] is not DEFAULT:
                        kw[p] = over[p]
                    continue
                kw[p] = self.param(p, "@" + label, optional=p in opt)
            if kwarg is not None:
                kw.update({p: v for p, v in over.items() if p not in kw and v is not DEFAULT})
            self.st = old
            return self.I.call_fn(fi, [], kw, self.node, st)
        return self.run(label, go)

    def reach(self, v, st=None):
        """All (path, oid) reachable from a value."""
        st = st or self.st
        seen = {}
        work = [((), v)]
        while work:
            path, x = work.pop()
            for a in x.atoms:
                if a[0] == "o":
                    if a[1] in seen:
                        continue
                    seen[a[1]] = path
                    for k, y in st.heap.get(a[1], {}).items():
                        if isinstance(y, Val):
                            work.append((path + (k,), y))
                elif a[0] in ("t", "tn"):
                    for i, y in enumerate(a[-1]):
                        work.append((path + (f"({i})",), y))
                elif a[0] == "b":
                    work.append((path + ("self",), Val({a[1]})))
                elif a[0] == "f" and a[2] is not None:
                    for k, y in st.frames.get(a[2], {}).items():
                        if ("closure", a[2], k) not in seen:
                            seen[("closure", a[2], k)] = path
                            work.append((path + ("closure:" + k,), y))
        return seen


class _Default:
    pass


DEFAULT = _Default()


class AnchorMissing(Exception):
    pass


class _UserModule:
    def __init__(self, prog):
        self.name = "user"
        self.relpath = "<caller>"
        self.names = {}
        self.is_pkg = False


def first_fn(f):
    for a in f.atoms:
        if a[0] == "b":
            return a[2]
        if a[0] == "f":
            return a[1]
    return None


# ------------------------------------------------------------------------ the public surface
DMD_PROPS = ["modes", "eigs", "amplitudes", "dynamics", "reconstructed_data", "frequency", "growth_rate", "snapshots",
             "snapshots_y", "snapshots_shape", "operator", "dmd_time", "original_time", "dmd_timesteps",
             "original_timesteps", "fitted", "modes_activation_bitmask"]
CLASSES = ["DMD", "FbDMD", "SpDMD", "EDMD", "PiDMD", "HankelDMD", "HODMD", "CDMD", "RDMD", "SubspaceDMD", "MrDMD",
           "OptDMD", "DMDc", "BOPDMD", "VarProDMD", "LANDO", "HAVOK", "COSTS", "mrCOSTS", "ParametricDMD"]


def public_props(cls):
    out = []
    for c in cls.mro:
        for n, f in c.methods.items():
            if f.kind == "property" and not n.startswith("_") and n not in out:
                g = cls.find(n)
                if isinstance(g, FuncInfo) and g.kind == "property":
                    out.append(n)
    return sorted(out)


def public_methods(cls):
    out = []
    for c in cls.mro:
        for n, f in c.methods.items():
            if f.kind in ("func", "static", "class") and not n.startswith("_") and n not in out:
                g = cls.find(n)
                if isinstance(g, FuncInfo) and g.kind != "property":
                    out.append(n)
    return sorted(out)


MUTATORS = {"fit", "fit_econ", "update", "analyze_fixed_point", "from_xarray", "from_netcdf", "cluster_omega",
            "global_cluster_omega", "load", "multi_res_interp", "multi_res_deterp", "save", "to_netcdf"}


def make(S, cname, label="ctor", **over):
    """Construct a model of the given public class with symbolic options."""
    S.name = getattr(S, "name", "") or cname
    if cname == "ParametricDMD":
        inner = S.new("DMD", label + ".inner")
        S.inner = inner
        ext = Val({N}, {"ctor:pod"})
        return S.new("ParametricDMD", label, dmd=inner, spatial_pod=Val({N}, {"ctor:spatial_pod"}),
                     approximation=Val({N}, {"ctor:approximation"}),
                     dmd_fit_args=over.pop("dmd_fit_args", DEFAULT), dmd_fit_kwargs=over.pop("dmd_fit_kwargs", DEFAULT),
                     **over)
    if cname == "MrDMD":
        inner = S.new("DMD", label + ".inner")
        S.inner = inner
        return S.new("MrDMD", label, dmd=inner, **over)
    if cname == "HAVOK":
        return S.new("HAVOK", label, **{"dmd": NONE, **over})
    return S.new(cname, label, **over)


def fit(S, obj, cname, tag="@1", label=None, **over):
    label = label or ("fit" + tag)
    cls = S.prog.classes[cname] if cname in S.prog.classes else None
    f = cls.find("fit") if cls else None
    pos = f.params()[0][1:] if isinstance(f, FuncInfo) else ["X"]
    nd = len(f.node.args.defaults) if isinstance(f, FuncInfo) else 0
    opt = set(pos[len(pos) - nd:]) if nd else set()
    kw = {}
    for p in pos:
        if p in over:
            if over[p] is not DEFAULT:
                kw[p] = over[p]
            continue
        kw[p] = S.param(p, tag, optional=p in opt, scope="")
    r = S.method(obj, "fit", label, **kw)
    if cname == "ParametricDMD" and r is not None:
        S.set(obj, "parameters", S.param("parameters", tag, scope=""), label="set parameters" + tag)
    return r
