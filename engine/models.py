"""Abstract semantics of builtins, numpy, scipy and the other libraries the package calls."""
from __future__ import annotations

import zlib

import ast

from .layout import Nd, NoLayout
from .loader import FuncInfo
from .vals import (FALSE, MISSING, N, NONE, NOTNONE, T, TRUE, U, UNKNOWN, Val, Term, const, consts_of, join, joinall,
                   one_const)

# ---------------------------------------------------------------------- terms


def tT(t):
    if t is None:
        return None
    if t.op == "T":
        return t.args[0]
    if t.op == "H":
        return tconj(t.args[0])
    if t.op == "conj":
        return T("H", t.args[0])
    if t.op == "diag":
        return t
    return T("T", t)


def tconj(t):
    if t is None:
        return None
    if t.op == "conj":
        return t.args[0]
    if t.op == "H":
        return tT(t.args[0])
    if t.op == "T":
        return T("H", t.args[0])
    if t.op in REALOPS:
        return t
    return T("conj", t)


REALOPS = {"abs", "real", "imag", "svd.s", "angle", "norm", "arange", "shape", "len"}


def tdot(*ts):
    if any(t is None for t in ts):
        return None
    flat = []
    for t in ts:
        if t.op == "dot":
            flat.extend(t.args)
        else:
            flat.append(t)
    return T("dot", *flat)


def trecip(t):
    if t is None:
        return None
    if t.op == "recip":
        return t.args[0]
    if t.op == "c" and isinstance(t.args[0], (int, float)) and t.args[0] != 0:
        return T("recip", t)
    return T("recip", t)


def tmul(*ts):
    if any(t is None for t in ts):
        return None
    flat = []
    for t in ts:
        flat.extend(t.args if t.op == "Mult" else [t])
    return T("Mult", *sorted(flat, key=lambda x: x.id))


def tadd(*ts):
    if any(t is None for t in ts):
        return None
    flat = []
    for t in ts:
        flat.extend(t.args if t.op == "Add" else [t])
    return T("Add", *sorted(flat, key=lambda x: x.id))


def tneg(t):
    if t is None:
        return None
    if t.op == "neg":
        return t.args[0]
    if t.op == "c" and isinstance(t.args[0], (int, float)):
        return T("c", -t.args[0])
    return T("neg", t)


def t_of(op, *vals):
    if any(v.term is None for v in vals):
        return None
    return T(op, *[v.term for v in vals])


def deps_of(vals):
    d = frozenset()
    for v in vals:
        if v is not None:
            d |= v.deps
    return d


def floating(ck):
    return "F" if ck == "I" else ck


def ck_of(vals):
    cks = [v.ck for v in vals if v is not None]
    if "C" in cks:
        return "C"
    if "F" in cks:
        return "F"
    if cks and all(c == "R" for c in cks):
        return "R"
    return None


# ---------------------------------------------------------------------- types

PYTYPES = {"int", "float", "str", "bool", "complex", "bytes", "list", "tuple", "dict", "set", "frozenset", "ndarray",
           "NoneType", "Number", "FunctionType", "Callable", "slice", "Real", "Integral", "Iterable", "Sequence",
           "integer", "floating", "OrderedDict", "Mapping"}


def type_names(e):
    if isinstance(e, (ast.Tuple, ast.List)):
        r = []
        for x in e.elts:
            n = type_names(x)
            if n is None:
                return None
            r += n
        return r
    if isinstance(e, ast.Name):
        return [e.id]
    if isinstance(e, ast.Attribute):
        return [e.attr]
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type":
        return ["NoneType"] if isinstance(e.args[0], ast.Constant) and e.args[0].value is None else None
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        a, b = type_names(e.left), type_names(e.right)
        return a + b if a and b else None
    return None


def atom_isinstance(I, a, names):
    k = a[0]
    if "object" in names:
        return True
    if k == "c":
        tn = a[1]
        have = {tn}
        if tn in ("int", "float", "complex", "bool"):
            have |= {"Number"}
        if tn in ("int", "bool"):
            have |= {"int", "Integral", "Real"}
        if tn == "float":
            have |= {"Real"}
        if tn == "str":
            have |= {"Sequence", "Iterable"}
        return bool(have & set(names)) if all(n in PYTYPES or n in I.prog.classes for n in names) else (
            True if have & set(names) else None)
    if k in ("t", "tn"):
        return bool({"tuple", "Sequence", "Iterable"} & set(names))
    if k == "sl":
        return "slice" in names
    if k in ("f", "b"):
        return bool({"FunctionType", "Callable"} & set(names))
    if k == "k":
        return "type" in names
    if k == "o":
        o = I.objs[a[1]]
        if o.kind == "inst" and o.cls is not None:
            if any(o.cls.issub(n) for n in names):
                return True
            if "Generic" in o.cls.all_ext() or True:
                return False
        if o.kind == "list":
            if {"list", "Iterable", "Sequence"} & set(names):
                return True
            return None if "tuple" in names else False
        if o.kind == "dict":
            return bool({"dict", "Mapping", "Iterable", "OrderedDict"} & set(names))
        if o.kind == "set":
            return bool({"set", "Iterable", "frozenset"} & set(names))
        if o.kind == "partial":
            return bool({"partial", "Callable"} & set(names))
        if o.kind == "arr":
            s = set(names)
            if o.caller:
                return bool(s & {"ndarray", "Iterable"})
            if s & {"ndarray", "Number", "int", "float", "Iterable", "integer", "floating", "Real", "complex"}:
                return None
            if s <= {"str", "list", "dict", "tuple", "set", "NoneType", "bool", "FunctionType", "slice"}:
                return False
            if all(n in I.prog.classes for n in names):
                return False
            return None
        return None
    if k == "n":
        return False if set(names) == {"NoneType"} else None
    return None


# ---------------------------------------------------------------------- operators

FOLD = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
    "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b, "Div": lambda a, b: a / b, "Pow": lambda a, b: a ** b,
}


def scalarish(v):
    return all(a[0] in ("c", "n") for a in v.atoms)


def binop(I, op, a, b, node, st):
    deps = a.deps | b.deps
    oka, ca = one_const(a)
    okb, cb = one_const(b)
    num = (int, float, bool, complex)
    if oka and okb and op in FOLD:
        try:
            if isinstance(ca, num) and isinstance(cb, num) and not (op == "Pow" and abs(cb) > 64):
                return const(FOLD[op](ca, cb)).add_deps(deps)
            if isinstance(ca, str) and isinstance(cb, str) and op == "Add":
                return const(ca + cb).add_deps(deps)
        except Exception:
            pass
    if oka and isinstance(ca, str) and op == "Mod":
        return Val({N}, deps)
    if (oka and ca is None) or (okb and cb is None):
        I.event("none-arith", node, st, op=op)
        I.do_raise(st, "TypeError", node, explicit=False)
        from .interp import Stop
        raise Stop()
    if op in ("Sub", "BitAnd", "BitOr", "BitXor") and a.oids() and b.oids():
        try:
            xa, xb = pyval(I, st, a), pyval(I, st, b)
            if isinstance(xa, set) and isinstance(xb, set):
                r = {"Sub": xa - xb, "BitAnd": xa & xb, "BitOr": xa | xb, "BitXor": xa ^ xb}[op]
                return from_py(I, st, r, node, deps)
        except _NoPy:
            pass
    # sequences
    sa, sb = I.seq_elems(a, st), I.seq_elems(b, st)
    kinds_a = {I.objs[o].kind for o in a.oids()}
    kinds_b = {I.objs[o].kind for o in b.oids()}
    if op == "Add":
        ta = [x for x in a.atoms if x[0] == "t"]
        tb = [x for x in b.atoms if x[0] == "t"]
        if ta and tb and len(a.atoms) == 1 and len(b.atoms) == 1:
            from .interp import mk_tuple
            return mk_tuple(list(ta[0][1]) + list(tb[0][1]))
        if (kinds_a == {"list"} or ta) and (kinds_b == {"list"} or tb):
            if sa is not None and sb is not None:
                return I.mk_list(sa + sb, node, st)
            el = join(I.element(a, st, node), I.element(b, st, node))
            oid = I.alloc(st, "list", node, fields={"[]": el})
            return Val({("o", oid)}, deps)
    if op == "Mult" and (kinds_a == {"list"} or kinds_b == {"list"}) and len(a.atoms) == 1 and len(b.atoms) == 1:
        src, cnt = (a, b) if kinds_a == {"list"} else (b, a)
        if I.distinct and one_const(cnt)[0] and type(one_const(cnt)[1]) is int and I.seq_elems(src, st) is not None:
            seq = I.seq_elems(src, st) * one_const(cnt)[1]
            if len(seq) <= 64:
                return I.mk_list(seq, node, st)
        el = I.element(src, st, node)
        oid = I.alloc(st, "list", node, fields={"[]": el})
        return Val({("o", oid)}, deps)
    if op in ("Sub", "BitAnd", "BitOr", "BitXor") and kinds_a == {"set"} and len(a.atoms) == 1:
        el = I.element(a, st, node)
        if op == "BitOr":
            el = join(el, I.element(b, st, node))
        oid = I.alloc(st, "set", node, fields={"[]": el})
        t = T("set" + op, a.term, b.term) if a.term is not None and b.term is not None else None
        return Val({("o", oid)}, deps, t)
    t = None
    if a.term is not None and b.term is not None:
        if op == "MatMult":
            t = tdot(a.term, b.term)
        elif op == "Add":
            t = tadd(a.term, b.term)
        elif op == "Sub":
            t = tadd(a.term, tneg(b.term))
        elif op == "Mult":
            t = tmul(a.term, b.term)
        elif op == "Div":
            t = tmul(a.term, trecip(b.term))
        else:
            t = T(op, a.term, b.term)
    ck = ck_of([a, b])
    if ck is None and "I" in (a.ck, b.ck):
        ck = "F" if op == "Div" else "I" if a.ck == b.ck else None
    I.event("binop", node, st, op=op, left=a, right=b)
    if scalarish(a) and scalarish(b):
        return Val({N}, deps, t, None, ck)
    return I.fresh(st, node, deps, t, ck, extra=op)


def compare(I, op, a, b, node, st):
    deps = a.deps | b.deps

    def res(r):
        return Val((TRUE if r else FALSE).atoms, deps, (TRUE if r else FALSE).term, None, "R")

    if op not in ("Is", "IsNot") and (b.oids() or a.oids()):
        try:
            xa, xb = pyval(I, st, a), pyval(I, st, b)
            import operator as O
            f = {"Eq": O.eq, "NotEq": O.ne, "Lt": O.lt, "LtE": O.le, "Gt": O.gt, "GtE": O.ge, "In": lambda p, q: p in q,
                 "NotIn": lambda p, q: p not in q}[op]
            return res(bool(f(xa, xb)))
        except Exception:
            pass
    neg = op in ("IsNot", "NotEq", "NotIn")
    base = {"IsNot": "Is", "NotEq": "Eq", "NotIn": "In"}.get(op, op)
    out = None
    if base == "Is":
        okb, cb = one_const(b)
        if okb:
            yes = no = False
            for x in a.atoms:
                if x[0] == "c":
                    same = x[2] is cb or (x[1] in ("bool", "NoneType") and type(x[2]) is type(cb) and x[2] == cb)
                    yes |= same
                    no |= not same
                elif x[0] == "u":
                    yes = no = True
                elif x[0] == "n":
                    no = True
                    if cb is not None:
                        yes = True
                elif x[0] == "o":
                    no = True
                    if I.objs[x[1]].kind == "any" and cb is not None:
                        yes = True
                elif x[0] == "missing":
                    pass
                else:
                    no = True
            if yes != no:
                out = yes
        elif len(a.atoms) == 1 and len(b.atoms) == 1:
            x, y = next(iter(a.atoms)), next(iter(b.atoms))
            if x[0] in ("x", "k") and y[0] in ("x", "k"):
                out = x == y
            elif x[0] == y[0] == "o" and x[1] == y[1] and x[1] not in I.multi:
                out = True
    elif base == "Eq":
        ca, cb = consts_of(a), consts_of(b)
        if ca is not None and cb is not None:
            rs = set()
            for x in ca:
                for y in cb:
                    try:
                        rs.add(bool(x == y))
                    except Exception:
                        rs |= {True, False}
            if len(rs) == 1:
                out = rs.pop()
        else:
            # a string constant never equals a package object / array buffer identity is unknown
            for u, c in ((a, cb), (b, ca)):
                if c is not None and all(isinstance(z, str) or z is None for z in c):
                    if all(x[0] in ("t", "tn", "f", "b", "k", "sl") or
                           (x[0] == "o" and I.objs[x[1]].kind in ("inst", "list", "dict", "set", "partial"))
                           for x in u.atoms):
                        out = False
        if out is None and a.term is not None and a.term is b.term:
            out = True
    elif base == "In":
        ok, c = one_const(a)
        for x in b.atoms:
            if len(b.atoms) != 1:
                break
            seq = I.seq_elems(b, st)
            if x[0] == "o" and I.objs[x[1]].kind == "dict" and ok:
                h = st.heap.get(x[1], {})
                key = "k:" + repr(c)
                if key in h:
                    v = I.resolve_gate(st, h[key])
                    if MISSING not in v.atoms:
                        out = True
                elif not h.get("#open"):
                    out = False
            elif seq is not None:
                ca = consts_of(a)
                cs = [one_const(e) for e in seq]
                if ca is not None and all(z[0] for z in cs):
                    rs = {any(type(p) is type(q[1]) and p == q[1] or p == q[1] for q in cs) for p in ca}
                    if len(rs) == 1:
                        out = rs.pop()
            elif x[0] == "c" and isinstance(x[2], str) and ok and isinstance(c, str):
                out = c in x[2]
            elif x[0] == "o" and I.objs[x[1]].kind == "inst" and ok:
                h = st.heap.get(x[1], {})
                cl = I.objs[x[1]].cls
                if cl is not None and "dict" in cl.all_ext() and not h.get("#open"):
                    out = ("k:" + repr(c)) in h
    elif base in ("Lt", "Gt", "LtE", "GtE"):
        ca, cb = consts_of(a), consts_of(b)
        if ca is not None and cb is not None:
            rs = set()
            for x in ca:
                for y in cb:
                    try:
                        rs.add({"Lt": x < y, "Gt": x > y, "LtE": x <= y, "GtE": x >= y}[base])
                    except Exception:
                        rs.add(None)
            if len(rs) == 1:
                out = rs.pop()
            if rs == {None}:
                I.do_raise(st, "TypeError", node, explicit=False)
                from .interp import Stop
                raise Stop()
        elif (ca is not None and all(isinstance(x, str) or x is None for x in ca) and cb is None and scalarish(b)) :
            pass
    if out is not None:
        return res(out != neg)
    t = None
    if a.term is not None and b.term is not None:
        if base == "Gt":
            t = T("Lt", b.term, a.term)
        elif base == "GtE":
            t = T("LtE", b.term, a.term)
        else:
            t = T(base, a.term, b.term)
        if neg:
            t = T("not", t)
    I.event("compare", node, st, op=op, left=a, right=b)
    if base in ("Is", "In") or (scalarish(a) and scalarish(b)):
        return Val({N}, deps, t, None, "R")
    if any(x[0] == "o" and I.objs[x[1]].kind in ("arr",) for x in a.atoms | b.atoms):
        oid = I.alloc(st, "arr", node, extra="cmp")
        return Val({("o", oid)}, deps, t, None, "R")
    return Val({N}, deps, t, None, "R")


# ---------------------------------------------------------------------- attributes of non-package values

VIEW_METHODS = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes", "diagonal", "conj", "conjugate",
                "newbyteorder", "get_values"}
INPLACE_METHODS = {"sort", "fill", "resize", "put", "partition", "itemset", "byteswap", "setfield"}
LIST_MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"}
DICT_MUT = {"update", "pop", "setdefault", "clear", "popitem", "__setitem__", "__delitem__", "move_to_end"}
SET_MUT = {"add", "remove", "discard", "pop", "clear", "update", "difference_update", "intersection_update",
           "symmetric_difference_update"}
ARR_FRESH = {"copy", "flatten", "astype", "dot", "sum", "mean", "min", "max", "argsort", "argmax", "argmin", "cumsum",
             "std", "var", "prod", "repeat", "clip", "round", "tolist", "nonzero", "any", "all", "toarray", "todense",
             "trace", "filled", "item", "searchsorted", "take", "compress", "choose", "ptp", "tobytes", "dropna",
             "isel", "sel", "where", "interp", "diff", "to_netcdf", "swap_dims", "tocsr", "tocsc", "multiply", "power",
             "getH", "matmul"}
DICT_METHODS = DICT_MUT | {"get", "items", "keys", "values", "copy"}
STR_METHODS = {"format", "startswith", "endswith", "replace", "lower", "upper", "split", "strip", "join", "find",
               "index", "count", "rstrip", "lstrip", "capitalize", "title", "isdigit"}
KNOWN_METHODS = (VIEW_METHODS | INPLACE_METHODS | LIST_MUT | DICT_METHODS | SET_MUT | ARR_FRESH | STR_METHODS |
                 {"issubset", "difference", "union", "intersection", "issuperset", "isdisjoint", "__iter__", "tolist",
                  "setflags", "standard_normal", "normal", "uniform", "choice", "shuffle", "permutation", "integers",
                  "fit", "predict", "fit_predict", "transform", "reduce", "expand", "write", "read", "close"})


def value_attr(I, a, recv, name, node, st):
    k = a[0]
    me = Val({a}, recv.deps, recv.term, None, recv.ck)
    is_num = k in ("u", "n", "xm") or (k == "o" and I.objs[a[1]].kind in ("arr", "any", "ext"))
    if is_num or k == "c":
        if name in ("T", "mT"):
            return me.with_(term=tT(me.term)), st
        if name == "H":
            return me.with_(term=tconj(tT(me.term))), st
        if name in ("real", "imag"):
            t = T(name, me.term) if me.term is not None else None
            I.event("realpart", node, st, part=name, val=me)
            return me.with_(term=t, ck="R"), st
        if name in ("shape", "ndim", "size", "dtype", "nbytes", "itemsize", "nnz"):
            t = T(name, me.term) if me.term is not None else None
            return Val({N}, me.deps, t, None, me.ck if name == "dtype" else "R"), st
        if name in ("values", "flat", "data", "base"):
            return me, st
        if name == "flags":
            return Val({N}, me.deps), st
    if name in KNOWN_METHODS:
        return Val({("xm", me, name)}, recv.deps), st
    if k == "o" and I.objs[a[1]].kind in ("list", "dict", "set", "partial"):
        if name in ("func",) and I.objs[a[1]].kind == "partial":
            return st.heap[a[1]]["#fn"], st
        if I.objs[a[1]].kind == "dict" and st.heap[a[1]].get("#xr"):
            return xr_attr(I, a, name, node, st)
        return Val({("xm", me, name)}, recv.deps), st
    if k in ("f", "b", "k", "partial"):
        if name == "__name__":
            return NOTNONE, st
        return UNKNOWN, st
    if k == "o" and I.objs[a[1]].kind == "ext":
        f = I.get_field(st, a[1], name)
        if f is not None:
            return f, st
        return Val({("xm", me, name), ("o", a[1])}, recv.deps), st
    if k == "xm":
        return Val({("xm", me, name)}, recv.deps), st
    if k == "o":
        # attribute of an opaque object: part of the same object
        return Val({("xm", me, name), a}, recv.deps, T("attr", me.term, name) if me.term is not None else None, None,
                   recv.ck), st
    return Val({("xm", me, name), U}, recv.deps, T("attr", me.term, name) if me.term is not None else None), st


def value_setattr(I, a, name, v, node, st, recv=None):
    o = I.objs[a[1]]
    if o.kind in ("arr", "any") and name in ("real", "imag", "flat", "shape", "values", "data"):
        part = Val({N}, (), T("part", name)) if name in ("real", "imag") else None
        I.mutate(st, [a[1]], node, how="." + name + "=", value=v, index=part, recv=recv)
        taint_buffer(I, st, a[1], Val({N}, v.deps | st.pc, None, None, v.ck))
    elif o.kind in ("ext", "any", "dict"):
        I.mutate(st, [a[1]], node, how="." + name + "=", value=v)
        if o.kind == "ext":
            I.set_field(st, a[1], name, v, weak=True)


# ---------------------------------------------------------------------- subscripts

def index_kind(I, idx, st):
    """'basic' (view), 'fancy' (copy) or 'maybe'."""
    kinds = set()
    for a in idx.atoms:
        if a[0] == "sl":
            kinds.add("basic")
        elif a[0] == "c":
            kinds.add("fancy" if isinstance(a[2], bool) else "basic")
        elif a[0] == "t":
            ks = {index_kind(I, x, st) for x in a[1]}
            if "fancy" in ks:
                kinds.add("fancy")
            elif "maybe" in ks:
                kinds.add("maybe")
            else:
                kinds.add("basic")
        elif a[0] == "x" and a[1].endswith("Ellipsis"):
            kinds.add("basic")
        elif a[0] == "o":
            o = I.objs[a[1]]
            if o.kind in ("list", "set"):
                kinds.add("fancy")
            elif o.kind == "arr" and not o.caller:
                kinds.add("fancy" if "cmp@" in o.oid or "mask" in o.oid or "sort" in o.oid else "maybe")
            else:
                kinds.add("maybe")
        elif a[0] == "n":
            kinds.add("basic")
        else:
            kinds.add("maybe")
    if len(kinds) == 1:
        return kinds.pop()
    return "maybe"


def load_sub_atom(I, a, recv, idx, node, st):
    from .interp import Stop
    k = a[0]
    t = T("idx", recv.term, idx.term) if recv.term is not None and idx.term is not None else None
    deps = recv.deps | idx.deps
    ok, c = one_const(idx)
    if k in ("t", "tn"):
        vals = a[-1]
        if ok and isinstance(c, int):
            try:
                return vals[c], st
            except IndexError:
                I.do_raise(st, "IndexError", node, explicit=False)
                raise Stop()
        sl = const_slice(idx)
        if sl is not None:
            from .interp import mk_tuple
            return mk_tuple(list(vals[sl])), st
        return (joinall(vals) or UNKNOWN).add_deps(idx.deps), st
    if k == "c":
        if a[2] is None:
            I.event("none-attr", node, st, name="[]")
            I.do_raise(st, "TypeError", node, explicit=False)
            raise Stop()
        if ok or const_slice(idx) is not None:
            try:
                return const(a[2][c if ok else const_slice(idx)]), st
            except Exception:
                return UNKNOWN, st
        return Val({N}, deps), st
    if k == "o":
        o = I.objs[a[1]]
        h = st.heap.get(a[1], {})
        if o.kind == "inst" and o.cls is not None:
            m = o.cls.find("__getitem__")
            if isinstance(m, FuncInfo):
                return I.call_fn(m, [Val({a}), idx], {}, node, st)
            if "dict" in o.cls.all_ext():
                return dict_get(I, a[1], idx, node, st, deps)
            return UNKNOWN.add_deps(deps), st
        if o.kind == "dict":
            return dict_get(I, a[1], idx, node, st, deps)
        if o.kind == "list":
            seq = I.seq_elems(Val({a}), st)
            if seq is not None:
                if ok and isinstance(c, int):
                    try:
                        return seq[c].add_deps(idx.deps), st
                    except IndexError:
                        I.do_raise(st, "IndexError", node, explicit=False)
                        raise Stop()
                sl = const_slice(idx)
                if sl is not None:
                    return I.mk_list(seq[sl], node, st), st
            if any(x[0] == "sl" for x in idx.atoms):
                f = {kk: v for kk, v in h.items() if kk == "[]"}
                oid = I.alloc(st, "list", node, extra="slice", fields=f)
                return Val({("o", oid)}, deps, t, None, recv.ck), st
            e = h.get("[]")
            if e is None:
                return UNKNOWN.add_deps(deps), st
            e = I.resolve_gate(st, e)
            return e.with_(term=t if t is not None else None, gate=None).add_deps(idx.deps), st
        if o.kind == "ext" and h.get("#xr"):
            return UNKNOWN.add_deps(deps), st
        if o.kind in ("arr", "any", "ext"):
            ik = index_kind(I, idx, st)
            if ik == "fancy":
                return I.fresh(st, node, deps, t, recv.ck, extra="fancy"), st
            atoms = {a}
            if ik == "maybe":
                oid = I.alloc(st, "arr", node, extra="maybecopy")
                atoms.add(("o", oid))
            if o.kind == "any":
                atoms.add(("n",)) if False else None
            return Val(frozenset(atoms), deps, t, None, recv.ck), st
        return UNKNOWN.add_deps(deps), st
    if k in ("x", "k"):
        return Val({a}), st  # typing subscripts
    if k == "n":
        return Val({N}, deps, t, None, recv.ck), st
    return Val({U}, deps, t, None, recv.ck), st


def const_slice(idx):
    if len(idx.atoms) == 1:
        a = next(iter(idx.atoms))
        if a[0] == "sl":
            ps = [one_const(x) for x in a[1:]]
            if all(p[0] for p in ps) and all(p[1] is None or isinstance(p[1], int) for p in ps):
                return slice(*[p[1] for p in ps])
    return None


def dict_get(I, oid, idx, node, st, deps, default=None):
    from .interp import Stop
    h = st.heap.get(oid, {})
    ok, c = one_const(idx)
    if ok:
        key = "k:" + repr(c)
        if key in h:
            v = I.resolve_gate(st, h[key])
            if MISSING in v.atoms:
                v2 = v.with_(atoms=v.atoms - {MISSING}, gate=None)
                if default is None:
                    I.do_raise(st, "KeyError", node, explicit=False)
                    if not v2.atoms:
                        raise Stop()
                    return v2, st
                return (join(v2, default) if v2.atoms else default), st
            I.event("dict-read", node, st, obj=oid, key=c)
            return v, st
        if not h.get("#open") and not I.objs[oid].caller:
            if default is not None:
                return default, st
            I.event("key-missing", node, st, obj=oid, key=c)
            I.do_raise(st, "KeyError", node, explicit=False)
            raise Stop()
    vals = [v for k2, v in h.items() if k2 == "[]" or (not ok and k2.startswith("k:"))]
    if ok and h.get("#open"):
        vals = [v for k2, v in h.items() if k2 == "[]"]
    v = joinall(vals)
    if v is None:
        v = UNKNOWN
    v = v.with_(gate=None, atoms=v.atoms - {MISSING} or frozenset({U}))
    if default is not None:
        v = join(v, default)
    if I.objs[oid].caller:
        v = v.with_(atoms=v.atoms | {("o", oid)})
    if not ok:
        tcs = consts_of(idx)
        if tcs is None and not h.get("#open"):
            I.do_raise(st, "KeyError", node, explicit=False)
    return v.add_deps(deps), st


def store_elem(I, st, oid, idx, v, strong, node):
    o = I.objs[oid]
    ok, c = one_const(idx)
    h = st.heap.get(oid, {})
    if o.kind == "dict" or (o.kind == "inst" and o.cls is not None and "dict" in o.cls.all_ext()):
        if ok:
            I.set_field(st, oid, "k:" + repr(c), v, weak=not strong)
        else:
            I.set_field(st, oid, "[]", v, weak=True)
            nh = dict(st.heap[oid])
            for kk in list(nh):
                if kk.startswith("k:"):
                    nh[kk] = join(nh[kk], v)
            nh["#open"] = TRUE
            st.heap[oid] = nh
    elif o.kind == "list":
        nh = dict(h)
        if ok and isinstance(c, int) and f"[{c}]" in nh and strong:
            nh[f"[{c}]"] = v
        else:
            for kk in list(nh):
                if kk.startswith("[") and kk != "[]":
                    nh[kk] = join(nh[kk], v)
        nh["[]"] = join(nh["[]"], v) if "[]" in nh else v
        st.heap[oid] = nh
    elif o.kind in ("arr", "any", "ext"):
        nh = dict(h)
        v = Val(v.atoms, v.deps | idx.deps | st.pc, None, None, v.ck)
        nh["#w"] = join(nh["#w"], Val({N}, v.deps, None, None, v.ck)) if "#w" in nh else Val({N}, v.deps, None, None, v.ck)
        st.heap[oid] = nh
        taint_buffer(I, st, oid, v)


def taint_buffer(I, st, oid, v):
    """Values stored into a buffer flow to everything that may read the buffer: add deps to every Val naming it."""
    deps = v.deps
    ck = v.ck
    if not deps and ck != "C":
        return
    real = st.heap.get(oid, {}).get("#real") is not None
    a = ("o", oid)

    def fix(x):
        if a in x.atoms:
            nck = "C" if (ck == "C" and not real) else x.ck
            if not deps <= x.deps or nck != x.ck:
                return Val(x.atoms, x.deps | deps, x.term, None, nck)
        return x
    for fid, env in list(st.frames.items()):
        for k, x in list(env.items()):
            y = fix(x)
            if y is not x:
                st.wframe(fid)[k] = y
    for q, h in list(st.heap.items()):
        nh = None
        for k, x in h.items():
            y = fix(x)
            if y is not x:
                if nh is None:
                    nh = dict(h)
                nh[k] = y
        if nh is not None:
            st.heap[q] = nh


def rank_of(I, v):
    """the place of a value in the order that is assumed"""
    for a in v.atoms:
        if a[0] in ("t", "tn") and len(v.atoms) == 1:
            xs = [rank_of(I, x) for x in a[-1]]
            return None if None in xs else tuple(xs)
    ok, c = one_const(v)
    if ok and type(c) in (int, float):
        return c
    return I.order(v.term) if v.term is not None else None


def sort_known(I, e, key, reverse, node, st):
    """the list e in the assumed order, or None"""
    ks = []
    for x in e:
        if key is not None and one_const(key) != (True, None):
            r, st = I.call_val(key, [x], {}, node, st)
        else:
            r = x
        ks.append(rank_of(I, r))
    rev = one_const(reverse) if reverse is not None else (True, False)
    if any(k is None for k in ks) or not rev[0] or not isinstance(rev[1], bool):
        return None, st
    try:
        p = sorted(range(len(e)), key=lambda i: ks[i], reverse=rev[1])
    except TypeError:
        return None, st
    return [e[i] for i in p], st


# ---------------------------------------------------------------------- iteration

def fixed_int(I, t):
    try:
        n = I.sizes.of(t)
    except NoLayout:
        return False, None
    return (True, n) if type(n) is int else (False, None)


def iter_vals(I, v, st, node):
    outs = []
    single = len(v.atoms) == 1
    if I.sizes is not None and v.term is not None and all(a[0] == "o" and I.objs[a[1]].kind == "arr" for a in v.atoms):
        try:
            r = I.sizes.of(v.term)
            if isinstance(r, Nd) and r.shape and r.shape[0] <= 6:
                return [v.with_(term=T("idx", v.term, T("c", i))) for i in range(r.shape[0])]
        except NoLayout:
            pass
    for a in v.atoms:
        k = a[0]
        if k in ("t", "tn"):
            if single:
                return list(a[-1])
            outs.append(joinall(a[-1]) or UNKNOWN)
        elif k == "o":
            o = I.objs[a[1]]
            h = st.heap.get(a[1], {})
            if o.kind in ("list", "set"):
                seq = I.seq_elems(Val({a}), st) if o.kind == "list" else None
                if single and seq is not None:
                    return seq
                e = h.get("[]")
                if e is None:
                    if o.kind == "list" and "#len" in h and single:
                        return []
                    e = UNKNOWN
                e = I.resolve_gate(st, e)
                if e.term is None and v.term is not None:
                    e = e.with_(term=T("elem", v.term))
                outs.append(e)
            elif o.kind == "dict" or (o.kind == "inst" and o.cls is not None and "dict" in o.cls.all_ext()):
                keys = [ast.literal_eval(kk[2:]) for kk in h if kk.startswith("k:")]
                if single and not h.get("#open") and keys:
                    return [const(x) for x in keys]
                outs.append(NOTNONE)
            elif o.kind == "inst" and o.cls is not None:
                m = o.cls.find("__iter__")
                if isinstance(m, FuncInfo):
                    r, _ = I.call_fn(m, [Val({a})], {}, node, st)
                    e = iter_vals(I, r, st, node)
                    if single and I.distinct and isinstance(e, list):
                        return e
                    outs.append(joinall(e) or UNKNOWN if isinstance(e, list) else e)
                else:
                    g = o.cls.find("__getitem__")
                    outs.append(UNKNOWN.add_deps(v.deps))
            else:
                t = T("elem", v.term) if v.term is not None else None
                at = {a}
                if o.kind == "any":
                    at.add(N)
                outs.append(Val(frozenset(at), v.deps, t, None, v.ck))
        elif k == "c" and isinstance(a[2], str):
            outs.append(NOTNONE)
        elif k == "xm":
            outs.append(Val({U}, v.deps | a[1].deps, None, None, v.ck))
        elif k == "missing":
            continue
        else:
            t = T("elem", v.term) if v.term is not None else None
            outs.append(Val({U}, v.deps, t, None, v.ck))
    r = joinall(outs)
    return r if r is not None else UNKNOWN.add_deps(v.deps)


# ---------------------------------------------------------------------- numpy

NP_VIEW = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d",
           "squeeze", "reshape", "ravel", "transpose", "swapaxes", "moveaxis", "rollaxis", "expand_dims", "flip",
           "fliplr", "flipud", "rot90", "broadcast_to", "diagonal", "real", "imag", "real_if_close", "require",
           "sliding_window_view", "ma.array", "ma.asarray", "ma.masked_array", "ma.masked_invalid", "asmatrix",
           "permute_dims", "matrix_transpose", "split", "array_split", "hsplit", "vsplit", "asfarray"}
NP_INPLACE = {"fill_diagonal": 0, "copyto": 0, "put": 0, "place": 0, "putmask": 0, "put_along_axis": 0,
              "random.shuffle": 0}
NP_REAL = {"abs", "absolute", "angle", "real", "imag", "argsort", "argmax", "argmin", "arange", "linspace", "isnan",
           "isfinite", "isinf", "nonzero", "count_nonzero", "shape", "size", "ndim", "linalg.norm", "linalg.cond",
           "linalg.matrix_rank", "allclose", "array_equal", "logical_and", "logical_or", "logical_not", "any", "all",
           "floor", "ceil", "histogram", "searchsorted", "argpartition", "isclose", "iscomplex", "isreal",
           "iscomplexobj", "finfo", "var", "std", "fabs", "argwhere", "isin", "digitize", "flatnonzero", "hypot",
           "arctan2", "rint"}
NP_ALLOC_REAL = {"zeros", "empty", "ones", "eye", "identity"}
NP_COMPLEX = {"linalg.eig", "linalg.eigvals", "fft.fft", "fft.ifft", "roots", "fft.fft2", "fft.ifft2"}
RNG_SAMPLERS = {"rand", "randn", "randint", "random", "random_sample", "choice", "permutation", "shuffle", "uniform",
                "normal", "standard_normal", "poisson", "binomial", "exponential", "beta", "gamma", "sample",
                "multivariate_normal", "integers", "permuted", "bytes", "laplace", "ranf", "random_integers",
                "standard_cauchy", "standard_t", "dirichlet", "vonmises", "lognormal", "triangular"}


def dtype_of(kwargs, args, pos):
    """'R' (real), 'C' (complex), 'same'/None unknown."""
    d = kwargs.get("dtype")
    if d is None and pos is not None and len(args) > pos:
        d = args[pos]
    if d is None:
        return None, False
    kinds = set()
    for a in d.atoms:
        if a[0] == "x":
            s = a[1].split(".")[-1].lower()
            if "complex" in s or s in ("cdouble", "csingle", "c16", "c8", "clongdouble"):
                kinds.add("C")
            elif s.startswith(("float", "int", "bool", "uint", "double", "single", "half", "longdouble")):
                kinds.add("R")
            else:
                kinds.add(None)
        elif a[0] == "c" and isinstance(a[2], str):
            s = a[2].lower()
            kinds.add("C" if "complex" in s or s.startswith(("c8", "c16")) or s in ("d", "f") and a[2].isupper() else
                      ("R" if s.startswith(("float", "int", "bool", "f", "i", "u", "d")) else None))
        elif a[0] == "c" and a[2] is None:
            kinds.add("none")
        else:
            kinds.add(None)
    if kinds == {"none"}:
        return None, False
    if kinds == {None} and d.ck:
        return d.ck, True                 # the type of another array
    if len(kinds) == 1:
        return kinds.pop(), True
    return None, True


def wide(kwargs):
    """no keyword but a floating point or complex dtype"""
    if set(kwargs) - {"dtype"}:
        return False
    return "dtype" not in kwargs or dtype_of(kwargs, [], None)[0] == "C" or kwargs["dtype"].term is not None and \
        str(kwargs["dtype"].term.args[0]).split(".")[-1] in ("float", "float64")


NP_FLOAT = {"mean", "average", "linalg.pinv", "linalg.inv", "linalg.solve", "linalg.cholesky", "linalg.matrix_power", "exp", "log", "sqrt",
            "sin", "cos", "true_divide", "divide", "gradient", "fft.fft", "median", "std", "var", "linalg.norm"}
NP_SAME = {"roll", "flip", "fliplr", "flipud", "repeat", "tile", "concatenate", "hstack", "vstack", "diff", "append", "take", "sort", "unique",
           "cumsum", "sum", "max", "min", "negative", "conj", "conjugate", "column_stack", "stack"}


def np_call(I, name, args, kwargs, node, st, star, open_kw):
    """name without the numpy. prefix; returns (Val, state) or None if unknown."""
    allv = list(args) + list(kwargs.values()) + [x for x in (star, open_kw) if x is not None]
    deps = deps_of(allv)
    ck = ck_of(args[:3])
    a0 = args[0] if args else None
    out = kwargs.get("out")
    if out is not None and not (one_const(out)[0] and one_const(out)[1] is None):
        obs = out.oids()
        for a in out.atoms:
            if a[0] == "t":
                for x in a[1]:
                    obs += x.oids()
        if obs:
            I.mutate(st, obs, node, how="out=", value=Val({N}, deps, None, None, ck))
            for o in obs:
                taint_buffer(I, st, o, Val({N}, deps, None, None, ck))
            return out.add_deps(deps), st
    if name in ("result_type", "promote_types", "common_type"):
        cks = [dtype_of({"dtype": v}, [], None)[0] if any(a[0] == "x" or a[0] == "c" and isinstance(a[2], str) for a in v.atoms) else v.ck for v in args]
        c = "C" if "C" in cks else "R" if cks and all(k == "R" for k in cks) else \
            "F" if "F" in cks or "I" in cks and any(a[0] == "x" and a[1].split(".")[-1].startswith(("float", "double")) for v in args for a in v.atoms) else None
        return Val({N}, deps, T(name, *[v.term for v in args]) if all(v.term is not None for v in args) else None, None, c), st
    if name in NP_INPLACE and a0 is not None:
        I.mutate(st, a0.oids(), node, how=name, value=args[1] if len(args) > 1 else None)
        if name == "random.shuffle":
            I.event("rng", node, st, src="numpy.random." + name, seeded=False, args=args)
        return NONE, st
    if name.endswith(".at") and a0 is not None:
        I.mutate(st, a0.oids(), node, how=name, value=args[-1])
        return NONE, st
    if name.startswith("random."):
        s = name[7:]
        if s in ("default_rng", "RandomState", "Generator", "SeedSequence"):
            oid = I.alloc(st, "ext", node, extra="rng")
            seed = args[0] if args else kwargs.get("seed", NONE)
            if s in ("default_rng", "Generator") and seed.oids() and any("#rng" in st.heap.get(o, {}) for o in seed.oids()):
                return seed, st
            I.set_field(st, oid, "#rng", seed)
            I.event("rng-new", node, st, src="numpy.random." + s, seed=seed)
            return Val({("o", oid)}, deps | frozenset({"rng"} if one_const(seed) == (True, None) else ())), st
        if s == "seed":
            I.event("rng-seed", node, st, seed=a0)
            return NONE, st
        I.event("rng", node, st, src="numpy.random." + s, seeded=False, args=args)
        return I.fresh(st, node, deps | {"rng"}, None, "R", extra="rng"), st
    if name in ("iscomplexobj", "isrealobj") and a0 is not None and len(args) == 1 and a0.ck == "I":
        return const(name == "isrealobj").add_deps(deps), st
    if name in ("array",):
        cp = kwargs.get("copy")
        dk, has = dtype_of(kwargs, args, 1)
        c = dk if has else (a0.ck if a0 is not None else None)
        if a0 is not None and has and (dk == "R" and a0.ck == "C" or dk == "I" and a0.ck in ("C", "F")):
            I.event("narrow", node, st, how="np.array(dtype)", val=a0, to=dk)
        t = a0.term if a0 is not None and (not has) else (a0.term if a0 is not None and dk == "C" else T("astype", a0.term, str(dk)) if a0 is not None and a0.term is not None else None)
        if t is not None and t.op == "comp" and t.args[0].op == "elem":
            t = t.args[0].args[0]
        if t is None and I.versioned and a0 is not None and not has:
            seq = I.seq_elems(a0, st)
            if seq and all(x.term is not None for x in seq):
                t = T("list", *[x.term for x in seq])
        elemv = None
        if a0 is not None:
            for o in a0.oids():
                if I.objs[o].kind in ("list", "set"):
                    e = st.heap.get(o, {}).get("[]")
                    if e is not None:
                        elemv = join(elemv, e)
        if c is None and elemv is not None:
            c = elemv.ck
        d2 = deps | (elemv.deps if elemv is not None else frozenset())
        if cp is not None and one_const(cp) != (True, True):
            return a0.with_(gate=None), st
        return I.fresh(st, node, d2, t, c, extra="copy"), st
    if name == "copy":
        return I.fresh(st, node, deps, a0.term if a0 else None, a0.ck if a0 else None, extra="copy"), st
    if name == "vander" and a0 is not None:
        return I.fresh(st, node, deps, None if any(v.term is None for v in args) else T("vander", *[v.term for v in args]), a0.ck), st
    if name in ("zeros", "empty", "ones", "full"):
        dk, has = dtype_of(kwargs, args, 1 if name != "full" else 2)
        c = dk if has else ("R" if name != "full" else (args[1].ck if len(args) > 1 else None))
        v = I.fresh(st, node, deps, None, c, extra="alloc")
        if c == "R":
            for o in v.oids():
                I.set_field(st, o, "#real", TRUE)
        t = None
        if all(x.term is not None for x in args) and wide(kwargs):
            t = T(name, *[x.term for x in args])
        return v.with_(term=t if I.versioned else None), st
    if name in ("zeros_like", "empty_like", "ones_like", "full_like"):
        dk, has = dtype_of(kwargs, args, 1)
        c = dk if has else (a0.ck if a0 is not None else None)
        v = I.fresh(st, node, deps, None, c, extra="alloc")
        if c == "R":
            for o in v.oids():
                I.set_field(st, o, "#real", TRUE)
        if I.versioned and a0 is not None and a0.term is not None and wide(kwargs) and len(args) == (2 if name == "full_like" else 1):
            v = v.with_(term=T(name, *[x.term for x in args]))
        return v, st
    if name in ("eye", "identity"):
        v = I.fresh(st, node, deps, T(name, a0.term) if a0 is not None and a0.term is not None and len(args) == 1 else None, "R", extra="alloc")
        dk, has = dtype_of(kwargs, args, None)
        if has and dk == "C":
            v = v.with_(ck="C")
        else:
            for o in v.oids():
                I.set_field(st, o, "#real", TRUE)
        return v, st
    if name in NP_VIEW and a0 is not None:
        cp = kwargs.get("copy")
        if name in ("ma.array", "ma.masked_array") and cp is not None and one_const(cp) == (True, True):
            return I.fresh(st, node, deps, None, a0.ck), st
        t = a0.term
        c = a0.ck
        elem = None
        if name in ("real", "imag"):
            I.event("realpart", node, st, part=name, val=a0)
            t = T(name, t) if t is not None else None
            c = "R"
        elif name == "transpose" and len(args) == 1:
            t = tT(t)
        elif name in ("asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "require"):
            dk, has = dtype_of(kwargs, args, 1)
            if has:
                if dk == "R" and a0.ck == "C" or dk == "I" and a0.ck in ("C", "F"):
                    I.event("narrow", node, st, how="np.asarray(dtype)", val=a0, to=dk)
                c = dk
            # lists are converted, arrays are shared
            els = frozenset()
            atoms = set()
            need_new = False
            for a in a0.atoms:
                if a[0] == "o" and I.objs[a[1]].kind in ("arr", "any"):
                    atoms.add(a)
                    if I.objs[a[1]].kind == "any":
                        need_new = True
                else:
                    need_new = True
            if need_new:
                oid = I.alloc(st, "arr", node, extra="asarray")
                atoms.add(("o", oid))
            atoms.discard(("c", "NoneType", None))
            return Val(frozenset(atoms), deps, t, None, c), st
        else:
            ts = [v.term for v in args[1:]] + [v.term for k2, v in sorted(kwargs.items())]
            t = T(name, t, *ts) if t is not None and all(x is not None for x in ts) else None
        atoms = set(x for x in a0.atoms if x[0] == "o" and I.objs[x[1]].kind in ("arr", "any", "ext"))
        if len(atoms) < len(a0.atoms):
            oid = I.alloc(st, "arr", node, extra="view")
            atoms.add(("o", oid))
        return Val(frozenset(atoms), deps, t, None, c), st
    if name in ("nan_to_num",) and kwargs.get("copy") is not None and one_const(kwargs["copy"]) == (True, False):
        I.mutate(st, a0.oids(), node, how="nan_to_num(copy=False)")
        return a0, st
    from .interp import mk_tuple
    if name == "linalg.svd" and a0 is not None:
        uv = kwargs.get("compute_uv")
        t = a0.term
        s = I.fresh(st, node, deps, T("svd.s", t) if t else None, "R", extra="svds")
        if uv is not None and one_const(uv) == (True, False):
            return s, st
        Uv = I.fresh(st, node, deps, T("svd.U", t) if t else None, floating(a0.ck), extra="svdU")
        V = I.fresh(st, node, deps, T("svd.Vh", t) if t else None, floating(a0.ck), extra="svdV")
        return mk_tuple([Uv, s, V]), st
    if name in ("linalg.eig", "linalg.eigh") and a0 is not None:
        t = a0.term
        c = "C" if name == "linalg.eig" else floating(a0.ck)
        w = I.fresh(st, node, deps, T("eig.w", t) if t else None, "C" if name == "linalg.eig" else "R", extra="eigw")
        v = I.fresh(st, node, deps, T("eig.v", t) if t else None, c, extra="eigv")
        return mk_tuple([w, v]), st
    if name == "linalg.lstsq":
        t = t_of("lstsq", *args[:2]) if len(args) >= 2 else None
        x = I.fresh(st, node, deps, t, ck, extra="lstsq")
        return mk_tuple([x] + [I.fresh(st, node, deps, None, None, extra=f"lstsq{i}") for i in range(3)]), st
    if name == "linalg.qr" and a0 is not None:
        md = kwargs.get("mode", args[1] if len(args) > 1 else None)
        if md is not None and one_const(md)[1] == "r":
            return I.fresh(st, node, deps, None, floating(a0.ck)), st
        t = a0.term
        return mk_tuple([I.fresh(st, node, deps, T("qr.Q", t) if t else None, floating(a0.ck), extra="Q"),
                         I.fresh(st, node, deps, T("qr.R", t) if t else None, floating(a0.ck), extra="R")]), st
    if name == "linalg.slogdet":
        return mk_tuple([I.fresh(st, node, deps), I.fresh(st, node, deps, extra="2")]), st
    if name == "linalg.multi_dot" and a0 is not None:
        seq = I.seq_elems(a0, st)
        t = None
        c = None
        if seq:
            t = tdot(*[x.term for x in seq])
            c = ck_of(seq)
            I.event("dot", node, st, factors=seq)
            deps = deps | deps_of(seq)
        return I.fresh(st, node, deps, t, c), st
    if name in ("dot", "matmul") and len(args) >= 2:
        I.event("dot", node, st, factors=args[:2])
        return I.fresh(st, node, deps, tdot(args[0].term, args[1].term), ck), st
    if name in ("vdot", "inner", "outer", "kron", "tensordot", "einsum"):
        t = None if any(v.term is None for v in args) else T(name, *[v.term for v in args])
        return I.fresh(st, node, deps, t, ck), st
    if name in ("conj", "conjugate") and a0 is not None:
        return I.fresh(st, node, deps, tconj(a0.term), a0.ck), st
    if name in ("multiply", "add", "subtract", "divide", "true_divide", "power", "float_power", "floor_divide", "negative", "reciprocal",
                "square", "positive", "mod", "remainder"):
        if star is not None:
            return I.fresh(st, node, deps, None, ck), st
        op = {"multiply": "Mult", "add": "Add", "subtract": "Sub", "divide": "Div", "true_divide": "Div",
              "power": "Pow", "float_power": "Pow", "floor_divide": "FloorDiv", "mod": "Mod", "remainder": "Mod"}.get(name)
        if len(args) > 2 and op and args[2].oids():
            I.mutate(st, args[2].oids(), node, how="out", value=Val({N}, deps, None, None, ck))
            return args[2], st
        if op and len(args) >= 2:
            r = I.binop(op, args[0], args[1], node, st)
            return r, st
        if a0 is not None:
            t = {"negative": tneg, "reciprocal": trecip, "square": lambda x: T("Pow", x, T("c", 2)) if x else None,
                 "positive": lambda x: x}[name](a0.term)
            return I.fresh(st, node, deps, t, a0.ck), st
    if name == "diag" and a0 is not None and len(args) == 1:
        t = T("diag", a0.term) if a0.term is not None else None
        if a0.term is not None and a0.term.op == "diag":
            t = a0.term.args[0]
        return I.fresh(st, node, deps, t, a0.ck), st
    if name in ("hstack", "vstack", "concatenate", "stack", "dstack", "column_stack", "append", "row_stack", "insert", "block"):
        elems = []
        seq = I.seq_elems(a0, st) if a0 is not None else None
        if name in ("append", "insert"):
            elems = args[:3]
        elif seq is not None:
            elems = seq
        elif a0 is not None:
            e = I.element(a0, st, node)
            elems = [e]
        t = None
        if elems and all(x.term is not None for x in elems) and (seq is not None or name == "append"):
            ax = kwargs.get("axis") or (args[1] if len(args) > 1 and name in ("concatenate", "stack") else None)
            parts = [x.term for x in elems]
            if len(parts) == 1 and I.distinct:
                parts = [T("tuple", *parts)]
            t = T(name, *parts, *([ax.term] if ax is not None and ax.term is not None else []))
        elif elems and all(x.term is not None for x in elems):
            ax = kwargs.get("axis") or (args[1] if len(args) > 1 else None)
            if ax is None or ax.term is not None:
                t = T(name + "*", *[x.term for x in elems], *([ax.term] if ax is not None else []))
        return I.fresh(st, node, deps | deps_of(elems), t, "I" if elems and all(x.ck == "I" for x in elems) else ck_of(elems)), st
    if name == "where":
        if len(args) == 1:
            r = I.fresh(st, node, deps, T("where", a0.term) if a0.term is not None else None, "R", extra="mask")
            return mk_tuple([r]), st
        t = T("where3", *[x.term for x in args]) if I.versioned and len(args) == 3 and all(x.term is not None for x in args) else None
        return I.fresh(st, node, deps, t, ck_of(args[1:3])), st
    if name in ("meshgrid", "histogram", "unique", "linalg.polyfit", "broadcast_arrays", "ix_", "indices"):
        oid = I.alloc(st, "arr", node, extra=name)
        return Val({("o", oid)}, deps, None, None, ck), st
    if name in ("shape", "ndim", "size"):
        t = T(name, a0.term) if a0 is not None and a0.term is not None else None
        return Val({N}, deps, t, None, "R"), st
    if name == "apply_along_axis":
        I.event("call-unknown", node, st, args=args)
        r = I.fresh(st, node, deps, None, None)
        return r, st
    if name in ("vectorize", "frompyfunc"):
        return UNKNOWN, st
    if name in ("seterr", "errstate", "set_printoptions"):
        I.event("global-config", node, st, what="numpy." + name)
        return UNKNOWN, st
    if name in ("abs", "absolute") and a0 is not None:
        return I.fresh(st, node, deps, T("abs", a0.term) if a0.term is not None else None, "R"), st
    # generic: fresh result
    t = None
    if star is None and open_kw is None and all(v.term is not None for v in allv):
        t = T(name, *[v.term for v in args], *[T("kw", k2, v.term) for k2, v in sorted(kwargs.items())])
    extra = "sort" if name in ("argsort", "argpartition", "nonzero", "flatnonzero", "argwhere", "logical_and",
                               "logical_or", "logical_not", "isnan", "isfinite", "isin", "random.choice") else name
    c = "R" if name in NP_REAL else ("C" if name in NP_COMPLEX else ck)
    if c is None and a0 is not None and a0.ck == "I":
        c = "F" if name in NP_FLOAT else "I" if name in NP_SAME and all(v.ck == "I" for v in args[:1]) else None
    dk, has = dtype_of(kwargs, args, None)
    if has and dk:
        c = dk
    if name in ("int", "float", "complex", "bool_", "float64", "complex128", "int64"):
        pass
    return I.fresh(st, node, deps, t, c, extra=extra), st


# ---------------------------------------------------------------------- copies

def deep_clone(I, v, st, node, memo=None, depth=0):
    memo = {} if memo is None else memo
    atoms = set()
    for a in v.atoms:
        if a[0] == "o":
            atoms.add(("o", clone_obj(I, a[1], st, node, memo, depth)))
        elif a[0] == "t":
            atoms.add(("t", tuple(deep_clone(I, x, st, node, memo, depth) for x in a[1])))
        elif a[0] == "tn":
            atoms.add(("tn", a[1], tuple(deep_clone(I, x, st, node, memo, depth) for x in a[2])))
        elif a[0] == "b" and a[1][0] == "o":
            atoms.add(("b", ("o", clone_obj(I, a[1][1], st, node, memo, depth)), a[2]))
        else:
            atoms.add(a)
    gate = None
    if v.gate is not None and depth < 30:
        gate = (v.gate[0], deep_clone(I, v.gate[1], st, node, memo, depth + 1), deep_clone(I, v.gate[2], st, node, memo, depth + 1))
    return Val(frozenset(atoms), v.deps, v.term, gate, v.ck)


def clone_obj(I, oid, st, node, memo, depth):
    if oid in memo:
        return memo[oid]
    o = I.objs[oid]
    if o.kind == "inst" and o.cls is not None:
        r = clone_hooks(I, oid, o, st, node, memo, depth)
        if r is not None:
            return r
    new = I.alloc(st, o.kind, node, o.cls, extra="~" + str(zlib.crc32(oid.encode()) % 10 ** 8))
    memo[oid] = new
    if depth > 30:
        return new
    for k, x in list(st.heap.get(oid, {}).items()):
        if k == "#dictof":
            continue
        y = deep_clone(I, x, st, node, memo, depth + 1)
        I.set_field(st, new, k, y)
    if o.caller and o.kind == "inst":
        I.set_field(st, new, "#opaque", TRUE)
    return new


def replace_state(st, new):
    st.heap, st.frames, st.facts, st.pc, st.owned = new.heap, new.frames, new.facts, new.pc, new.owned


def clone_hooks(I, oid, o, st, node, memo, depth):
    """copy / pickle customisation defined by a class of the package"""
    from .loader import FuncInfo
    v = Val({("o", oid)})
    dc = o.cls.find("__deepcopy__")
    if isinstance(dc, FuncInfo) and not memo.get("#pickle"):
        r, s2 = I.call_fn(dc, [v, UNKNOWN], {}, node, st)
        replace_state(st, s2)
        ids = r.oids()
        memo[oid] = ids[0] if ids else oid
        return memo[oid]
    red = o.cls.find("__reduce__") or o.cls.find("__reduce_ex__")
    if isinstance(red, FuncInfo):
        r, s2 = I.call_fn(red, [v] + ([UNKNOWN] if red.name == "__reduce_ex__" else []), {}, node, st)
        replace_state(st, s2)
        tup = next((a[1] for a in r.atoms if a[0] == "t"), None)
        if tup and len(tup) >= 2:
            cargs = next((list(a[1]) for a in tup[1].atoms if a[0] == "t"), [])
            n, s2 = I.call_val(tup[0], [deep_clone(I, x, st, node, memo, depth + 1) for x in cargs], {}, node, st)
            replace_state(st, s2)
            ids = n.oids()
            if ids:
                memo[oid] = ids[0]
                if len(tup) > 2:
                    restore(I, o, ids[0], deep_clone(I, tup[2], st, node, memo, depth + 1), st, node)
                return ids[0]
        return None
    gs, ss = o.cls.find("__getstate__"), o.cls.find("__setstate__")
    if not isinstance(gs, FuncInfo) and not isinstance(ss, FuncInfo):
        return None
    if isinstance(gs, FuncInfo):
        state, s2 = I.call_fn(gs, [v], {}, node, st)
        replace_state(st, s2)
    else:
        state, s2 = I.load_attr(v, "__dict__", node, st)
        replace_state(st, s2)
        for d in state.oids():
            st.heap[d] = {k: x for k, x in st.heap[d].items() if k != "#dictof"}
    new = I.alloc(st, o.kind, node, o.cls, extra="~" + str(zlib.crc32(oid.encode()) % 10 ** 8))
    memo[oid] = new
    restore(I, o, new, deep_clone(I, state, st, node, memo, depth + 1), st, node)
    return new


def restore(I, o, new, state, st, node):
    from .loader import FuncInfo
    ss = o.cls.find("__setstate__")
    if isinstance(ss, FuncInfo):
        _, s2 = I.call_fn(ss, [Val({("o", new)}), state], {}, node, st)
        replace_state(st, s2)
        return
    for d in state.oids():
        for k, x in st.heap.get(d, {}).items():
            if k.startswith("k:"):
                I.set_field(st, new, ast.literal_eval(k[2:]), x)


def shallow_clone(I, v, st, node):
    atoms = set()
    for a in v.atoms:
        if a[0] == "o":
            o = I.objs[a[1]]
            new = I.alloc(st, o.kind, node, o.cls, extra="~s" + str(zlib.crc32(a[1].encode()) % 10 ** 8))
            for k, x in list(st.heap.get(a[1], {}).items()):
                if k != "#dictof":
                    I.set_field(st, new, k, x)
            atoms.add(("o", new))
        else:
            atoms.add(a)
    return v.with_(atoms=frozenset(atoms), gate=None)


# ---------------------------------------------------------------------- external calls

EXC_NAMES = {"ValueError", "TypeError", "RuntimeError", "KeyError", "AttributeError", "NotImplementedError",
             "Exception", "IndexError", "DeprecationWarning", "RuntimeWarning", "UserWarning", "AssertionError",
             "LinAlgError", "StopIteration", "OSError", "ImportError"}


def ext_call(I, dotted, args, kwargs, node, st, star, open_kw):
    I.calls.add(("ext", dotted))
    if dotted in I.hooks:
        I.event("ext", node, st, name=dotted, args=args, kwargs=kwargs)
        r = I.hooks[dotted](I, args, kwargs, node, st)
        if r is not None:
            return r
    if dotted.startswith("numpy."):
        I.ext_raise = True
        name = dotted[6:]
        if name.startswith("lib.stride_tricks."):
            name = name.split(".")[-1]
        I.event("ext", node, st, name=dotted, args=args, kwargs=kwargs)
        return np_call(I, name, args, kwargs, node, st, star, open_kw)
    if dotted.startswith("builtins."):
        return builtin_call(I, dotted[9:], args, kwargs, node, st, star, open_kw)
    allv = list(args) + list(kwargs.values()) + [x for x in (star, open_kw) if x is not None]
    deps = deps_of(allv)
    a0 = args[0] if args else None
    from .interp import mk_tuple
    if dotted in ("copy.deepcopy",):
        I.event("deepcopy", node, st, val=a0)
        return deep_clone(I, a0, st, node), st
    if dotted in ("copy.copy",):
        I.event("shallowcopy", node, st, val=a0)
        return shallow_clone(I, a0, st, node), st
    if dotted == "functools.partial":
        f = {"#fn": args[0]}
        for i, v in enumerate(args[1:]):
            f[f"[{i}]"] = v
        for k2, v in kwargs.items():
            f[f"k:{k2!r}"] = v
        oid = I.alloc(st, "partial", node, fields=f)
        return Val({("o", oid)}, deps), st
    if dotted == "collections.namedtuple":
        names = None
        if len(args) > 1:
            seq = I.seq_elems(args[1], st)
            ok, c = one_const(args[1])
            if seq is not None:
                cs = [one_const(x) for x in seq]
                if all(x[0] for x in cs):
                    names = tuple(x[1] for x in cs)
            elif ok and isinstance(c, str):
                names = tuple(c.replace(",", " ").split())
        if names is None:
            return UNKNOWN, st
        oid = I.alloc(st, "nt", node, fields={"#names": const(names)})
        return Val({("o", oid)}), st
    if dotted in ("types.MappingProxyType",):
        return a0, st
    if dotted in ("collections.OrderedDict", "collections.defaultdict"):
        return builtin_call(I, "dict", args if dotted.endswith("OrderedDict") else args[1:], kwargs, node, st, star, open_kw)
    if dotted in ("inspect.isroutine", "inspect.isfunction", "inspect.ismethod"):
        rs = set()
        for a in a0.atoms:
            if a[0] in ("f",):
                rs.add(dotted != "inspect.ismethod")
            elif a[0] == "b":
                rs.add(dotted != "inspect.isfunction")
            elif a[0] in ("c", "t", "tn", "k") or (a[0] == "o" and I.objs[a[1]].kind in ("arr", "list", "dict", "inst", "set", "partial")):
                rs.add(False)
            else:
                rs.add(None)
        if len(rs) == 1 and None not in rs:
            return const(rs.pop()).add_deps(deps), st
        return Val({N}, deps, T(dotted, a0.term) if a0.term is not None else None, None, "R"), st
    if dotted in ("pickle.dump", "pickle.dumps"):
        I.event("pickle-dump", node, st, val=a0, to=args[1] if len(args) > 1 else kwargs.get("file"))
        return UNKNOWN, st
    if dotted in ("pickle.load", "pickle.loads"):
        oid = I.alloc(st, "any", node, extra="unpickled")
        I.event("pickle-load", node, st, src=a0, obj=oid)
        return Val({("o", oid)}, deps), st
    if dotted.startswith("random."):
        if dotted == "random.seed":
            I.event("rng-seed", node, st, seed=a0)
            return NONE, st
        I.event("rng", node, st, src=dotted, seeded=False, args=args)
        if dotted.endswith(".shuffle") and a0 is not None:
            I.mutate(st, a0.oids(), node, how=dotted)
        return Val({N}, deps | {"rng"}), st
    if dotted in ("scipy.sparse.random", "scipy.sparse.rand", "scipy.sparse.random_array") or dotted.endswith(".rvs"):
        I.event("rng", node, st, src=dotted, seeded=False, args=args)
        return I.fresh(st, node, deps | {"rng"}, None, "R"), st
    if dotted in ("secrets.token_bytes", "os.urandom", "time.time", "uuid.uuid4", "time.perf_counter", "datetime.datetime.now"):
        I.event("rng", node, st, src=dotted, seeded=False, args=args)
        return Val({N}, frozenset({"rng"})), st
    if dotted in ("warnings.warn", "logging.info", "logging.warning", "logging.debug", "logging.basicConfig"):
        return NONE, st
    if dotted.split(".")[-1] in EXC_NAMES:
        return Val({("x", dotted)}), st
    if dotted.startswith("typing"):
        return UNKNOWN, st
    I.ext_raise = True
    for kw in ("overwrite_a", "overwrite_b", "overwrite_x"):
        v = kwargs.get(kw)
        if v is not None and one_const(v) != (True, False) and dotted.startswith("scipy."):
            tgt = args[1] if kw == "overwrite_b" and len(args) > 1 else a0
            if tgt is not None:
                I.mutate(st, tgt.oids(), node, how=kw)
    I.event("ext", node, st, name=dotted, args=args, kwargs=kwargs)
    last = dotted.split(".")[-1]
    if dotted.startswith("scipy."):
        if dotted.startswith(("scipy.linalg.", "scipy.fft.", "scipy.fftpack.")):
            ck = ck_of(args[:2])
            t0 = a0.term if a0 is not None else None
            if last == "eig":
                nl = one_const(kwargs.get("left", args[2] if len(args) > 2 else FALSE))
                nr = one_const(kwargs.get("right", args[3] if len(args) > 3 else TRUE))
                vals = [I.fresh(st, node, deps, T("eig.w", t0) if t0 else None, "C", extra="w")]
                if nl == (True, True):
                    vals.append(I.fresh(st, node, deps, T("eig.vl", t0) if t0 else None, "C", extra="vl"))
                if nr == (True, True):
                    vals.append(I.fresh(st, node, deps, T("eig.v", t0) if t0 else None, "C", extra="vr"))
                return (mk_tuple(vals) if len(vals) > 1 else vals[0]), st
            if last == "svd":
                return np_call(I, "linalg.svd", args, kwargs, node, st, star, open_kw)
            if last in ("qr", "rq"):
                piv = kwargs.get("pivoting")
                md = kwargs.get("mode")
                names = ["Q", "R"] + (["P"] if piv is not None and one_const(piv) != (True, False) else [])
                if md is not None and one_const(md)[1] == "r":
                    names = names[1:]
                vals = [I.fresh(st, node, deps, T(last + "." + n, t0) if t0 else None, "R" if n == "P" else ck, extra="sort" if n == "P" else n) for n in names]
                return (mk_tuple(vals) if len(vals) > 1 else vals[0]), st
            if last in ("fft", "ifft", "fft2", "ifft2"):
                t = None if any(v.term is None for v in allv) else T(last, *[v.term for v in allv])
                return I.fresh(st, node, deps, t, "C"), st
            t = None
            if star is None and open_kw is None and all(v.term is not None for v in allv):
                t = T("linalg." + last, *[v.term for v in args], *[T("kw", k2, v.term) for k2, v in sorted(kwargs.items())])
            return I.fresh(st, node, deps, t, ck), st
        if dotted.startswith("scipy.sparse"):
            return I.fresh(st, node, deps, None, ck_of(args[:2])), st
        # user callbacks handed to scipy are invoked
        for v in args + list(kwargs.values()):
            for a in v.atoms:
                if a[0] in ("f", "b"):
                    invoke_callback(I, v, args, kwargs, node, st)
                    break
        oid = I.alloc(st, "ext", node, extra=last)
        return Val({("o", oid)}, deps, None, None, ck_of(args)), st
    if dotted in ("xarray.Dataset",):
        return xr_dataset(I, args, kwargs, node, st)
    if "pairwise_kernels" in dotted or dotted.endswith(("silhouette_score", "calinski_harabasz_score")):
        t = None
        if I.versioned and last == "pairwise_kernels" and len(args) >= 2:
            if args[0].term is not None and args[1].term is not None:
                t = T("fn:kernel", args[0].term, args[1].term)
        elif star is None and open_kw is None and all(v.term is not None for v in allv):
            t = T(last, *[v.term for v in args], *[T("kw", k2, v.term) for k2, v in sorted(kwargs.items())])
        return I.fresh(st, node, deps, t, ck_of(args[:2])), st
    if dotted.startswith("sklearn.cluster"):
        rs = kwargs.get("random_state")
        I.event("cluster-new", node, st, seed=rs, kwargs=kwargs, open=open_kw is not None)
        oid = I.alloc(st, "ext", node, extra=last)
        return Val({("o", oid)}, deps), st
    if dotted.startswith(("matplotlib", "mpl_toolkits")):
        I.event("plot", node, st, name=dotted)
        oid = I.alloc(st, "ext", node, extra=last)
        return Val({("o", oid)}, frozenset()), st
    oid = I.alloc(st, "ext", node, extra=last)
    return Val({("o", oid)}, deps), st


def invoke_callback(I, f, args, kwargs, node, st):
    """A package function handed to an external routine runs with unknown arguments."""
    for a in f.atoms:
        if a[0] == "f":
            fn, extra = a[1], []
        elif a[0] == "b":
            fn, extra = a[2], [Val({a[1]})]
        else:
            continue
        ns = fn.params()[0]
        vals = extra + [Val({N}, deps_of(args)) for _ in ns[len(extra):]]
        from .interp import Stop
        try:
            I.sinks.append([])
            I.call_fn(fn, vals[:len(ns)], {}, node, st.copy(), closure=a[2] if a[0] == "f" else None)
        except Stop:
            pass
        finally:
            I.sinks.pop()


def xr_dataset(I, args, kwargs, node, st):
    oid = I.alloc(st, "ext", node, extra="xrds")
    f = {"#xr": TRUE}
    dv = kwargs.get("data_vars", args[0] if args else None)
    co = kwargs.get("coords", args[1] if len(args) > 1 else None)
    at = kwargs.get("attrs", args[2] if len(args) > 2 else None)
    deps = deps_of(args + list(kwargs.values()))
    for src in (dv, co):
        if src is None:
            continue
        for o in src.oids():
            for k2, v in st.heap.get(o, {}).items():
                if k2.startswith("k:'"):
                    nm = k2[3:-1]
                    val = v
                    for a in v.atoms:
                        if a[0] == "t" and len(a[1]) >= 2:
                            val = a[1][1]
                    f[nm] = val
                    I.event("xr-store", node, st, key=nm, val=val, where="vars", raw=v)
    if at is not None:
        f["attrs"] = at
    for k2, v in f.items():
        I.set_field(st, oid, k2, v)
    return Val({("o", oid)}, deps), st


def xr_attr(I, a, name, node, st):
    return UNKNOWN, st


# ---------------------------------------------------------------------- builtins

class _NoPy(Exception):
    pass


def pyval(I, st, v, depth=0):
    """The exact Python value of constants and of containers whose elements are all known."""
    if len(v.atoms) != 1 or depth > 4:
        raise _NoPy
    a = next(iter(v.atoms))
    if a[0] == "c":
        return a[2]
    if a[0] in ("t", "tn"):
        return tuple(pyval(I, st, x, depth + 1) for x in a[-1])
    if a[0] == "o" and I.objs[a[1]].kind in ("list", "set") and a[1] not in I.multi:
        h = st.heap.get(a[1], {})
        ok, n = one_const(h["#len"]) if "#len" in h else (False, None)
        if ok and all(f"[{i}]" in h for i in range(n)):
            xs = [pyval(I, st, h[f"[{i}]"], depth + 1) for i in range(n)]
            try:
                return set(xs) if I.objs[a[1]].kind == "set" else xs
            except TypeError:
                raise _NoPy
    raise _NoPy


def from_py(I, st, x, node, deps):
    from .interp import mk_tuple
    if isinstance(x, tuple):
        return mk_tuple([from_py(I, st, y, node, deps) for y in x])
    if isinstance(x, (list, set, frozenset)):
        xs = list(x) if isinstance(x, list) else sorted(x, key=repr)
        return I.mk_list([from_py(I, st, y, node, deps) for y in xs], node, st, True, "list" if isinstance(x, list) else "set").add_deps(deps)
    return const(x).add_deps(deps)


SETOPS = {"difference", "issubset", "issuperset", "union", "intersection", "isdisjoint", "symmetric_difference", "count", "index"}


def builtin_call(I, name, args, kwargs, node, st, star, open_kw):
    from .interp import Stop, mk_tuple
    if name in ("all", "any") and len(args) == 1 and not kwargs and star is None:
        seq = I.seq_elems(args[0], st)
        if seq is not None:
            ts = [I.truth(x, st) for x in seq]
            d = deps_of(args) | deps_of(seq)
            if name == "all" and (False in ts or None not in ts):
                return const(False not in ts).add_deps(d), st
            if name == "any" and (True in ts or None not in ts):
                return const(True in ts).add_deps(d), st
    if name in ("len", "set", "frozenset", "sorted", "sum", "min", "max") and len(args) == 1 and not kwargs and star is None:
        try:
            x = pyval(I, st, args[0])
            if isinstance(x, (set, list, tuple)) and (name != "len" or isinstance(x, set)):
                import builtins as B
                return from_py(I, st, getattr(B, name)(x), node, deps_of(args)), st
        except _NoPy:
            pass
        except Exception:
            pass
    allv = list(args) + list(kwargs.values()) + [x for x in (star, open_kw) if x is not None]
    deps = deps_of(allv)
    a0 = args[0] if args else None
    if name == "len":
        seq = I.seq_elems(a0, st) if a0 is not None else None
        if seq is not None:
            return const(len(seq)).add_deps(deps), st
        ok, c = one_const(a0)
        if ok and isinstance(c, str):
            return const(len(c)), st
        if ok and c is None:
            I.do_raise(st, "TypeError", node, explicit=False)
            raise Stop()
        for a in a0.atoms:
            if a[0] == "o" and I.objs[a[1]].kind == "inst" and I.objs[a[1]].cls is not None and len(a0.atoms) == 1:
                m = I.objs[a[1]].cls.find("__len__")
                if isinstance(m, FuncInfo):
                    return I.call_fn(m, [Val({a})], {}, node, st)
                h = st.heap.get(a[1], {})
                if "dict" in I.objs[a[1]].cls.all_ext() and not h.get("#open"):
                    return const(len([k for k in h if k.startswith("k:")])), st
            if a[0] == "o" and I.objs[a[1]].kind == "dict" and len(a0.atoms) == 1:
                h = st.heap.get(a[1], {})
                if not h.get("#open") and not I.objs[a[1]].caller and not any(MISSING in v.atoms for v in h.values()):
                    return const(len([k for k in h if k.startswith("k:")])), st
        return Val({N}, deps, T("len", a0.term) if a0.term is not None else None, None, "R"), st
    if name == "range":
        cs = [one_const(v) for v in args]
        if I.sizes is not None:
            cs = [c if c[0] or v.term is None else fixed_int(I, v.term) for c, v in zip(cs, args)]
        if args and all(c[0] and isinstance(c[1], int) for c in cs) and star is None:
            r = range(*[c[1] for c in cs])
            if len(r) <= 6:
                return I.mk_list([const(i) for i in r], node, st).add_deps(deps), st
        t = None if any(v.term is None for v in args) else T("range", *[v.term for v in args])
        oid = I.alloc(st, "list", node, extra="range", fields={"[]": Val({N}, deps, T("loopvar", t) if t is not None else None, None, "R")})
        return Val({("o", oid)}, deps, t), st
    if name == "enumerate":
        els = I.iter_vals(a0, st, node)
        if isinstance(els, list):
            return I.mk_list([mk_tuple([const(i), e]) for i, e in enumerate(els)], node, st).add_deps(deps), st
        idx = Val({N}, deps, T("eidx", a0.term) if a0.term is not None else None, None, "R")
        oid = I.alloc(st, "list", node, extra="enum", fields={"[]": mk_tuple([idx, els])})
        return Val({("o", oid)}, deps), st
    if name == "zip":
        if star is not None and not args and I.order is not None:
            e = I.iter_vals(star, st, node)
            if isinstance(e, list) and e:
                els = [I.iter_vals(v, st, node) for v in e]
                if all(isinstance(x, list) for x in els):
                    return I.mk_list([mk_tuple(list(t)) for t in zip(*els)], node, st).add_deps(deps), st
        if star is not None and not args:
            comps = None
            for a in star.atoms:
                if a[0] in ("t", "tn"):
                    comps = a[-1]
            if comps is not None:
                vals = []
                for i, c in enumerate(comps):
                    oid = I.alloc(st, "list", node, extra=f"unzip{i}", fields={"[]": c})
                    vals.append(Val({("o", oid)}, c.deps | star.deps, T("unzip", star.term, i) if star.term is not None else None, None, c.ck))
                return mk_tuple(vals), st
            oid = I.alloc(st, "list", node, extra="unzip", fields={"[]": Val({("o", I.alloc(st, "list", node, extra="unzipi", fields={"[]": star}))}, star.deps)})
            return Val({("o", oid)}, deps), st
        els = [I.iter_vals(v, st, node) for v in args]
        if els and all(isinstance(e, list) for e in els) and star is None:
            return I.mk_list([mk_tuple(list(t)) for t in zip(*els)], node, st).add_deps(deps), st
        es = [joinall(e) or UNKNOWN if isinstance(e, list) else e for e in els]
        oid = I.alloc(st, "list", node, extra="zip", fields={"[]": mk_tuple(es)})
        t = None if any(v.term is None for v in args) else T("zip", *[v.term for v in args])
        return Val({("o", oid)}, deps, t), st
    if name == "map":
        els = [I.iter_vals(v, st, node) for v in args[1:]]
        if els and all(isinstance(e, list) for e in els) and len(els[0]) <= 8:
            outs = []
            for tup in zip(*els):
                r, st = I.call_val(args[0], list(tup), {}, node, st)
                outs.append(r)
            return I.mk_list(outs, node, st).add_deps(deps), st
        es = [joinall(e) or UNKNOWN if isinstance(e, list) else e for e in els]
        r, st = I.call_val(args[0], es, {}, node, st)
        oid = I.alloc(st, "list", node, extra="map", fields={"[]": r})
        return Val({("o", oid)}, deps | r.deps, T("comp", r.term) if r.term is not None else None, None, r.ck), st
    if name == "filter":
        e = I.element(args[1], st, node)
        if not (one_const(args[0]) == (True, None)):
            r, st = I.call_val(args[0], [e], {}, node, st)
            deps = deps | r.deps
        oid = I.alloc(st, "list", node, extra="filter", fields={"[]": e})
        return Val({("o", oid)}, deps), st
    if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
        if a0 is None:
            return I.mk_list([], node, st, True, "list" if name == "list" else ("set" if name in ("set", "frozenset") else "list")) if name != "tuple" else mk_tuple([]), st
        key = kwargs.get("key")
        e = I.iter_vals(a0, st, node)
        if name == "sorted" and I.order is not None and isinstance(e, list):
            r, st = sort_known(I, e, key, kwargs.get("reverse"), node, st)
            if r is not None:
                return I.mk_list(r, node, st).add_deps(deps), st
        if key is not None and not one_const(key) == (True, None):
            ke = joinall(e) if isinstance(e, list) else e
            r, st = I.call_val(key, [ke or UNKNOWN], {}, node, st)
            deps = deps | r.deps
        if isinstance(e, list) and name in ("list", "tuple") :
            if name == "tuple":
                return mk_tuple(e), st
            return I.mk_list(e, node, st).add_deps(deps), st
        if isinstance(e, list) and name == "sorted":
            cs = [one_const(x) for x in e]
            if all(c[0] for c in cs):
                try:
                    return I.mk_list([const(x) for x in sorted(c[1] for c in cs)], node, st), st
                except TypeError:
                    pass
        if isinstance(e, list):
            known = e
            e = joinall(e) or UNKNOWN
            f = {"[]": e}
            if name in ("sorted", "reversed"):
                f["#len"] = const(len(known))
                for i in range(len(known)):
                    f[f"[{i}]"] = e
            oid = I.alloc(st, "set" if name in ("set", "frozenset") else "list", node, extra=name, fields=f)
            return Val({("o", oid)}, deps, None, None, e.ck), st
        if name in ("list", "iter", "tuple"):
            t = a0.term
        else:
            t = T(name, a0.term) if a0.term is not None else None
        if name in ("sorted", "reversed"):
            e = relabel_elem(e, T("elem", t) if t is not None else None)
        oid = I.alloc(st, "set" if name in ("set", "frozenset") else "list", node, extra=name, fields={"[]": e})
        return Val({("o", oid)}, deps, t, None, a0.ck), st
    if name == "next":
        e = I.element(a0, st, node)
        return e.add_deps(deps), st
    if name == "dict":
        f = {}
        exact = True
        if a0 is not None:
            for a in a0.atoms:
                if a[0] == "o":
                    o = I.objs[a[1]]
                    h = st.heap.get(a[1], {})
                    if o.kind == "dict" or (o.kind == "inst" and o.cls is not None and "dict" in o.cls.all_ext()):
                        for k2, v in h.items():
                            if k2 == "#dictof":
                                continue
                            f[k2] = join(f.get(k2), v) if k2 in f else v
                        if o.caller:
                            exact = False
                    else:
                        exact = False
                        e = I.element(Val({a}, a0.deps), st, node)
                        for x in e.atoms:
                            if x[0] == "t" and len(x[1]) == 2:
                                f["[]"] = join(f.get("[]"), x[1][1])
                elif a[0] != "c":
                    exact = False
        for k2, v in kwargs.items():
            f[f"k:{k2!r}"] = v
        if open_kw is not None:
            exact = False
            f["[]"] = join(f.get("[]"), open_kw)
        if not exact:
            f["#open"] = TRUE
            f.setdefault("[]", UNKNOWN.add_deps(deps))
        oid = I.alloc(st, "dict", node, extra="dict", fields=f)
        return Val({("o", oid)}, deps), st
    if name == "isinstance":
        names = type_names(node.args[1]) if isinstance(node, ast.Call) and len(node.args) > 1 else None
        if names is None and len(args) > 1:
            names = []
            for a in args[1].atoms:
                if a[0] == "k":
                    names.append(a[1].name)
                elif a[0] == "x":
                    names.append(a[1].split(".")[-1])
                else:
                    names = None
                    break
        if names:
            # resolve aliases of package classes
            rs = {atom_isinstance(I, a, names) for a in a0.atoms if a[0] != "missing"}
            if len(rs) == 1 and None not in rs:
                return const(rs.pop()).add_deps(deps), st
            return Val({N}, deps, T("isinstance", a0.term, ",".join(sorted(names))) if a0.term is not None else None, None, "R"), st
        return Val({N}, deps, None, None, "R"), st
    if name == "issubclass":
        return Val({N}, deps, None, None, "R"), st
    if name == "hasattr":
        ok, nm = one_const(args[1])
        if not ok:
            return Val({N}, deps), st
        rs = set()
        for a in a0.atoms:
            if a[0] == "c":
                rs.add(hasattr(a[2], nm))
                continue
            if a[0] in ("t", "tn"):
                rs.add(hasattr((), nm))
                continue
            if a[0] == "o" and I.objs[a[1]].kind == "inst" and I.objs[a[1]].cls is not None:
                o = I.objs[a[1]]
                m = o.cls.find(nm)
                f = I.get_field(st, a[1], nm)
                if isinstance(o.cls.find("__getattribute__"), FuncInfo) or o.caller or st.heap.get(a[1], {}).get("#opaque"):
                    rs.add(None)
                elif isinstance(m, FuncInfo) and m.kind == "property":
                    # the property may raise
                    I.sinks.append([])
                    try:
                        n0 = len(I.events)
                        I.quiet += 1
                        try:
                            I.call_fn(m, [Val({a})], {}, node, st.copy())
                            rs.add(None if any(r[0] == "AttributeError" for r in I.sinks[-1]) else True)
                        except Stop:
                            rs.add(False)
                        finally:
                            I.quiet -= 1
                            del I.events[n0:]
                    finally:
                        I.sinks.pop()
                elif m is not None:
                    rs.add(True)
                elif f is None:
                    rs.add(False)
                elif MISSING in f.atoms:
                    rs.add(None if len(f.atoms) > 1 else False)
                else:
                    rs.add(True)
            elif a[0] == "o" and I.objs[a[1]].kind == "arr" and nm in ("ndim", "shape", "dtype", "T"):
                rs.add(True)
            elif a[0] == "o" and I.objs[a[1]].kind in ("list", "dict", "set") and nm in ("ndim", "shape", "dtype", "T"):
                rs.add(False)
            elif a[0] == "x" and a[1] == "numpy":
                rs.add(None)
            elif a[0] == "c":
                rs.add(hasattr(a[2], nm))
            else:
                rs.add(None)
        if len(rs) == 1 and None not in rs:
            return const(rs.pop()).add_deps(deps), st
        return Val({N}, deps, T("hasattr", a0.term, nm) if a0.term is not None else None, None, "R"), st
    if name == "getattr":
        ok, nm = one_const(args[1])
        if not ok:
            return UNKNOWN.add_deps(deps), st
        if len(args) > 2:
            I.sinks.append([])
            base = st.copy()
            try:
                v, st2 = I.load_attr(a0, nm, node, st)
            except Stop:
                v, st2 = None, None
            r = I.sinks.pop()
            miss = [x for x in r if x[0] == "AttributeError"]
            if I.sinks:
                I.sinks[-1].extend(x for x in r if x[0] != "AttributeError")
            if v is None and not miss:
                raise Stop()
            if v is None:
                return args[2], base
            if miss:
                return join(v, args[2]), I.join2(st2, base)
            return v, st2
        return I.load_attr(a0, nm, node, st)
    if name == "setattr":
        ok, nm = one_const(args[1])
        if ok:
            st = I.store_attr(a0, nm, args[2], node, st)
        else:
            for o in a0.oids():
                I.event("attr-write", node, st, name="*", obj=o, val=args[2], old=None)
        return NONE, st
    if name == "delattr":
        ok, nm = one_const(args[1])
        if ok:
            for o in a0.oids():
                I.event("attr-write", node, st, name=nm, obj=o, val=None, old=None)
                h = dict(st.heap.get(o, {}))
                h.pop(nm, None)
                st.heap[o] = h
        return NONE, st
    if name == "vars":
        for o in a0.oids() if a0 is not None else []:
            I.event("dict-access", node, st, obj=o)
        return UNKNOWN, st
    if name == "callable":
        rs = set()
        for a in a0.atoms:
            if a[0] in ("f", "b", "k"):
                rs.add(True)
            elif a[0] == "o" and I.objs[a[1]].kind == "partial":
                rs.add(True)
            elif a[0] == "o" and I.objs[a[1]].kind == "inst" and I.objs[a[1]].cls is not None:
                rs.add(I.objs[a[1]].cls.find("__call__") is not None)
            elif a[0] == "c" or a[0] in ("t", "tn") or (a[0] == "o" and I.objs[a[1]].kind in ("list", "dict", "set", "arr")):
                rs.add(False)
            else:
                rs.add(None)
        if len(rs) == 1 and None not in rs:
            return const(rs.pop()).add_deps(deps), st
        return Val({N}, deps, T("callable", a0.term) if a0.term is not None else None, None, "R"), st
    if name == "type":
        if len(a0.atoms) == 1:
            a = next(iter(a0.atoms))
            if a[0] == "o" and I.objs[a[1]].kind == "inst":
                return Val({("k", I.objs[a[1]].cls)}), st
        return Val({N}, deps), st
    if name in ("int", "float", "complex", "bool", "str", "abs", "round", "pow", "sum", "min", "max", "divmod", "repr",
                "any", "all", "id", "hash", "ord", "chr", "hex", "format", "bin"):
        cs = [consts_of(v) for v in args]
        if name == "bool" and a0 is not None:
            t = I.truth(a0, st)
            if t is not None:
                return const(t).add_deps(deps), st
        if star is None and not kwargs and args and all(c is not None and len(c) == 1 for c in cs) and name not in ("id", "hash"):
            try:
                import builtins as B
                return const(getattr(B, name)(*[c[0] for c in cs])).add_deps(deps), st
            except Exception:
                pass
        if name in ("int", "float") and a0 is not None:
            ok, c = one_const(a0)
            if ok and c is None:
                I.do_raise(st, "TypeError", node, explicit=False)
                raise Stop()
        t = None
        if star is None and all(v.term is not None for v in allv):
            t = T(name if name not in ("min", "max") else name, *[v.term for v in args])
        ck = {"int": "R", "float": "R", "abs": "R", "bool": "R", "complex": "C", "any": "R", "all": "R"}.get(name, ck_of(args))
        if name in ("int", "float") and a0 is not None and a0.ck == "C":
            I.event("narrow", node, st, how=name + "()", val=a0, to="R")
        el = frozenset()
        if name in ("sum", "min", "max") and a0 is not None and len(args) == 1 and a0.oids():
            e = I.element(a0, st, node)
            ck = e.ck
            deps = deps | e.deps
            return I.fresh(st, node, deps, t, ck), st
        if name in ("pow", "abs", "round") and not all(scalarish(v) for v in args):
            return I.fresh(st, node, deps, t, ck), st
        return Val({N}, deps, t, None, ck), st
    if name == "print":
        return NONE, st
    if name == "open":
        oid = I.alloc(st, "ext", node, extra="file")
        I.event("open", node, st, args=args, kwargs=kwargs, obj=oid)
        I.set_field(st, oid, "#file", TRUE)
        return Val({("o", oid)}, deps), st
    if name == "slice":
        ps = list(args)
        if len(ps) == 1:
            ps = [NONE, ps[0], NONE]
        while len(ps) < 3:
            ps.append(NONE)
        t = T("slice", *[p.term for p in ps]) if all(p.term is not None for p in ps) else None
        return Val({("sl",) + tuple(ps)}, deps, t), st
    if name == "object":
        oid = I.alloc(st, "ext", node, extra="object")
        return Val({("o", oid)}), st
    if name == "object.__getattribute__":
        ok, nm = one_const(args[1])
        if ok:
            outs, states = [], []
            for a in a0.atoms:
                if a[0] == "o" and I.objs[a[1]].kind == "inst":
                    x = st.copy() if len(a0.atoms) > 1 else st
                    try:
                        v, x = I.raw_attr(a, nm, node, x)
                    except Stop:
                        continue
                    outs.append(v)
                    states.append(x)
            if not outs:
                raise Stop()
            return joinall(outs), I.join_states(states)
        return UNKNOWN.add_deps(deps), st
    if name in ("object.__setattr__",):
        ok, nm = one_const(args[1])
        if ok:
            for o in a0.oids():
                I.event("attr-write", node, st, name=nm, obj=o, val=args[2], old=st.heap.get(o, {}).get(nm))
                I.set_field(st, o, nm, args[2])
        return NONE, st
    if name == "dict.__setitem__":
        for o in a0.oids():
            I.mutate(st, [o], node, how="[]=", value=args[2], index=args[1])
            store_elem(I, st, o, args[1], args[2], len(a0.atoms) == 1, node)
        return NONE, st
    if name == "dict.__init__" or name == "object.__init__":
        return NONE, st
    if name in EXC_NAMES:
        return Val({("x", name)}), st
    return UNKNOWN.add_deps(deps), st


def relabel_elem(e, t):
    if t is None:
        return e.with_(term=None)
    atoms = set()
    for a in e.atoms:
        if a[0] == "t":
            atoms.add(("t", tuple(x.with_(term=T("get", t, i)) for i, x in enumerate(a[1]))))
        else:
            atoms.add(a)
    return Val(frozenset(atoms), e.deps, t, None, e.ck)


# ---------------------------------------------------------------------- methods of non-package values

def method_call(I, recv, name, args, kwargs, node, st, star, open_kw):
    from .interp import Stop, mk_tuple
    allv = [recv] + list(args) + list(kwargs.values()) + [x for x in (star, open_kw) if x is not None]
    deps = deps_of(allv)
    outs = []
    for a in recv.atoms:
        if a[0] == "super":
            if name == "__getattribute__" and args:
                return builtin_call(I, "object.__getattribute__", [Val({a[1]})] + args, kwargs, node, st, star, open_kw)
            if name == "__setattr__" and args:
                return builtin_call(I, "object.__setattr__", [Val({a[1]})] + args, kwargs, node, st, star, open_kw)
            if name == "__setitem__" and len(args) == 2:
                return builtin_call(I, "dict.__setitem__", [Val({a[1]})] + args, kwargs, node, st, star, open_kw)
            return NONE, st
    # package instances that derive from dict
    for a in recv.atoms:
        if a[0] == "o" and I.objs[a[1]].kind == "inst" and len(recv.atoms) == 1:
            cls = I.objs[a[1]].cls
            if cls is not None and "dict" in cls.all_ext() and name in DICT_METHODS:
                return dict_method(I, a[1], recv, name, args, kwargs, node, st, deps)
    kinds = {(I.objs[a[1]].kind if a[0] == "o" else a[0]) for a in recv.atoms}
    if kinds == {"set"} and name in SETOPS and not kwargs and star is None:
        try:
            return from_py(I, st, getattr(pyval(I, st, recv), name)(*[pyval(I, st, x) for x in args]), node, deps), st
        except Exception:
            pass
    if kinds == {"dict"} and name in DICT_METHODS and len(recv.atoms) == 1:
        return dict_method(I, next(iter(recv.atoms))[1], recv, name, args, kwargs, node, st, deps)
    if "dict" in kinds and name in DICT_MUT:
        I.mutate(st, [o for o in recv.oids() if I.objs[o].kind in ("dict", "any")], node, how="." + name)
        for o in recv.oids():
            if I.objs[o].kind == "dict":
                h = dict(st.heap.get(o, {}))
                h["#open"] = TRUE
                st.heap[o] = h
        return UNKNOWN.add_deps(deps), st
    if "dict" in kinds and name in ("get", "items", "keys", "values", "copy"):
        vs = None
        for a in recv.atoms:
            if a[0] == "o" and I.objs[a[1]].kind == "dict":
                v, st = dict_method(I, a[1], Val({a}, recv.deps), name, args, kwargs, node, st, deps)
            else:
                v = UNKNOWN.add_deps(deps)
                if a[0] == "o":
                    v = v.with_(atoms=v.atoms | {a})
                if name == "get" and len(args) > 1:
                    v = join(v, args[1])
            vs = join(vs, v)
        return vs, st
    if kinds <= {"list"} and name in LIST_MUT | {"copy", "index", "count"}:
        return list_method(I, recv, name, args, kwargs, node, st, deps)
    if kinds <= {"set"} and (name in SET_MUT or name in ("issubset", "difference", "union", "intersection", "copy", "issuperset", "isdisjoint", "symmetric_difference")):
        return set_method(I, recv, name, args, node, st, deps)
    if kinds <= {"c", "n"} and name in STR_METHODS:
        return str_method(I, recv, name, args, kwargs, node, st, deps)
    if name in ("append", "extend", "insert", "update", "setdefault", "pop", "popitem", "clear", "remove", "add", "reverse", "discard") \
            and any(k in ("list", "dict", "set", "any", "ext") for k in kinds):
        obs = [o for o in recv.oids() if I.objs[o].kind in ("list", "dict", "set", "any", "ext")]
        I.mutate(st, obs, node, how="." + name, value=args[0] if args else None)
        for o in obs:
            if I.objs[o].kind == "list" and args:
                h = dict(st.heap.get(o, {}))
                h.pop("#len", None)
                h["[]"] = join(h.get("[]"), args[-1])
                st.heap[o] = h
        return UNKNOWN.add_deps(deps), st
    # arrays and opaque values
    rng = [o for o in recv.oids() if "#rng" in st.heap.get(o, {})]
    if rng or (name in ("standard_normal", "shuffle", "permutation") and not kinds <= {"arr"}):
        seed = st.heap.get(rng[0], {}).get("#rng") if rng else None
        I.event("rng", node, st, src="generator." + name, seeded=seed is not None and one_const(seed) != (True, None),
                seed=seed, args=args, gens=rng)
        if name == "shuffle" and args:
            I.mutate(st, args[0].oids(), node, how="rng.shuffle")
            return NONE, st
        out = kwargs.get("out")
        if out is not None and out.oids():
            I.mutate(st, out.oids(), node, how="out=")
        seedlbl = frozenset() if (seed is not None and one_const(seed) != (True, None)) else frozenset({"rng"})
        t = T("draw", len(I.events), *[a.term for a in args if a.term is not None]) if I.versioned else None
        return I.fresh(st, node, deps | seedlbl, t, "R"), st
    ck = recv.ck
    me = recv
    objs = [o for o in recv.oids() if I.objs[o].kind in ("arr", "any", "ext", "list")]
    out = kwargs.get("out")
    if out is not None and out.oids():
        I.mutate(st, out.oids(), node, how="out=")
        return out.add_deps(deps), st
    if name in INPLACE_METHODS and not kinds <= {"x"}:
        I.mutate(st, objs, node, how="." + name, value=args[0] if args else None)
        return NONE, st
    if name == "setflags":
        return NONE, st
    if name in ("conj", "conjugate"):
        at = frozenset(a for a in recv.atoms if a[0] == "o") or frozenset({N})
        return Val(at, deps, tconj(me.term), None, ck), st
    if name in VIEW_METHODS:
        t = None
        if me.term is not None:
            if name == "transpose" and not args:
                t = tT(me.term)
            elif all(v.term is not None for v in (*args, *kwargs.values())):
                t = T(name, me.term, *[v.term for v in args],
                      *[T("kw", k, v.term) for k, v in sorted(kwargs.items()) if one_const(v) != (True, "C")])
        at = frozenset(a for a in recv.atoms if a[0] == "o")
        if len(at) < len(recv.atoms) or not at:
            oid = I.alloc(st, "arr", node, extra="view")
            at |= {("o", oid)}
        return Val(at, deps, t, None, ck), st
    if name == "copy":
        return I.fresh(st, node, deps, me.term, ck, extra="copy"), st
    if name == "astype":
        dk, has = dtype_of({**kwargs, **({"dtype": args[0]} if args else {})}, [], None)
        if dk == "R" and ck == "C" or dk == "I" and ck in ("C", "F"):
            I.event("narrow", node, st, how="astype to the type of the data" if dk == "I" else "astype(real)", val=recv, to=dk)
        cpy = kwargs.get("copy")
        t = me.term if me.term is not None and dk == "C" else \
            T("astype", me.term, args[0].term) if me.term is not None and args and args[0].term is not None else None
        if cpy is not None and one_const(cpy) != (True, True):
            return recv.with_(term=t, gate=None, ck=dk or (None if ck == "I" else ck)), st
        r = I.fresh(st, node, deps, t, dk or (None if ck == "I" else ck), extra="astype")
        if dk == "R":
            for o in r.oids():
                I.set_field(st, o, "#real", TRUE)
        return r, st
    if name in ("dot", "matmul") and args:
        I.event("dot", node, st, factors=[recv, args[0]])
        return I.fresh(st, node, deps, tdot(recv.term, args[0].term), ck_of([recv, args[0]])), st
    if name in ("flatten", "sum", "mean", "min", "max", "cumsum", "std", "var", "prod", "repeat", "clip", "round",
                "argsort", "argmax", "argmin", "nonzero", "any", "all", "toarray", "todense", "filled", "trace",
                "take", "tolist", "item", "searchsorted", "compress"):
        if "xm" in kinds and not objs:
            return Val({U}, deps), st
        t = None
        if me.term is not None and star is None and open_kw is None and all(v.term is not None for v in args + list(kwargs.values())):
            t = T(name, me.term, *[v.term for v in args], *[T("kw", k2, v.term) for k2, v in sorted(kwargs.items())])
        c = "R" if name in ("argsort", "argmax", "argmin", "nonzero", "any", "all", "std", "var", "searchsorted") else floating(ck) if name == "mean" else ck
        return I.fresh(st, node, deps, t, c, extra="sort" if name in ("argsort", "nonzero") else name), st
    if name == "__iter__":
        return recv, st
    if name in ("fit", "fit_predict") and "ext" in kinds:
        I.event("ext-method", node, st, name=name, recv=recv, args=args)
        I.mutate(st, [o for o in objs if I.objs[o].kind in ("ext", "any")], node, how="." + name + "()")
        return recv.add_deps(deps), st
    if name in STR_METHODS:
        return str_method(I, recv, name, args, kwargs, node, st, deps)
    # unknown method on an opaque object
    I.ext_raise = True
    I.event("ext-method", node, st, name=name, recv=recv, args=args)
    if kinds <= {"c"} and all(a[2] is None for a in recv.atoms if a[0] == "c"):
        I.do_raise(st, "AttributeError", node, explicit=False)
        raise Stop()
    if name in ("fit",):
        I.mutate(st, [o for o in objs if I.objs[o].kind in ("ext", "any")], node, how="." + name + "()")
    oid = I.alloc(st, "ext", node, extra=name)
    t = None
    if me.term is not None and star is None and open_kw is None and all(v.term is not None for v in args + list(kwargs.values())):
        t = T("m." + name, me.term, *[v.term for v in args])
    at = {("o", oid)}
    return Val(frozenset(at), deps, t, None, ck), st


def dict_method(I, oid, recv, name, args, kwargs, node, st, deps):
    from .interp import mk_tuple
    h = st.heap.get(oid, {})
    if name == "get":
        d = args[1] if len(args) > 1 else NONE
        return dict_get(I, oid, args[0], node, st, deps, default=d)
    if name in ("items", "keys", "values"):
        keys = [k for k in h if k.startswith("k:")]
        if not h.get("#open") and keys and not any(MISSING in h[k].atoms for k in keys) and len(keys) <= 12:
            outs = []
            for k in keys:
                kc = const(ast.literal_eval(k[2:]))
                outs.append(mk_tuple([kc, h[k]]) if name == "items" else (kc if name == "keys" else h[k]))
            return I.mk_list(outs, node, st), st
        vals = joinall([v for k, v in h.items() if k == "[]" or k.startswith("k:")]) or UNKNOWN
        vals = vals.with_(atoms=(vals.atoms - {MISSING}) or frozenset({U}), gate=None)
        if I.objs[oid].caller:
            vals = vals.with_(atoms=vals.atoms | {("o", oid)})
        e = {"items": mk_tuple([NOTNONE, vals]), "keys": NOTNONE, "values": vals}[name]
        lo = I.alloc(st, "list", node, extra=name, fields={"[]": e.add_deps(deps)})
        return Val({("o", lo)}, deps), st
    if name == "copy":
        return shallow_clone(I, Val({("o", oid)}, recv.deps), st, node), st
    # mutators
    I.mutate(st, [oid], node, how="." + name, value=args[-1] if args else None)
    if name == "update":
        for v in args:
            for o in v.oids():
                for k, x in st.heap.get(o, {}).items():
                    if k.startswith("k:"):
                        I.set_field(st, oid, k, x)
                    elif k == "[]":
                        I.set_field(st, oid, "[]", x, weak=True)
                        I.set_field(st, oid, "#open", TRUE)
                if I.objs[o].caller or st.heap.get(o, {}).get("#open"):
                    I.set_field(st, oid, "#open", TRUE)
            if not v.oids():
                I.set_field(st, oid, "#open", TRUE)
        for k, x in kwargs.items():
            I.set_field(st, oid, f"k:{k!r}", x)
        return NONE, st
    ok, c = one_const(args[0]) if args else (False, None)
    if name == "setdefault" and ok:
        key = f"k:{c!r}"
        if key in h and MISSING not in h[key].atoms:
            return h[key], st
        d = args[1] if len(args) > 1 else NONE
        v = join(h.get("[]"), d) if h.get("#open") or I.objs[oid].caller else d
        I.set_field(st, oid, key, v)
        return v, st
    if name in ("pop", "__delitem__") and ok:
        key = f"k:{c!r}"
        nh = dict(h)
        v = nh.pop(key, None)
        st.heap[oid] = nh
        if v is not None and "#dictof" in h and h["#dictof"].term is not None:      # removal through obj.__dict__
            I.set_field(st, h["#dictof"].term.args[0], c, Val({MISSING}))
        d = args[1] if len(args) > 1 else None
        if v is None:
            v = d if d is not None else UNKNOWN
            if h.get("#open") or I.objs[oid].caller:
                v = join(UNKNOWN, v)
        return v.add_deps(deps), st
    if name == "clear":
        st.heap[oid] = {}
        return NONE, st
    nh = dict(st.heap.get(oid, {}))
    nh["#open"] = TRUE
    st.heap[oid] = nh
    return UNKNOWN.add_deps(deps), st


def list_method(I, recv, name, args, kwargs, node, st, deps):
    if name == "copy":
        return shallow_clone(I, recv, st, node), st
    if name in ("index", "count"):
        return Val({N}, deps), st
    oids = recv.oids()
    I.mutate(st, oids, node, how="." + name, value=args[-1] if args else None)
    ret = NONE
    for oid in oids:
        h = dict(st.heap.get(oid, {}))
        exact = "#len" in h and oid not in I.multi and I.loopdepth == 0 and len(oids) == 1
        if name == "append":
            v = args[0]
            if exact:
                n = one_const(h["#len"])[1]
                h[f"[{n}]"] = v
                h["#len"] = const(n + 1)
            else:
                for k in list(h):
                    if k == "#len" or (k.startswith("[") and k != "[]"):
                        del h[k]
            h["[]"] = join(h.get("[]"), v)
        elif name in ("extend",):
            e = I.element(args[0], st, node) if args else UNKNOWN
            for k in list(h):
                if k == "#len" or (k.startswith("[") and k != "[]"):
                    del h[k]
            h["[]"] = join(h.get("[]"), e)
        elif name == "insert":
            for k in list(h):
                if k == "#len" or (k.startswith("[") and k != "[]"):
                    del h[k]
            h["[]"] = join(h.get("[]"), args[-1])
        elif name == "pop":
            ret = (h.get("[]") or UNKNOWN).add_deps(deps)
            for k in list(h):
                if k == "#len" or (k.startswith("[") and k != "[]"):
                    del h[k]
        elif name == "clear":
            h = {"#len": const(0)}
        else:
            e = h.get("[]")
            for k in list(h):
                if k.startswith("[") and k != "[]":
                    h[k] = e
            if name == "remove":
                for k in list(h):
                    if k == "#len" or (k.startswith("[") and k != "[]"):
                        del h[k]
        st.heap[oid] = h
    return ret, st


def set_method(I, recv, name, args, node, st, deps):
    if name in SET_MUT:
        I.mutate(st, recv.oids(), node, how="." + name, value=args[0] if args else None)
        ret = NONE
        for oid in recv.oids():
            h = dict(st.heap.get(oid, {}))
            if name == "add":
                h["[]"] = join(h.get("[]"), args[0])
            elif name == "update" and args:
                h["[]"] = join(h.get("[]"), I.element(args[0], st, node))
            elif name == "pop":
                ret = h.get("[]") or UNKNOWN
            st.heap[oid] = h
        return ret, st
    if name in ("issubset", "issuperset", "isdisjoint"):
        return Val({N}, deps, None, None, "R"), st
    e = I.element(recv, st, node)
    if name in ("union", "symmetric_difference") and args:
        e = join(e, I.element(args[0], st, node))
    oid = I.alloc(st, "set", node, extra=name, fields={"[]": e})
    return Val({("o", oid)}, deps), st


def str_method(I, recv, name, args, kwargs, node, st, deps):
    ok, c = one_const(recv)
    cs = [one_const(v) for v in args]
    if ok and isinstance(c, str) and all(x[0] for x in cs) and not kwargs and name not in ("format",):
        try:
            r = getattr(c, name)(*[x[1] for x in cs])
            if isinstance(r, list):
                return I.mk_list([const(x) for x in r], node, st), st
            return const(r).add_deps(deps), st
        except Exception:
            pass
    if name in ("split",):
        oid = I.alloc(st, "list", node, extra="split", fields={"[]": NOTNONE})
        return Val({("o", oid)}, deps), st
    t = None
    if recv.term is not None and all(v.term is not None for v in args):
        t = T("str." + name, recv.term, *[v.term for v in args])
    return Val({N}, deps, t), st
