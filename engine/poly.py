"""Rational normal forms of value-number terms: equality of arithmetic expressions over opaque atoms, decided exactly."""
from fractions import Fraction

from .vals import Term

NOOP = {"asarray", "array", "ravel", "flatten", "squeeze", "atleast_1d", "float", "astype"}


def strip(t):
    """the term without operations that only rearrange or broadcast"""
    while isinstance(t, Term):
        if t.op in NOOP and t.args:
            t = t.args[0]
        elif t.op in ("repeat", "tile", "broadcast_to", "reshape", "expand_dims") and t.args:
            t = t.args[0]
        elif t.op == "idx" and broadcast_index(t.args[1]):
            t = t.args[0]
        elif t.op in ("T",):
            t = t.args[0]
        else:
            return t
    return t


def broadcast_index(i):
    if i.op == "tuple":
        return all(broadcast_index(x) for x in i.args)
    if i.op == "slice":
        return all(x.op == "c" and x.args[0] is None for x in i.args)
    return i.op == "c" and (i.args[0] is None or i.args[0] is Ellipsis) or i.op == "x" and i.args[0].endswith("newaxis")


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


ONE = {(): Fraction(1)}


def ratfun(t, atoms, limit=400):
    """(numerator, denominator) over the atoms (dict: atom id -> Term collects the opaque subterms)"""
    t = strip(t)
    if not isinstance(t, Term):
        return None
    if t.op == "c":
        v = t.args[0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
            return ({(): Fraction(v)} if v else {}), ONE
        return None
    if t.op in ("Add", "Sub", "Mult", "Div", "neg", "recip", "negative", "add", "subtract", "multiply", "divide", "true_divide",
                "pos", "USub"):
        rs = [ratfun(x, atoms) for x in t.args]
        if any(r is None for r in rs):
            return None
        op = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div",
              "negative": "neg", "USub": "neg"}.get(t.op, t.op)
        r = rs[0]
        if op == "neg":
            return padd({}, r[0], -1), r[1]
        if op == "recip":
            return (r[1], r[0]) if r[0] else None
        for s in rs[1:]:
            if op in ("Add", "Sub"):
                k = 1 if op == "Add" else -1
                if r[1] == s[1]:
                    r = padd(r[0], s[0], k), r[1]
                else:
                    r = padd(pmul(r[0], s[1]), pmul(s[0], r[1]), k), pmul(r[1], s[1])
            elif op == "Mult":
                r = pmul(r[0], s[0]), pmul(r[1], s[1])
            elif op == "Div":
                if not s[0]:
                    return None
                r = pmul(r[0], s[1]), pmul(r[1], s[0])
            if len(r[0]) > limit or len(r[1]) > limit:
                return None
        return r
    atoms[t.id] = t
    return {(t.id,): Fraction(1)}, ONE


def equal(a, b):
    """True / False for rational functions, None if one is not expressible"""
    if a is None or b is None:
        return None
    return not padd(pmul(a[0], b[1]), pmul(b[0], a[1]), -1)
