"""Where every entry of an array comes from: value numbers evaluated in the domain of arrays of small fixed sizes whose entries are
names of data (index arithmetic is constant, data stay symbols, combined linearly).  Anything else raises NoLayout."""
import math
from fractions import Fraction
from itertools import product

from .vals import Term


class NoLayout(Exception):
    pass


NAN = ("nan",)


def lin(x):
    if isinstance(x, dict):
        return x
    if isinstance(x, (int, Fraction)):
        return {(): Fraction(x)} if x else {}
    raise NoLayout("entry")


def cell(d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return 0
    if set(d) == {()}:
        v = d[()]
        return int(v) if v.denominator == 1 else v
    return d


def add(a, b, k=1):
    if a is NAN or b is NAN:
        return NAN
    if type(a) is int and type(b) is int:
        return a + k * b
    r = dict(lin(a))
    for s, v in lin(b).items():
        r[s] = r.get(s, 0) + k * v
    return cell(r)


def mul(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(a, dict) and isinstance(b, dict):
        return cell({tuple(sorted(p + q)): v * w for p, v in a.items() for q, w in b.items()}) if len(a) * len(b) == 1 else bad("product")
    if isinstance(a, dict):
        a, b = b, a
    if isinstance(b, dict):
        return cell({s: a * v for s, v in b.items()})
    return cell(lin(a * b)) if not (type(a) is int and type(b) is int) else a * b


def bad(why):
    raise NoLayout(why)


def div(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isinstance(b, dict) or b == 0:
        raise NoLayout("division")
    return cell({s: v / Fraction(b) for s, v in lin(a).items()})


def whole(f):
    def g(a, b):
        if type(a) in (int, bool) and type(b) in (int, bool):
            return f(a, b)
        raise NoLayout("integers")
    return g


BIN = {"Add": add, "Sub": lambda a, b: add(a, b, -1), "Mult": mul, "Div": div,
       "FloorDiv": whole(lambda a, b: a // b if b else bad("0")), "Mod": whole(lambda a, b: a % b if b else bad("0")),
       "Pow": whole(lambda a, b: a ** b if b >= 0 else bad("power")),
       "Eq": whole(lambda a, b: a == b), "NotEq": whole(lambda a, b: a != b), "Lt": whole(lambda a, b: a < b),
       "LtE": whole(lambda a, b: a <= b), "Gt": whole(lambda a, b: a > b), "GtE": whole(lambda a, b: a >= b),
       "minimum": whole(min), "maximum": whole(max), "BitAnd": whole(lambda a, b: a & b), "BitOr": whole(lambda a, b: a | b)}
BIN["add"], BIN["subtract"], BIN["multiply"], BIN["divide"], BIN["floor_divide"] = (BIN[k] for k in ("Add", "Sub", "Mult", "Div", "FloorDiv"))


def prod(s):
    n = 1
    for x in s:
        n *= x
    return n


class Nd:
    def __init__(self, shape, cells, mask=None):
        self.shape, self.cells, self.mask = tuple(shape), list(cells), mask
        if len(self.cells) != prod(self.shape):
            raise NoLayout("size")

    def __eq__(self, o):
        return isinstance(o, Nd) and self.shape == o.shape and self.cells == o.cells

    def take(self, shape, pos):
        return Nd(shape, [self.cells[p] for p in pos], None if self.mask is None else [self.mask[p] for p in pos])

    def show(self):
        def one(c):
            if isinstance(c, dict):
                return "+".join((f"{v}*" if v != 1 else "") + "*".join(map(str, s)) for s, v in sorted(c.items()))
            return "nan" if c is NAN else str(c)
        return f"{'x'.join(map(str, self.shape))}: " + " ".join(one(c) for c in self.cells[:12]) + (" ..." if len(self.cells) > 12 else "")


def data(name, *shape):
    return Nd(shape, [{(name + "[" + ",".join(map(str, i)) + "]",): Fraction(1)} for i in product(*map(range, shape))])


def strides(shape):
    out, n = [], 1
    for s in reversed(shape):
        out.insert(0, n)
        n *= s
    return out


def nd(x):
    if isinstance(x, Nd):
        return x
    if isinstance(x, (list, tuple)) and x is not NAN:
        return stack([nd(y) for y in x], 0)
    return Nd((), [x])


def un(x):
    return x.cells[0] if x.shape == () and x.mask is None else x


def bshape(*shapes):
    n = max(map(len, shapes))
    out = []
    for i in range(n):
        s = {x[i - n + len(x)] for x in shapes if i - n + len(x) >= 0} - {1}
        if len(s) > 1:
            raise NoLayout("broadcast")
        out.append(s.pop() if s else 1)
    return tuple(out)


def broadcast(x, shape):
    st = strides(x.shape)
    off = len(shape) - len(x.shape)
    pos = []
    for i in product(*map(range, shape)):
        pos.append(sum(st[k] * (0 if x.shape[k] == 1 else i[k + off]) for k in range(len(x.shape))))
    return x.take(shape, pos)


def binary(f, a, b):
    a, b = nd(a), nd(b)
    s = bshape(a.shape, b.shape)
    a, b = broadcast(a, s), broadcast(b, s)
    m = None
    if a.mask or b.mask:
        m = [p or q for p, q in zip(a.mask or [False] * len(a.cells), b.mask or [False] * len(b.cells))]
    return un(Nd(s, [f(p, q) for p, q in zip(a.cells, b.cells)], m))


def index_map(shape, items):
    """(shape, flat positions) selected by an index"""
    ex = []
    for x in items:
        if isinstance(x, (list, tuple)) and x is not NAN:
            x = nd(x)
        if isinstance(x, Nd) and x.cells and all(type(c) is bool for c in x.cells):
            at = [i for i, c in zip(product(*map(range, x.shape)), x.cells) if c]
            ex += [Nd((len(at),), [i[k] for i in at]) for k in range(len(x.shape))]
        else:
            ex.append(x)
    used = sum(1 for x in ex if x is not None and x is not Ellipsis)
    if used > len(shape):
        raise NoLayout("index")
    if Ellipsis not in [x for x in ex if not isinstance(x, Nd)]:
        ex.append(Ellipsis)
    i = next(k for k, x in enumerate(ex) if x is Ellipsis)
    ex[i:i + 1] = [slice(None)] * (len(shape) - used)
    st = strides(shape)
    adv = any(isinstance(x, Nd) and x.shape != () for x in ex)
    ax = 0
    dims, advs, where = [], [], []        # dims: list of offset lists in order ; advs: (axis, Nd)
    for k, x in enumerate(ex):
        if x is None:
            dims.append((k, [0]))
            continue
        n = shape[ax]
        if isinstance(x, slice):
            r = range(*x.indices(n))
            dims.append((k, [j * st[ax] for j in r]))
        elif isinstance(x, (int, Nd)) and not isinstance(x, bool):
            x = nd(x)
            c = []
            for j in x.cells:
                if type(j) is not int or not -n <= j < n:
                    raise NoLayout("position")
                c.append((j % n) * st[ax])
            advs.append(Nd(x.shape, c))
            where.append(k)
        else:
            raise NoLayout("index kind")
        ax += 1
    if advs:
        B = bshape(*[a.shape for a in advs])
        offs = [sum(t) for t in zip(*[broadcast(a, B).cells for a in advs])]
        together = where == list(range(where[0], where[-1] + 1))
        at = sum(1 for k, _ in dims if k < where[0]) if together or not adv else 0
    else:
        B, offs, at = (), [0], 0
    pre, post = [d for _, d in dims[:at]], [d for _, d in dims[at:]]
    out = tuple(map(len, pre)) + B + tuple(map(len, post))
    pos = [sum(p) + o + sum(q) for p in product(*pre) for o in offs for q in product(*post)]
    return out, pos


def getitem(x, items):
    s, p = index_map(x.shape, items)
    return un(x.take(s, p))


def setitem(x, items, v):
    s, p = index_map(x.shape, items)
    v = nd(v)
    while len(v.shape) > len(s) and v.shape[0] == 1:
        v = Nd(v.shape[1:], v.cells)
    if bshape(v.shape, s) != s:
        raise NoLayout("store")
    v = broadcast(v, s)
    c = list(x.cells)
    for q, y in zip(p, v.cells):
        c[q] = y
    return Nd(x.shape, c, x.mask)


def permute(x, order):
    st = strides(x.shape)
    shape = [x.shape[k] for k in order]
    return x.take(shape, [sum(i[j] * st[k] for j, k in enumerate(order)) for i in product(*map(range, shape))])


def stack(xs, axis):
    if not xs or any(x.shape != xs[0].shape for x in xs):
        raise NoLayout("stack")
    axis %= len(xs[0].shape) + 1
    ys = []
    m = [c for x in xs for c in (x.mask or [False] * len(x.cells))] if any(x.mask for x in xs) else None
    y = Nd((len(xs),) + xs[0].shape, [c for x in xs for c in x.cells], m)
    order = list(range(1, len(y.shape)))
    order.insert(axis, 0)
    return permute(y, order) if axis else y


def concat(xs, axis):
    n = len(xs[0].shape)
    axis %= n
    front = [axis] + [k for k in range(n) if k != axis]
    back = [front.index(k) for k in range(n)]
    ys = [permute(x, front) for x in xs]
    if any(y.shape[1:] != ys[0].shape[1:] for y in ys):
        raise NoLayout("concatenate")
    return permute(Nd((sum(y.shape[0] for y in ys),) + ys[0].shape[1:], [c for y in ys for c in y.cells]), back)


def reshape(x, dims, order="C"):
    dims = list(dims)
    if order == "F":
        r = reshape(permute(x, range(len(x.shape))[::-1]), dims[::-1])
        return permute(r, range(len(r.shape))[::-1])
    if -1 in dims:
        k = dims.index(-1)
        rest = prod(dims[:k] + dims[k + 1:])
        if not rest or len(x.cells) % rest:
            raise NoLayout("reshape")
        dims[k] = len(x.cells) // rest
    return Nd(dims, x.cells, x.mask)


def reduce(x, axis, f):
    """f(list of (cell, masked), positions along the axis) -> cell or None (masked)"""
    axis %= len(x.shape)
    front = [k for k in range(len(x.shape)) if k != axis] + [axis]
    y = permute(x, front)
    n = y.shape[-1]
    out = [f(y.cells[i:i + n], y.mask[i:i + n] if y.mask else [False] * n) for i in range(0, len(y.cells), n)]
    m = [o is None for o in out]
    return un(Nd(y.shape[:-1], [0 if o is None else o for o in out], m if x.mask is not None else None))


def average(weights, skipnan, masked):
    def f(cells, mask):
        tot, w0 = 0, Fraction(0)
        for c, m, w in zip(cells, mask, weights or [1] * len(cells)):
            if m and masked or skipnan and c is NAN:
                continue
            if m:
                return NAN
            tot, w0 = add(tot, mul(w, c)), add(w0, w)
        if w0 == 0:
            return None
        return div(tot, w0)
    return f


class Layout:
    """evaluates terms; leaves: term -> Nd | int | list"""

    def __init__(self, leaves, calls=None):
        self.memo = {t.id: v for t, v in leaves.items()}
        self.calls = calls or {}

    def of(self, t):
        if not isinstance(t, Term):
            return t
        if t.id not in self.memo:
            self.memo[t.id] = self.step(t)
        return self.memo[t.id]

    def step(self, t):
        op = t.op
        if op in self.calls:
            return self.calls[op](*[self.of(x) for x in t.args])
        if op == "c":
            return t.args[0]
        if op == "x":
            if t.args[0] in ("numpy.nan", "math.nan"):
                return NAN
            if t.args[0].endswith("newaxis"):
                return None
            raise NoLayout(t.args[0])
        if op in ("tuple", "list"):
            return [self.of(x) for x in t.args]
        if op == "slice":
            return slice(*[self.of(x) for x in t.args])
        if op in ("Add", "Mult") and len(t.args) > 2:
            r = self.of(t.args[0])
            for x in t.args[1:]:
                r = binary(BIN[op], r, self.of(x))
            return r
        if op in ("Eq", "NotEq") and len(t.args) == 2:
            a, b = self.of(t.args[0]), self.of(t.args[1])
            if isinstance(a, list) and isinstance(b, list) and all(type(x) is int for x in a + b):
                return (a == b) == (op == "Eq")          # shapes
        if op in BIN and len(t.args) == 2:
            return binary(BIN[op], self.of(t.args[0]), self.of(t.args[1]))
        f = getattr(self, "o_" + op.replace(".", "_").replace("*", "_all"), None)
        if f is None:
            raise NoLayout(op)
        pos = [self.of(x) for x in t.args if not (isinstance(x, Term) and x.op == "kw")]
        kw = {x.args[0]: self.of(x.args[1]) for x in t.args if isinstance(x, Term) and x.op == "kw"}
        try:
            return f(*pos, **kw)
        except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
            raise NoLayout(f"{op}: {e}")

    # numbers among the entries
    def num(self, f, x):
        if isinstance(x, Nd):
            return Nd(x.shape, [f(c) if type(c) is int else bad("number") for c in x.cells])
        return f(x) if type(x) is int else bad("number")

    def o_abs(self, x):
        return self.num(abs, x)

    def o_real(self, x):
        return self.num(lambda c: c, x)

    def o_imag(self, x):
        return self.num(lambda c: 0, x)

    def o_linalg_norm(self, x):
        q = sum(c * c if type(c) is int else bad("number") for c in nd(x).cells)
        return math.isqrt(q) if math.isqrt(q) ** 2 == q else bad("norm")

    def o_pow(self, x, k):
        return self.num(lambda c: c ** k if type(k) is int and (k > 0 or c == 1) else bad("power"), x)

    def o_recip(self, x):
        return self.num(lambda c: 1 if c == 1 else bad("reciprocal"), x)

    def o_argsort(self, x, axis=-1, kind=None):
        x = nd(x)
        if len(x.shape) != 1 or any(type(c) is not int for c in x.cells):
            raise NoLayout("argsort")
        return Nd(x.shape, sorted(range(x.shape[0]), key=lambda i: x.cells[i]))

    def o_dot(self, *xs):
        r = nd(xs[0])
        for y in xs[1:]:
            y = nd(y)
            if len(r.shape) != 2 or len(y.shape) != 2 or r.shape[1] != y.shape[0]:
                raise NoLayout("product")
            (a, b), c = r.shape, y.shape[1]
            cells = []
            for i in range(a):
                for j in range(c):
                    e = 0
                    for k in range(b):
                        e = add(e, mul(r.cells[i * b + k], y.cells[k * c + j]))
                    cells.append(e)
            r = Nd((a, c), cells)
        return r
    o_power = o_pow
    o_reciprocal = o_recip
    o_absolute, o_MatMult, o_matmul, o_linalg_multi_dot = o_abs, o_dot, o_dot, o_dot

    # sizes
    def o_neg(self, x):
        return binary(BIN["Mult"], -1, x)

    def o_shape(self, x):
        return list(nd(x).shape)

    def o_len(self, x):
        return len(x) if isinstance(x, list) else x.shape[0]

    def o_ndim(self, x):
        return len(nd(x).shape)

    def o_size(self, x):
        return len(nd(x).cells)

    def o_int(self, x):
        return x if type(x) is int else bad("int")

    def o_min(self, *a):
        a = a[0] if len(a) == 1 else a
        return min(a) if all(type(x) is int for x in a) else bad("min")

    def o_max(self, *a):
        a = a[0] if len(a) == 1 else a
        return max(a) if all(type(x) is int for x in a) else bad("max")

    # making
    def o_arange(self, *a, dtype=None):
        a = [x for x in a]
        return Nd((len(range(*a)),), list(range(*a)))

    def o_range(self, *a):
        return list(range(*a))

    def o_full(self, shape, v, dtype=None):
        s = tuple(shape) if isinstance(shape, (list, tuple)) else (shape,)
        return Nd(s, [v] * prod(s))

    def o_zeros(self, shape, dtype=None):
        return self.o_full(shape, 0)

    def o_ones(self, shape, dtype=None):
        return self.o_full(shape, 1)

    def o_empty(self, shape, dtype=None):
        return self.o_full(shape, NAN)

    def o_zeros_like(self, x, dtype=None):
        return self.o_full(list(nd(x).shape), 0)

    def o_empty_like(self, x, dtype=None):
        return self.o_full(list(nd(x).shape), NAN)

    def o_full_like(self, x, v, dtype=None):
        return self.o_full(list(nd(x).shape), v)

    def o_array(self, x, dtype=None, copy=None):
        return nd(x)
    o_asarray = o_copy = o_ascontiguousarray = o_asanyarray = o_array

    def o_astype(self, x, *a):
        return x

    # selection
    def o_idx(self, x, i):
        items = i if isinstance(i, list) else [i]
        if isinstance(x, (list, tuple)):
            if len(items) == 1 and isinstance(items[0], (int, slice)):
                return x[items[0]]
            x = nd(x)
        return getitem(x, items)
    o_get = o_idx

    def o_upd(self, x, i, v):
        return setitem(nd(x), i if isinstance(i, list) else [i], v)

    def o_take(self, x, i, axis=None):
        return getitem(x, [slice(None)] * (axis % len(x.shape)) + [i]) if axis is not None else bad("take")

    # arrangement
    def o_T(self, x):
        x = nd(x)
        return permute(x, range(len(x.shape))[::-1])

    def o_H(self, x):
        return self.o_conj(self.o_T(x))

    def o_transpose(self, x, *p, axes=None):
        p = p[0] if len(p) == 1 and isinstance(p[0], list) else axes if axes is not None else p
        x = nd(x)
        return permute(x, [k % len(x.shape) for k in p] if p else range(len(x.shape))[::-1])

    def o_swapaxes(self, x, i, j):
        x = nd(x)
        o = list(range(len(x.shape)))
        o[i], o[j] = o[j], o[i]
        return permute(x, o)

    def o_moveaxis(self, x, a, b):
        x = nd(x)
        n = len(x.shape)
        if not isinstance(a, int) or not isinstance(b, int):
            raise NoLayout("moveaxis")
        o = [k for k in range(n) if k != a % n]
        o.insert(b % n, a % n)
        return permute(x, o)

    def o_reshape(self, x, *dims, order="C", newshape=None, shape=None):
        dims = list(dims) or [k for k in (newshape, shape) if k is not None]
        if isinstance(dims[-1], str):
            order = dims.pop()
        if len(dims) == 1 and isinstance(dims[0], (list, tuple)):
            dims = dims[0]
        if order not in ("C", "F"):
            raise NoLayout("order")
        return reshape(nd(x), dims, order)

    def o_ravel(self, x, order="C"):
        return reshape(nd(x), [-1], order)
    o_flatten = o_ravel

    def o_squeeze(self, x, axis=None):
        return reshape(x, [s for k, s in enumerate(x.shape) if s != 1 or axis is not None and k != axis % len(x.shape)])

    def o_expand_dims(self, x, axis):
        s = list(x.shape)
        s.insert(axis % (len(s) + 1), 1)
        return reshape(x, s)

    def o_atleast_1d(self, x):
        x = nd(x)
        return x if x.shape else Nd((1,), x.cells)

    def o_atleast_2d(self, x):
        x = nd(x)
        return x if len(x.shape) >= 2 else reshape(x, [1, -1])

    def o_flip(self, x, axis=None):
        x = nd(x)
        return getitem(x, [slice(None, None, -1) if axis is None or k == axis % len(x.shape) else slice(None) for k in range(len(x.shape))])

    def o_repeat(self, x, n, axis=None):
        x = nd(x)
        if axis is None:
            x, axis = reshape(x, [-1]), 0
        axis %= len(x.shape)
        return getitem(x, [slice(None)] * axis + [Nd((x.shape[axis] * n,), [i // n for i in range(x.shape[axis] * n)])])

    def o_tile(self, x, reps):
        x = nd(x)
        reps = reps if isinstance(reps, list) else [reps]
        n = max(len(reps), len(x.shape))
        x = reshape(x, [1] * (n - len(x.shape)) + list(x.shape))
        reps = [1] * (n - len(reps)) + reps
        for k, r in enumerate(reps):
            x = concat([x] * r, k)
        return x

    def o_split(self, x, n, axis=0):
        k = x.shape[axis]
        if isinstance(n, (list, Nd)):
            c = [0] + (n if isinstance(n, list) else n.cells) + [k]
        elif k % n:
            raise NoLayout("split")
        else:
            c = list(range(0, k + 1, k // n))
        axis %= len(x.shape)
        return [getitem(x, [slice(None)] * axis + [slice(a, b)]) for a, b in zip(c, c[1:])]

    def seq(self, xs):
        if xs and isinstance(xs[-1], int):
            return [nd(x) for x in (xs[0] if len(xs) == 2 and isinstance(xs[0], list) else xs[:-1])], xs[-1]
        if len(xs) == 1 and isinstance(xs[0], list):
            return [nd(x) for x in xs[0]], None
        return [nd(x) for x in xs], None

    def o_stack(self, *xs, axis=None):
        xs, a = self.seq(xs)
        return stack(xs, a if a is not None else axis or 0)

    def o_concatenate(self, *xs, axis=None):
        xs, a = self.seq(xs)
        return concat(xs, a if a is not None else axis or 0)

    def o_hstack(self, *xs):
        xs, _ = self.seq(xs)
        return concat(xs, 0 if len(xs[0].shape) == 1 else 1)

    def o_vstack(self, *xs):
        xs, _ = self.seq(xs)
        return concat([self.o_atleast_2d(x) for x in xs], 0)

    def o_column_stack(self, *xs):
        xs, _ = self.seq(xs)
        return concat([reshape(x, [-1, 1]) if len(x.shape) == 1 else x for x in xs], 1)

    def o_sliding_window_view(self, x, w, axis=None):
        w = w if isinstance(w, list) else [w]
        n = len(x.shape)
        axis = list(range(n)) if axis is None else axis if isinstance(axis, list) else [axis]
        axis = [a % n for a in axis]
        if len(axis) != len(w):
            raise NoLayout("window")
        s = list(x.shape)
        for a, k in zip(axis, w):
            s[a] -= k - 1
        st = strides(x.shape)
        pos = []
        for i in product(*map(range, s + w)):
            pos.append(sum(i[k] * st[k] for k in range(n)) + sum(i[n + j] * st[a] for j, a in enumerate(axis)))
        return x.take(s + w, pos)

    # values
    def o_conj(self, x):
        def c(y):
            if y is NAN or not isinstance(y, dict):
                return y
            return {tuple(p[:-1] if p.endswith("'") else p + "'" for p in s): v for s, v in y.items()}
        x = nd(x)
        return Nd(x.shape, map(c, x.cells), x.mask)
    o_conjugate = o_conj

    def o_isnan(self, x):
        x = nd(x)
        return Nd(x.shape, [c is NAN for c in x.cells])

    def o_Invert(self, x):
        x = nd(x)
        return Nd(x.shape, [(not c) if type(c) is bool else bad("not") for c in x.cells])
    o_logical_not = o_invert = o_Not = o_Invert

    def o_ma_array(self, x, mask=None, dtype=None):
        x = nd(x)
        return Nd(x.shape, x.cells, None if mask is None else broadcast(nd(mask), x.shape).cells)
    o_ma_masked_array = o_ma_array

    def o_ma_masked_invalid(self, x):
        return self.o_ma_array(x, self.o_isnan(x))

    def o_filled(self, x, fill_value=None):
        if fill_value is None:
            raise NoLayout("fill")
        return Nd(x.shape, [fill_value if m else c for c, m in zip(x.cells, x.mask or [False] * len(x.cells))])

    def o_nan_to_num(self, x, nan=0):
        return Nd(x.shape, [nan if c is NAN else c for c in x.cells])

    def o_nanmean(self, x, axis=None, keepdims=None):
        return reduce(x, axis, average(None, True, True)) if axis is not None and keepdims is None else bad("mean")
    o_ma_mean = o_nanmean

    def o_mean(self, x, axis=None, keepdims=None):
        return reduce(x, axis, average(None, False, x.mask is not None)) if axis is not None and keepdims is None else bad("mean")

    def o_ma_average(self, x, axis=None, weights=None):
        w = None if weights is None else nd(weights).cells
        return reduce(x, axis, average(w, False, True)) if axis is not None else bad("average")

    def o_average(self, x, axis=None, weights=None):
        return self.o_ma_average(x, axis, weights) if x.mask is None else bad("average of masked")

    def o_sum(self, x, axis=None):
        if isinstance(x, list):
            x = nd(x)

        def f(cells, mask):
            r = 0
            for c, m in zip(cells, mask):
                r = add(r, c) if not m else r
            return r
        if axis is None and len(x.shape) == 1 and x.mask is None:
            axis = 0          # the built-in sum and numpy's agree
        return reduce(x, axis, f) if axis is not None and x.mask is None else bad("sum")
