"""Which axis of an array means what: rearrangements of arrays with named axes, read from value numbers.
An array is a list of axes, each a tuple of named directions (the last varies fastest), and a content that does not depend on the
arrangement."""
from .vals import Term


class NoAxes(Exception):
    pass


class Arr:
    def __init__(self, axes, content, pending=None):
        self.axes, self.content, self.pending = [tuple(a) for a in axes], content, pending

    def __repr__(self):
        p = f" at each {'*'.join(self.pending)}" if self.pending else ""
        return f"{self.content}[{', '.join('*'.join(a) or '1' for a in self.axes)}]{p}"

    def __eq__(self, o):
        return isinstance(o, Arr) and (self.axes, self.content, self.pending) == (o.axes, o.content, o.pending)


def num(t):
    if type(t) is int:
        return t
    if isinstance(t, Term) and t.op == "c" and type(t.args[0]) is int:
        return t.args[0]
    if isinstance(t, Term) and t.op == "neg":
        return -num(t.args[0])
    raise NoAxes(f"number {t}")


class Axes:
    def __init__(self, leaves, rules):
        self.leaves = leaves          # term id -> Arr
        self.rules = rules            # op -> f(self, term)

    def size(self, t):
        """named directions whose product is a size"""
        if t.op in ("idx", "get") and t.args[0].op == "shape":
            return self.of(t.args[0].args[0]).axes[num(t.args[1])]
        if t.op == "len":
            return self.of(t.args[0]).axes[0]
        if t.op == "Mult":
            return tuple(x for a in t.args for x in self.size(a))
        raise NoAxes(f"size {t.op}")

    def of(self, t):
        if t.id in self.leaves:
            return self.leaves[t.id]
        if t.op in self.rules:
            return self.rules[t.op](self, t)
        f = getattr(self, "o_" + t.op.replace(".", "_").replace("*", "_all"), None)
        if f is None:
            raise NoAxes(t.op)
        pos = [x for x in t.args if not (isinstance(x, Term) and x.op == "kw")]
        kw = {x.args[0]: x.args[1] for x in t.args if isinstance(x, Term) and x.op == "kw"}
        return f(*pos, **kw)

    def o_array(self, x, **kw):
        return self.of(x)
    o_asarray = o_copy = o_ascontiguousarray = o_array

    def o_T(self, x):
        x = self.of(x)
        return Arr(x.axes[::-1], x.content, x.pending)

    def o_swapaxes(self, x, i, j):
        x = self.of(x)
        a = list(x.axes)
        a[num(i)], a[num(j)] = a[num(j)], a[num(i)]
        return Arr(a, x.content, x.pending)

    def o_transpose(self, x, *p, axes=None):
        x = self.of(x)
        if axes is not None:
            p = (axes,)
        if len(p) == 1 and p[0].op in ("tuple", "list"):
            p = p[0].args
        if not p:
            return Arr(x.axes[::-1], x.content, x.pending)
        return Arr([x.axes[num(k)] for k in p], x.content, x.pending)

    def o_moveaxis(self, x, a, b):
        x = self.of(x)
        ax = list(x.axes)
        n = len(ax)
        y = ax.pop(num(a) % n)
        ax.insert(num(b) % n, y)
        return Arr(ax, x.content, x.pending)

    def o_reshape(self, x, *dims, order=None, newshape=None, shape=None):
        dims = list(dims) or [k for k in (newshape, shape) if k is not None]
        if len(dims) == 2 and dims[1].op == "c" and isinstance(dims[1].args[0], str):
            order = dims.pop()
        if order is not None and not (order.op == "c" and order.args[0] in ("C", "F")):
            raise NoAxes("order")
        if len(dims) == 1 and dims[0].op in ("tuple", "list"):
            dims = list(dims[0].args)
        x = self.of(x)
        if order is not None and order.args[0] == "F":
            r = self.ravel(Arr(x.axes[::-1], x.content, x.pending), dims[::-1])
            return Arr(r.axes[::-1], r.content, r.pending)
        return self.ravel(x, dims)

    def ravel(self, x, dims):
        flat = [k for a in x.axes for k in a]
        want = [None if d.op == "c" and d.args[0] == -1 or d.op == "neg" else self.size(d) for d in dims]
        out, i = [], 0
        for k, w in enumerate(want):
            if w is not None:
                if tuple(flat[i:i + len(w)]) != tuple(w):
                    return Arr([("?",)] * len(want), ("scrambled", x.content), x.pending)
                out.append(w)
                i += len(w)
            else:
                rest = sum(len(y) for y in want[k + 1:] if y is not None)
                if None in want[k + 1:]:
                    raise NoAxes("two unknown sizes")
                j = len(flat) - rest
                out.append(tuple(flat[i:j]))
                i = j
        if i != len(flat):
            raise NoAxes("sizes")
        return Arr(out, x.content, x.pending)

    def o_elem(self, x):
        x = self.of(x)
        if x.pending:
            raise NoAxes("nested iteration")
        return Arr(x.axes[1:], x.content, x.axes[0])

    def o_idx(self, x, i):
        x = self.of(x)
        items = list(i.args) if i.op == "tuple" else [i]
        out, k, n = [], 0, len(x.axes)
        used = sum(1 for y in items if not (y.op == "c" and y.args[0] in (None, Ellipsis) or y.op == "x"))
        for y in items:
            if y.op == "c" and y.args[0] is Ellipsis:
                m = n - used
                out += x.axes[k:k + m]
                k += m
            elif y.op == "c" and y.args[0] is None or y.op == "x" and y.args[0].endswith("newaxis"):
                out.append(())
            elif y.op == "slice" and all(z.op == "c" and z.args[0] is None for z in y.args):
                out.append(x.axes[k])
                k += 1
            else:
                raise NoAxes("index")
        return Arr(out + x.axes[k:], x.content, x.pending)

    def o_expand_dims(self, x, axis):
        x = self.of(x)
        a = list(x.axes)
        a.insert(num(axis) % (len(a) + 1), ())
        return Arr(a, x.content, x.pending)

    def o_dstack_all(self, x):
        x = self.of(x)
        if not x.pending or len(x.axes) not in (2, 3) or len(x.axes) == 3 and x.axes[2] != ():
            raise NoAxes("dstack")
        return Arr(x.axes[:2] + [x.pending], x.content)

    def o_stack_all(self, x, axis=None):
        x = self.of(x)
        if not x.pending:
            raise NoAxes("stack")
        a = list(x.axes)
        k = 0 if axis is None else num(axis)
        a.insert(k % (len(a) + 1), x.pending)
        return Arr(a, x.content)

    def o_list_all(self, x):
        x = self.of(x)
        if not x.pending:
            raise NoAxes("list")
        return Arr([x.pending] + x.axes, x.content)

    def together(self, xs):
        """the parts of an array, all of them and in order"""
        raise NoAxes("stack")

    def o_vstack(self, *xs):
        name, c, axes = self.together(xs)
        return Arr([name + axes[0]] + axes[1:], c)

    def o_concatenate(self, *xs, axis=None):
        if xs[-1].op == "c":
            axis, xs = xs[-1], xs[:-1]
        if axis is not None and num(axis) != 0:
            raise NoAxes("axis")
        return self.o_vstack(*xs)

    def o_list(self, *xs):
        name, c, axes = self.together(xs)
        return Arr([name] + axes, c)
    o_tuple = o_list

    def o_stack(self, *xs, axis=None):
        if xs[-1].op == "c":
            axis, xs = xs[-1], xs[:-1]
        if axis is not None and num(axis) != 0:
            raise NoAxes("axis")
        return self.o_list(*xs)
