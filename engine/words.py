"""Normal forms of linear-algebra value numbers.

A value-number term over declared symbols (matrices, vectors, scalars) is brought into the form of a sum of words of matrices,
diagonal scalings and a final vector, modulo: associativity of the product, distribution of conjugation and transposition,
np.diag(v) @ M = v[:, None] * M and M @ np.diag(v) = M * v, merging of scalings, exact rational arithmetic of scalars and of
vectors elementwise, solve / lstsq / inv / pinv, and slicing of transposed matrices.  Two terms that reach the same form denote
the same value; a term that contains something the form does not cover has no form (None): nothing is concluded from it."""
from fractions import Fraction

from .poly import ONE, equal as requal, padd, pmul
from .vals import Term, T, fmt_term

RONE = (ONE, ONE)


class NoForm(Exception):
    pass


def rconst(c):
    return ({(): Fraction(c)} if c else {}), ONE


def radd(a, b, k=1):
    if a[1] == b[1]:
        return padd(a[0], b[0], k), a[1]
    return padd(pmul(a[0], b[1]), pmul(b[0], a[1]), k), pmul(a[1], b[1])


def rmul(a, b):
    return reduce_(pmul(a[0], b[0]), pmul(a[1], b[1]))


def rinv(a):
    if not a[0]:
        raise NoForm("division by zero")
    return a[1], a[0]


def reduce_(n, d):
    """cancel common monomial factors and the leading coefficient"""
    if len(n) == 0:
        return {}, ONE
    monos = list(n) + list(d)
    common = None
    for m in monos:
        c = {}
        for x in m:
            c[x] = c.get(x, 0) + 1
        common = c if common is None else {x: min(k, c.get(x, 0)) for x, k in common.items()}
    drop = [x for x, k in (common or {}).items() for _ in range(k)]

    def rm(m):
        m = list(m)
        for x in drop:
            m.remove(x)
        return tuple(m)
    n2 = {rm(m): c for m, c in n.items()}
    d2 = {rm(m): c for m, c in d.items()}
    lead = d2[min(d2)]
    return {m: c / lead for m, c in n2.items()}, {m: c / lead for m, c in d2.items()}


def lead(p):
    """leading coefficient in a monomial order (so that it is multiplicative)"""
    return p[max(p, key=lambda m: (len(m), m))]


class NF:
    """kind 's' (r) | 'v' (r, orient in 1,'c','r') | 'm' (list of (coef r, word), ndim 2 or 1)"""
    def __init__(self, kind, r=None, orient=1, words=None, ndim=2):
        self.kind, self.r, self.orient, self.words, self.ndim = kind, r, orient, words, ndim

    def __repr__(self):
        if self.kind == "s":
            return "s" + rrepr(self.r)
        if self.kind == "v":
            return f"v{self.orient}" + rrepr(self.r)
        if len(self.words) == 1 and requal(self.words[0][0], RONE) and len(self.words[0][1]) == 1 and self.ndim == 2:
            return lrepr(self.words[0][1][0])
        return f"m{self.ndim}[" + " + ".join(sorted(rrepr(c) + "".join(lrepr(x) for x in w) for c, w in self.words)) + "]"


def rrepr(r):
    if r[0] == ONE and r[1] == ONE:
        return "1"

    def p(x):
        return "+".join(f"{c if c != 1 or not m else ''}{'*'.join(ATOMS.get(i, str(i)) for i in m)}" for m, c in sorted(x.items()))
    return "(" + p(r[0]) + (")" if r[1] == ONE else f")/({p(r[1])})")


_short = {}
PILES = {}


def short(name):
    """long names are replaced by a number"""
    if len(name) < 240:
        return name
    if name not in _short:
        _short[name] = f"@{len(_short)}:{name[:40]}…"
    return _short[name]


ELEMENTWISE = ("sqrt", "exp", "log", "real", "imag", "abs", "absolute", "sign", "log2", "log10", "angle", "square", "sin", "cos")
SCALARS = set()
ATOMS = {}
_ids = {}


def atom(key):
    """number of an opaque elementwise atom"""
    key = short(key) if isinstance(key, str) else key
    if key not in _ids:
        _ids[key] = len(_ids)
        ATOMS[_ids[key]] = str(key)
    return _ids[key]


def lrepr(x):
    if x[0] == "A":
        return f"<{x[1]}{x[2]}>"
    if x[0] in ("D", "V"):
        return f"{x[0]}{rrepr(x[1])}"
    return f"<{x}>"


IMAG = atom("1j")


def restored(t):
    """reading the place that was just written; overwriting the place that was just written"""
    if t.op not in ("idx", "upd") or not all(isinstance(x, Term) for x in t.args):
        return t
    base, ix = t.args[:2]
    if base.op != "upd" or base.args[1] is not ix or ix.op == "part":
        return t
    if t.op == "upd":
        return T("upd", base.args[0], ix, t.args[2])
    v = base.args[2]
    while v.op == "upd":
        v = v.args[0]
    return base.args[2] if v.op == "idx" and v.args[1] is ix else t


class Former:
    def __init__(self, symbols, nosize=False):
        """symbols: term id -> (name, ndim, real); nosize: data-dependent slice bounds are all the same"""
        self.hermitian = set()
        self.nosize = nosize
        self.sym = symbols
        self.conjd = {}
        self.opaque = set()
        self.soft = set()          # texts of data-dependent sizes: may be written in several ways
        self.memo = {}

    # ---- public
    def form(self, t):
        try:
            return self.nf(t)
        except (NoForm, RecursionError) as e:
            self.why = str(e)
            return None

    def nf(self, t):
        if not isinstance(t, Term):
            raise NoForm("no term")
        if t.id not in self.memo:
            u = restored(t)
            self.memo[t.id] = self._nf(t) if u is t else self.nf(u)
        return self.memo[t.id]

    # ---- conjugation of elementwise atoms
    def cj(self, r):
        def p(x):
            return {tuple(sorted(i if i == IMAG else self.cja(i) for i in m)): c if m.count(IMAG) % 2 == 0 else -c
                    for m, c in x.items()}
        return p(r[0]), p(r[1])

    def split(self, r):
        """real and imaginary part, when everything but the imaginary unit is real"""
        if any(self.conjd.get(i) != i for p in r for m in p for i in m if i != IMAG) or any(IMAG in m for m in r[1]):
            return None
        re, im = {}, {}
        for m, c in r[0].items():
            n = m.count(IMAG)
            k = tuple(i for i in m if i != IMAG)
            d = im if n % 2 else re
            d[k] = d.get(k, 0) + (c if n % 4 < 2 else -c)
        return [({k: c for k, c in d.items() if c}, r[1]) for d in (re, im)]

    def cja(self, i):
        if i in self.conjd:
            return self.conjd[i]
        j = atom(f"conj({ATOMS[i]})")
        self.conjd[i] = j
        self.conjd[j] = i
        return j

    def real_atom(self, i):
        self.conjd[i] = i

    # ---- builders
    def letter(self, name, real, ndim):
        if ndim == 0 or ndim == 1:
            i = atom(name)
            if real:
                self.real_atom(i)
            if ndim == 0:
                SCALARS.add(i)
            r = ({(i,): Fraction(1)}, ONE)
            return NF("s", r) if ndim == 0 else NF("v", r, 1)
        return NF("m", words=[(RONE, (("A", name, "", real),))])

    def flip(self, x, how):
        """how: 'c' conj, 't' transpose"""
        if x.kind == "s":
            return NF("s", self.cj(x.r) if how == "c" else x.r)
        if x.kind == "v":
            if how == "c":
                return NF("v", self.cj(x.r), x.orient)
            return NF("v", x.r, {1: 1, "c": "r", "r": "c"}[x.orient])
        if how == "t" and x.ndim == 1:
            return x
        out = []
        for c, w in x.words:
            if how == "c":
                out.append((self.cj(c), tuple(self.lflip(y, "c") for y in w)))
            else:
                if any(y[0] == "V" for y in w):
                    raise NoForm("transpose of a vector word")
                out.append((c, tuple(self.lflip(y, "t") for y in reversed(w))))
        return NF("m", words=out, ndim=x.ndim)

    def lflip(self, y, how):
        if y[0] in ("D", "V"):
            return (y[0], self.cj(y[1])) if how == "c" else y
        if y[0] == "A":
            _, n, m, real = y
            s = set({"": "", "c": "c", "t": "t", "h": "ct"}[m])
            s ^= {how}
            if real:
                s.discard("c")
            m = {"": "", "c": "c", "t": "t", "ct": "h"}["".join(sorted(s))]
            if n in self.hermitian:
                m = {"h": "", "c": "t"}.get(m, m)
            return ("A", n, m, real)
        if y[0] == "1":
            return y
        raise NoForm(str(y))

    def clean(self, words):
        """merge adjacent scalings, drop identities, add equal words"""
        out = []
        for c, w in words:
            if not c[0]:
                continue
            ws = []
            for y in w:
                if y[0] in ("D", "V") and ws and ws[-1][0] == "D":
                    ws[-1] = (y[0], rmul(ws[-1][1], y[1]))
                else:
                    ws.append(y)
            # numeric factors of scalings move to the coefficient
            fin = []
            for y in ws:
                if y[0] == "D" and requal(y[1], RONE):
                    continue
                if y[0] == "D" and y[1][0]:
                    k, k2 = lead(y[1][0]), lead(y[1][1])
                    if k / k2 != 1:
                        c = rmul(c, rconst(k / k2))
                        y = ("D", ({m: x / k for m, x in y[1][0].items()}, {m: x / k2 for m, x in y[1][1].items()}))
                        if requal(y[1], RONE):
                            continue
                fin.append(y)
            for i, (c2, w2) in enumerate(out):
                if weq(tuple(fin), w2):
                    out[i] = (radd(c2, c), w2)
                    break
            else:
                out.append((c, tuple(fin)))
        return [(c, w) for c, w in out if c[0]]

    def mul(self, a, b):
        """elementwise product"""
        if a.kind != "s" and b.kind == "s":
            a, b = b, a
        if a.kind == "s":
            if b.kind == "s":
                return NF("s", rmul(a.r, b.r))
            if b.kind == "v":
                return NF("v", rmul(a.r, b.r), b.orient)
            return NF("m", words=self.clean([(rmul(a.r, c), w) for c, w in b.words]), ndim=b.ndim)
        if a.kind == "v" and b.kind == "v":
            if a.orient == b.orient:
                return NF("v", rmul(a.r, b.r), a.orient)
            o = {a.orient, b.orient}
            if o == {1, "r"}:
                return NF("v", rmul(a.r, b.r), "r")
            col, row = (a, b) if a.orient == "c" else (b, a)
            return NF("m", words=self.clean([(RONE, (("D", col.r), ("1",), ("D", row.r)))]))
        if a.kind == "m" and b.kind == "v":
            a, b = b, a
        if a.kind == "v":
            if b.ndim == 1:
                if a.orient == "c":
                    raise NoForm("column times vector")
                return NF("m", words=self.clean([(c, (("D", a.r),) + w) for c, w in b.words]), ndim=1)
            if a.orient == "c":
                return NF("m", words=self.clean([(c, (("D", a.r),) + w) for c, w in b.words]))
            return NF("m", words=self.clean([(c, w + (("D", a.r),)) for c, w in b.words]))
        if a.ndim == b.ndim == 2:
            # multiplication by a pattern of ones scaled from both sides
            for x, y in ((a, b), (b, a)):
                if len(x.words) == 1 and all(q[0] in ("D", "1") for q in x.words[0][1]) and \
                        sum(q[0] == "1" for q in x.words[0][1]) == 1:
                    c, w = x.words[0]
                    k = [q[0] for q in w].index("1")
                    return NF("m", words=self.clean([(rmul(c, c2), w[:k] + w2 + w[k + 1:]) for c2, w2 in y.words]))
            return self.box("had", sorted([repr(a), repr(b)]), 2)
        raise NoForm("elementwise product")

    def box(self, op, parts, ndim, real=False):
        self.opaque.add(op)
        return self.letter(short(f"{op}({','.join(parts)})"), real, ndim)

    def as_words(self, x, last):
        if x.kind == "m":
            return x.words, x.ndim
        if x.kind == "v" and x.orient == 1 and last:
            return [(RONE, (("V", x.r),))], 1
        if x.kind == "v" and x.orient == "c":
            return [(RONE, (("D", x.r), ("1",)))], 2
        if x.kind == "v" and x.orient == "r":
            return [(RONE, (("1",), ("D", x.r)))], 2
        if x.kind == "s" and requal(x.r, RONE):
            return [(RONE, ())], 2
        raise NoForm("operand of a product")

    def dot(self, xs):
        words, nd = self.as_words(xs[-1], True)
        if nd == 1 and xs[-1].kind == "m":
            pass
        for x in reversed(xs[:-1]):
            if x.kind == "s":
                words = [(rmul(x.r, c), w) for c, w in words]
                continue
            w1, n1 = self.as_words(x, False)
            if n1 != 2:
                raise NoForm("vector on the left of a product")
            words = [(rmul(c1, c2), a + b) for c1, a in w1 for c2, b in words]
        words = self.clean(words)
        return NF("m", words=words, ndim=nd)

    def add(self, a, b, k=1):
        if a.kind == "s" and b.kind == "s":
            return NF("s", radd(a.r, b.r, k))
        if a.kind == b.kind == "v":
            if a.orient == b.orient:
                return NF("v", radd(a.r, b.r, k), a.orient)
            raise NoForm("sum of differently oriented vectors")
        if a.kind == "v" and b.kind == "s" or a.kind == "s" and b.kind == "v":
            return NF("v", radd(a.r, b.r, k), a.orient if a.kind == "v" else b.orient)
        ndim = a.ndim if a.kind == "m" else b.ndim

        def w(x):
            if x.kind == "m":
                return x.words
            if ndim == 1:
                if x.kind == "v" and x.orient == 1:
                    return [(RONE, (("V", x.r),))]
                if x.kind == "s":
                    return [(x.r, (("V", RONE),))]
                raise NoForm("sum")
            if x.kind == "s":
                return [(x.r, (("1",),))]
            if x.orient == "c":
                return [(RONE, (("D", x.r), ("1",)))]
            return [(RONE, (("1",), ("D", x.r)))]
        if a.kind == b.kind == "m" and a.ndim != b.ndim:
            raise NoForm("sum of matrix and vector")
        return NF("m", words=self.clean(w(a) + [(rmul(rconst(k), c), y) for c, y in w(b)]), ndim=ndim)

    def recip(self, a):
        if a.kind in ("s", "v"):
            return NF(a.kind, rinv(a.r), a.orient)
        return self.box("recip", [repr(a)], a.ndim)

    def elem(self, op, a):
        """an elementwise function"""
        real = op in ("real", "imag", "abs")
        self.opaque.add(op)
        if a.kind in ("s", "v"):
            if requal(a.r, RONE) and op in ("sqrt", "abs", "real"):
                return a
            if op in ("real", "imag") and self.split(a.r) is not None:
                return NF(a.kind, self.split(a.r)[op == "imag"], a.orient)
            i = atom(f"{op}{rrepr(a.r)}")
            if real or self.is_real(a.r) and op in ("sqrt", "exp", "square"):
                self.real_atom(i)
            return NF(a.kind, ({(i,): Fraction(1)}, ONE), a.orient)
        return self.box(op, [repr(a)], a.ndim, real)

    def is_real(self, r):
        return all(self.conjd.get(i) == i for p in r for m in p for i in m)

    # ---- terms
    def _nf(self, t):
        if t.id in self.sym:
            return self.letter(*self.symbol(t.id))
        op, a = t.op, t.args
        if op == "c":
            v = a[0]
            if isinstance(v, complex) and v == v and abs(v) < 1e300:
                d = {k: c for k, c in (((), Fraction(v.real)), ((IMAG,), Fraction(v.imag))) if c}
                return NF("s", (d, ONE))
            if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v:
                raise NoForm("constant")
            return NF("s", rconst(Fraction(v)))
        if op == "x" and a[0] in ("numpy.pi", "math.pi"):
            i = atom("pi")
            self.real_atom(i)
            return NF("s", ({(i,): Fraction(1)}, ONE))
        if op in ("asarray", "array", "copy", "ascontiguousarray", "asanyarray") and len(a) == 1:
            return self.nf(a[0])
        if op in ("tuple", "list"):
            return self.rows(a)
        if op == "stack":
            pos, ax = [x for x in a if x.op != "kw"], T("c", 0)
            if len(pos) > 1 and pos[-1].op == "c":
                ax = pos.pop()
            for x in a:
                if x.op == "kw" and x.args[0] == "axis":
                    ax = x.args[1]
                elif x.op == "kw":
                    raise NoForm("stack")
            if len(pos) == 1 and pos[0].op in ("tuple", "list"):
                pos = pos[0].args
            r = T("array", T("tuple", *pos))
            if ax.op != "c" or ax.args[0] not in (0, 1, -1) or len(pos) < 2:
                raise NoForm("stack")
            return self.nf(r if ax.args[0] == 0 else T("T", r))
        if op == "reshape" and len(a) >= 2 and not any(x.op == "kw" for x in a):
            dims = list(a[1].args) if len(a) == 2 and a[1].op == "tuple" else list(a[1:])
            own = T("shape", a[0])
            if len(dims) == 1 and (dims[0] is T("c", -1) or dims[0] is T("attr", a[0], "size") or dims[0] is T("size", a[0])):
                return self.nf(T("flatten", a[0]))
            if len(dims) == 2:
                m1, m2 = dims
                last = m2.op == "idx" and m2.args[0] is own and m2.args[1] in (T("c", -1), T("c", 1))
                first = m1.op == "idx" and m1.args[0] is own and m1.args[1] in (T("c", -2), T("c", 0)) or m1 is T("len", a[0])
                if last and (first or m1 is T("c", -1)) or first and m2 is T("c", -1):
                    x = self.nf(a[0])
                    if x.kind == "m" and x.ndim == 2 or x.kind == "v" and x.orient != 1:
                        return x
                    raise NoForm(op)
                if m1.op == "c" and m1.args[0] == -1 and m2 is T("c", 1) or m2.op == "c" and m2.args[0] == -1 and m1 is T("c", 1):
                    x = self.nf(a[0])
                    if x.kind == "v" and x.orient == 1:
                        return NF("v", x.r, "c" if m2 is T("c", 1) else "r")
        if op == "upd":
            return self.updated(t)
        if op in ("cumsum", "sort", "flip", "flipud", "fliplr", "triu", "tril", "median", "searchsorted", "qr.Q", "qr.R", "rq.R", "rq.Q",
                  "rot90", "trace", "roll", "diff", "kron", "toeplitz", "hankel", "fft", "ifft", "fft2", "ifft2", "count_nonzero"):
            pos = [x for x in a if x.op != "kw"]
            kws = sorted(f"{x.args[0]}={x.args[1]!r}" for x in a if x.op == "kw")
            xs = [self.nf(x) for x in pos]
            nd = {"median": 0, "trace": 0, "searchsorted": 0, "count_nonzero": 0}.get(op)
            if nd is None:
                nd = 1 if xs[0].kind == "v" or xs[0].ndim == 1 and xs[0].kind == "m" else 2
            if kws and nd != 0 and op in ("cumsum", "median"):
                raise NoForm(op)
            real = op in ("searchsorted", "count_nonzero") or all(x.kind in "sv" and self.is_real(x.r) for x in xs)
            return self.box(op, [repr(x) for x in xs] + kws, nd, real)
        if op in ("repeat", "broadcast_to", "tile"):
            # a vector repeated along the other axis: broadcasting makes this the vector itself
            kws = {x.args[0]: x.args[1] for x in a if x.op == "kw"}
            pos = [x for x in a if x.op != "kw"]
            x = self.nf(pos[0])
            ax = kws.get("axis", pos[2] if len(pos) > 2 else None)
            if op == "repeat" and x.kind == "v" and (x.orient, ax) in (("c", T("c", 1)), ("r", T("c", 0))):
                return x
            if op == "broadcast_to" and x.kind == "v" and x.orient in ("c", "r"):
                return x
            if op == "tile" and x.kind == "v" and len(pos) == 2 and pos[1].op == "tuple" and len(pos[1].args) == 2:
                k = pos[1].args
                if x.orient == "c" and k[0] is T("c", 1) or x.orient in (1, "r") and k[1] is T("c", 1):
                    return NF("v", x.r, "c" if x.orient == "c" else "r")
            raise NoForm(op)
        if op in ("arange", "linspace"):
            self.opaque.add(op)
            xs = [self.nf(x) for x in a if x.op != "kw"]
            if any(x.kind != "s" for x in xs) or any(x.op == "kw" for x in a):
                raise NoForm(op)
            if op == "arange" and len(xs) == 1:
                xs = [NF("s", rconst(0))] + xs
            if op == "arange" and len(xs) == 2:
                xs.append(NF("s", rconst(1)))
            return self.letter(short(f"{op}({','.join(map(repr, xs))})"), True, 1)
        if op in ("atleast_1d", "atleast_2d", "squeeze") and len(a) == 1:
            x = self.nf(a[0])
            if x.kind == "m" and (x.ndim == 2 or op == "atleast_1d") or x.kind == "v" and op != "atleast_2d" and x.orient == 1:
                return x
            raise NoForm(op)
        if op in ("eye", "identity") and len(a) == 1:
            return NF("m", words=[(RONE, ())])
        if op in ("flatten", "ravel") and len(a) == 1:
            x = self.nf(a[0])
            if x.kind == "v":
                return NF("v", x.r, 1)
            if x.kind == "m":
                return x if x.ndim == 1 else self.box("flatten", [repr(x)], 1)
            raise NoForm(op)
        if op in ("Add", "add"):
            if any(x.op in ("zeros", "zeros_like") for x in a) and not all(x.op in ("zeros", "zeros_like") for x in a):
                # an accumulator of the shape of what is added to it
                a = [x for x in a if x.op not in ("zeros", "zeros_like")]
            r = self.nf(a[0])
            for x in a[1:]:
                r = self.add(r, self.nf(x))
            return r
        if op in ("Sub", "subtract"):
            return self.add(self.nf(a[0]), self.nf(a[1]), -1)
        if op in ("neg", "negative", "USub"):
            return self.mul(NF("s", rconst(-1)), self.nf(a[0]))
        if op in ("Mult", "multiply"):
            xs = [self.nf(x) for x in a]
            scal = [x for x in xs if x.kind == "s"]
            vecs = [x for x in xs if x.kind == "v"]
            r = None
            for x in [x for x in xs if x.kind == "m"] + vecs + scal:
                r = x if r is None else self.mul(r, x)
            return r
        if op in ("Div", "divide", "true_divide"):
            return self.mul(self.nf(a[0]), self.recip(self.nf(a[1])))
        if op in ("recip", "reciprocal"):
            return self.recip(self.nf(a[0]))
        if op in ("Pow", "power"):
            b, e = self.nf(a[0]), self.nf(a[1])
            if e.kind == "s" and e.r[1] == ONE and set(e.r[0]) <= {()}:
                k = e.r[0].get((), Fraction(0))
                if b.kind in ("s", "v"):
                    half = k.denominator == 2
                    if k.denominator in (1, 2) and abs(k) <= 4:
                        base = self.elem("sqrt", b) if half else b
                        n = int(k * 2) if half else int(k)
                        r = RONE
                        for _ in range(abs(n)):
                            r = rmul(r, base.r)
                        return NF(b.kind, rinv(r) if n < 0 else r, b.orient)
            if b.kind == "m":
                return self.box("pow", [repr(b), repr(e)], b.ndim)
            if e.kind == "s" or e.kind == "v" and b.kind == "v" and e.orient == b.orient or b.kind == "s":
                i = atom(f"pow({rrepr(b.r)},{rrepr(e.r)})")
                return NF("v" if "v" in (b.kind, e.kind) else "s", ({(i,): Fraction(1)}, ONE),
                          b.orient if b.kind == "v" else e.orient)
            return self.box("pow", [repr(b), repr(e)], 2)
        if op in ("T", "transpose") and len(a) == 1:
            return self.flip(self.nf(a[0]), "t")
        if op in ("conj", "conjugate"):
            return self.flip(self.nf(a[0]), "c")
        if op == "H":
            return self.flip(self.flip(self.nf(a[0]), "t"), "c")
        if op in ("dot", "matmul", "MatMult"):
            return self.dot([self.nf(x) for x in a])
        if op == "diag" and len(a) == 1:
            x = self.nf(a[0])
            if x.kind == "v" and x.orient == 1:
                return NF("m", words=self.clean([(RONE, (("D", x.r),))]))
            if x.kind == "m" and x.ndim == 1 and len(x.words) == 1 and len(x.words[0][1]) == 1:
                return NF("m", words=self.clean([(x.words[0][0], (("D", x.words[0][1][0][1]),))]))
            if x.kind == "m" and x.ndim == 2:
                return self.box("diagof", [repr(x)], 1)
            raise NoForm("diag")
        if op == "outer" and len(a) == 2:
            x, y = self.nf(a[0]), self.nf(a[1])
            if x.kind == y.kind == "v":
                return NF("m", words=self.clean([(RONE, (("D", x.r), ("1",), ("D", y.r)))]))
            raise NoForm("outer")
        if op in ELEMENTWISE:
            if op == "square":
                x = self.nf(a[0])
                return self.mul(x, x)
            return self.elem({"absolute": "abs"}.get(op, op), self.nf(a[0]))
        if op in ("linalg.eigvals", "eigvals"):
            return self.nf(T("eig.w", a[0]))
        if op in ("linalg.inv", "inv"):
            return self.inv(self.nf(a[0]), "inv")
        if op in ("linalg.pinv", "pinv"):
            return self.inv(self.nf(a[0]), "pinv")
        if op in ("linalg.solve", "solve") and len(a) == 2:
            return self.dot([self.inv(self.nf(a[0]), "inv"), self.nf(a[1])])
        if op in ("lstsq", "linalg.lstsq"):
            q = [x for x in a if x.op != "kw"]
            return self.dot([self.inv(self.nf(q[0]), "pinv"), self.nf(q[1])])
        if op in ("get", "idx") and isinstance(a[0], Term) and a[0].op.endswith("lstsq"):
            i = a[1].args[0] if isinstance(a[1], Term) else a[1]
            if i == 0:
                q = [x for x in a[0].args if x.op != "kw"]
                return self.dot([self.inv(self.nf(q[0]), "pinv"), self.nf(q[1])])
        if op in ("get", "idx") and isinstance(a[0], Term) and a[0].op in ("linalg.eig", "eig", "linalg.eigh", "eigh", "linalg.svd", "svd"):
            i = a[1].args[0] if isinstance(a[1], Term) else a[1]
            q = [x for x in a[0].args if x.op != "kw"]
            o = a[0].op.rsplit(".", 1)[-1]
            if o == "svd":
                return self.nf(T(("svd.U", "svd.s", "svd.Vh")[i], q[0]))
            return self.nf(T(("eig.w", "eig.v")[i], q[0]))
        if op in ("eig.w", "eig.v", "eig.vl", "svd.U", "svd.s", "svd.Vh"):
            return self.box(op, [repr(self.nf(a[0]))], 1 if op in ("eig.w", "svd.s") else 2, real=op == "svd.s")
        if op in ("get", "idx") and isinstance(a[0], Term) and a[0].op == "shape":
            return self.size(t)
        if op in ("get", "idx") and isinstance(a[0], Term):
            return self.index(t)
        if op == "len" or op in ("idx", "get") and isinstance(a[0], Term) and a[0].op == "shape":
            return self.size(t)
        if op in ("min", "max", "minimum", "maximum", "size", "linalg.matrix_rank", "matrix_rank", "FloorDiv", "int", "round", "ceil",
                  "floor", "Mod"):
            xs = [self.nf(x) for x in a if x.op != "kw"]
            if op in ("min", "max", "minimum", "maximum"):
                if len(xs) == 1 or any(x.kind != "s" for x in xs):
                    raise NoForm(op)
                rs = sorted({repr(x) for x in xs})
                txt = f"{op[:3]}({','.join(rs)})"
            else:
                txt = f"{op}({','.join(map(repr, xs))})"
            self.opaque.add(op[:3] if op[:3] in ("min", "max") else op)
            return self.scalar(txt, soft=op in ("size", "matrix_rank", "linalg.matrix_rank") or any(x in txt for x in self.soft))
        if op in ("vstack", "hstack", "append", "concatenate", "row_stack", "column_stack", "block"):
            return self.stack(t)
        if op == "vander":
            return self.box("vander", [repr(self.nf(a[0]))] + [repr(x) if x.op == "c" else repr(self.nf(x)) for x in a[1:]], 2)
        if op in ("block_diag", "linalg.block_diag"):
            xs = [self.nf(x) for x in a]
            if all(x.kind == "m" and x.ndim == 2 for x in xs):
                return self.pile("block_diag", xs, 2)
            raise NoForm(op)
        if op in ("sqrtm", "linalg.sqrtm", "expm", "logm") or op.startswith("fn:"):
            xs = [self.nf(x) if isinstance(x, Term) else x for x in a]
            return self.box(op, [repr(x) for x in xs], 2)
        if op in ("mean", "sum", "linalg.norm", "norm", "std", "var", "average", "amax", "amin", "nansum", "nanmean", "prod"):
            pos = [x for x in a if x.op != "kw"]
            kws = {x.args[0]: x.args[1] for x in a if x.op == "kw"}
            name = {"average": "mean", "linalg.norm": "norm"}.get(op, op)
            if name == "norm" and "axis" in kws and len(pos) <= 2:
                o = kws.pop("ord", None) if len(pos) == 1 else pos[1]
                if o is None or o.op == "c" and o.args[0] in (None, 2):
                    return self.nf(T("sqrt", T("sum", T("Pow", T("abs", pos[0]), T("c", 2)), *[T("kw", k, v) for k, v in sorted(kws.items())])))
            if len(pos) > 2 or set(kws) - {"axis", "keepdims"} or name == "norm" and len(pos) > 1:
                raise NoForm(op)
            ax = kws.get("axis", pos[1] if len(pos) > 1 else None)
            kd = kws.get("keepdims")
            if kd is not None and kd not in (T("c", True), T("c", False)):
                raise NoForm("keepdims")
            kd = kd is T("c", True)
            if name == "sum" and pos[0].op in ("list", "tuple") and pos[0].args and not kd and ax is T("c", 0):
                xs = [self.nf(x) for x in pos[0].args]
                if all(x.kind == "m" and x.ndim == 2 for x in xs):
                    r = xs[0]
                    for x in xs[1:]:
                        r = self.add(r, x)
                    return r
            x = self.nf(pos[0])
            mat = x.kind == "m" and x.ndim == 2
            real = name == "norm" or x.kind in ("s", "v") and self.is_real(x.r)
            if ax is None or ax is T("c", None):
                if kd and x.kind == "v":
                    raise NoForm("keepdims of a vector")
                return self.box(name, [repr(x)], 0, real)
            if ax.op != "c" or not isinstance(ax.args[0], int):
                raise NoForm("axis")
            k = ax.args[0]
            if not mat:
                if x.kind == "v" and x.orient == 1 and k in (0, -1) and not kd:
                    return self.box(name, [repr(x)], 0, real)
                raise NoForm(op)
            k %= 2
            v = self.box(name, [repr(x), f"axis{k}"], 1, real)
            return NF("v", v.r, "c" if k == 1 else "r") if kd else v
        raise NoForm(op)

    dims = {}

    def scalar(self, txt, soft=False):
        if txt in self.dims:
            txt, soft = self.dims[txt], False
        i = atom(txt)
        SCALARS.add(i)
        self.real_atom(i)
        if soft:
            self.soft.add(txt)
        return NF("s", ({(i,): Fraction(1)}, ONE))

    def size(self, t):
        """length of an axis: rows belong to the first letter of a word, columns to the last"""
        if t.op == "len":
            base, k = t.args[0], 0
        else:
            base, k = t.args[0].args[0], (t.args[1].args[0] if isinstance(t.args[1], Term) else t.args[1])
        if not isinstance(k, int):
            raise NoForm("shape index")
        x = self.nf(base)
        if x.kind == "v" and x.orient == 1:
            return self.scalar("len" + rrepr(x.r), soft=True)
        if x.kind == "m" and x.ndim == 2 and k in (0, 1, -1, -2):
            k %= 2
            for c, w in x.words[:1]:
                ls = [y for y in (w if k == 0 else reversed(w)) if y[0] == "A"]
                if not ls:
                    break
                y = ls[0]
                if y[0] == "A":
                    ax = k if y[2] in ("", "c") else 1 - k
                    return self.scalar(f"size({y[1]},{ax})", soft=True)
        raise NoForm("size")

    def stack(self, t):
        op, a = t.op, [x for x in t.args if x.op != "kw"]
        kw = {x.args[0]: x.args[1] for x in t.args if x.op == "kw"}
        axis = kw.get("axis")
        if op == "append":
            if len(a) == 3:
                axis = a[2]
            parts = a[:2]
        elif len(a) == 1 and a[0].op in ("tuple", "list"):
            parts = list(a[0].args)
        elif op in ("vstack", "hstack", "concatenate") and len(a) >= 2 and all(x.op != "c" for x in a):
            parts = a
        elif op == "concatenate" and len(a) == 2 and a[0].op in ("tuple", "list"):
            parts, axis = list(a[0].args), a[1]
        elif op in ("append", "concatenate") and len(a) >= 3 and a[-1].op == "c":
            parts, axis = a[:-1], a[-1]
        else:
            raise NoForm(op)
        if op in ("vstack", "row_stack"):
            ax = 0
        elif op in ("hstack", "column_stack"):
            ax = 1
        elif axis is not None and axis.op == "c" and axis.args[0] in (0, 1, -1):
            ax = axis.args[0] % 2
        elif op == "concatenate" and axis is None:
            ax = 0
        elif op == "append" and axis is None:
            xs = []
            for x in parts:
                try:
                    y = self.nf(x)
                except NoForm:
                    if x.op != "zeros":
                        raise
                    xs.append("zeros")
                    continue
                xs.append(repr(y if y.kind == "s" else self.nf(T("flatten", x))))
            return self.box("join", xs, 1)
        else:
            raise NoForm("axis")
        xs = [NF("m", words=[]) if x.op == "zeros" and op in ("hstack", "vstack") and x.args[0].op == "tuple" and len(x.args[0].args) == 2 else self.nf(x)
              for x in parts]
        if op in ("concatenate", "append", "hstack") and (ax == 0 or op == "hstack") and \
                all(x.kind == "m" and x.ndim == 1 or x.kind == "v" and x.orient == 1 for x in xs):
            return self.pile("join", xs, 1)
        xs = [NF("m", words=self.as_words(x, False)[0]) if x.kind == "v" and x.orient != 1 else x for x in xs]
        if op == "vstack":
            xs = [NF("m", words=[(RONE, (("1",), ("D", x.r)))]) if x.kind == "v" and x.orient == 1 else x for x in xs]
        if op in ("vstack", "row_stack", "column_stack") and all(x.kind == "m" and x.ndim == 1 for x in xs):
            r = T("array", T("tuple", *parts))
            return self.nf(T("T", r) if op == "column_stack" else r)
        if any(x.kind != "m" or x.ndim != 2 for x in xs):
            raise NoForm("stack of vectors")
        return self.pile("vstack" if ax == 0 else "hstack", xs, 2)

    def rows(self, parts):
        """the matrix whose rows are the given vectors"""
        xs = [self.nf(x) for x in parts]
        if len(xs) < 2 or any(not (x.kind == "m" and x.ndim == 1 or x.kind == "v" and x.orient == 1) for x in xs):
            raise NoForm("array of a sequence")
        return self.box("rows", [repr(x) for x in xs], 2)

    def pile(self, op, xs, ndim):
        """parts put one after the other: stacking is associative"""
        if len(xs) == 1:
            return xs[0]
        parts = []
        for x in xs:
            k = PILES.get(repr(x))
            parts += k[1] if k and k[0] == op else [repr(x)]
        r = self.box(op, parts, ndim)
        PILES[repr(r)] = (op, parts)
        return r

    def inv(self, x, op):
        if x.kind == "s":
            return self.recip(x)
        if x.kind == "m" and x.ndim == 2:
            if len(x.words) == 1:
                c, w = x.words[0]
                if all(y[0] == "D" for y in w):
                    return NF("m", words=self.clean([(rinv(c), tuple(("D", rinv(y[1])) for y in reversed(w)))]))
                if len(w) == 1 and w[0][0] == "A":
                    # (p)inverse commutes with conjugation and transposition
                    _, n, m, real = w[0]
                    return NF("m", words=[(rinv(c), (("A", f"{op}({n})", m, real),))])
            self.opaque.add(op)
            # (p)inverse commutes with conjugation and transposition
            _, how = min((repr(y), m) for m, y in self.flips(x))
            y = dict(self.flips(x))[how]
            name = short(f"{op}({y!r})")
            if repr(dict(self.flips(y)).get("tc")) == repr(y):
                self.hermitian.add(name)
            r = self.letter(name, False, 2)
            for m in how:
                r = self.flip(r, m)
            return r
        raise NoForm(op)

    def flips(self, x):
        """a matrix, its transpose, conjugate and adjoint"""
        out = [("", x)]
        for m in ("t", "c", "tc"):
            try:
                y = x
                for k in m:
                    y = self.flip(y, k)
                out.append((m, y))
            except NoForm:
                pass
        return out

    def symbol(self, tid):
        name, ndim, real = self.sym[tid]
        return name, real, ndim

    def stored(self, base, parts):
        """what was stored at these positions, as a term"""
        while base.op == "upd" and base.args[1].op != "part":
            old, ix, v = base.args
            ks = list(ix.args) if ix.op == "tuple" else [ix]
            n = max(len(ks), len(parts))
            everything = T("slice", T("c", None), T("c", None), T("c", None))
            a, b = [x + [everything] * (n - len(x)) for x in (ks, list(parts))]
            if not all(isinstance(x, Term) and (x.op == "slice" or x.op == "c" and type(x.args[0]) is int) for x in a + b):
                return None
            if all(x is y for x, y in zip(a, b)):
                free = sum(x.op == "slice" for x in a)
                f = self.nf(v)
                got = {"s": 0, "v": 1 if f.orient == 1 else 2}.get(f.kind, f.ndim)
                return v if got == free else None
            if not any(apart(x, y) for x, y in zip(a, b)):
                return None
            base = old
        return None

    def index(self, t):
        base, ix = t.args
        parts = list(ix.args) if isinstance(ix, Term) and ix.op == "tuple" else [ix]
        for n, p in enumerate(parts):
            ms = self.chain(p) if isinstance(p, Term) and p.op == "upd" else None
            if ms is not None and all(self.everything(k) for i, k in enumerate(parts) if i != n and isinstance(k, Term)):
                y = base
                for m in ms:
                    y = T("idx", y, T("tuple", *parts[:n], m, *parts[n + 1:]) if len(parts) > 1 else m)
                if not ms:
                    return self.nf(base)
                if ms != [p]:
                    return self.nf(y)
        if isinstance(base, Term) and base.op == "squeeze" and len(base.args) == 1:
            keep = set(self.opaque), set(self.soft)
            self.nf(base)
            self.opaque, self.soft = keep
            base = base.args[0]
        if isinstance(base, Term) and base.op in ELEMENTWISE and len(base.args) == 1:
            return self.nf(T(base.op, T("idx", base.args[0], ix)))
        if isinstance(base, Term) and base.op == "upd" and base.args[1].op != "part":
            r = self.stored(base, parts)
            if r is not None:
                return self.nf(r)
        x = self.nf(base)
        kinds = []
        for p in parts:
            if not isinstance(p, Term):
                p = T("c", p)
            if p.op == "slice":
                kinds.append(("s", p))
            elif p.op == "full" and p.args[1:2] == (T("c", True),) or p.op == "ones_mask" or self.full is not None and self.full(p):
                kinds.append(("s", "::"))
            elif p.op == "c" and p.args[0] is None or p.op == "x" and str(p.args[0]).endswith("newaxis"):
                kinds.append(("n", None))
            elif p.op == "c" and p.args[0] is Ellipsis:
                kinds.append(("e", None))
            elif p.op == "c" and isinstance(p.args[0], int):
                kinds.append(("i", repr(p.args[0])))
            elif p.id in self.sym and self.sym[p.id][1] == 0:
                kinds.append(("i", repr(self.nf(p))))
            elif self.selector(p) is not None:
                kinds.append(("s", self.selector(p)))
            else:
                raise NoForm("index")
        axis = 0
        for n, k in enumerate(kinds):
            if k[0] == "s" and isinstance(k[1], Term):
                kinds[n] = ("s", self.slice_(k[1], base, axis))
            if k[0] in "si":
                axis += 1
            if k[0] == "e":
                axis = -1000
        nd = 0 if x.kind == "s" else (2 if x.kind == "m" and x.ndim == 2 or x.kind == "v" and x.orient != 1 else 1)
        real_parts = [k for k in kinds if k[0] not in "ne"]
        if any(k[0] == "e" for k in kinds):
            i = [k[0] for k in kinds].index("e")
            kinds[i:i + 1] = [("s", "::")] * (nd - len(real_parts))
        else:
            kinds += [("s", "::")] * (nd - len(real_parts))
        if all(k[0] == "n" or k == ("s", "::") for k in kinds):
            ns = [k[0] for k in kinds]
            if ns.count("n") == 0:
                return x
            if x.kind == "v" and x.orient == 1 and ns in (["s", "n"], ["n", "s"]):
                return NF("v", x.r, "c" if ns[0] == "s" else "r")
            if x.kind == "m" and x.ndim == 1 and ns in (["s", "n"], ["n", "s"]) and len(x.words) == 1:
                raise NoForm("new axis of a product")
            raise NoForm("new axis")
        if any(k[0] == "n" for k in kinds):
            raise NoForm("mixed index")
        return self.take(x, kinds)

    def take(self, x, kinds):
        out = sum(k[0] == "s" for k in kinds)
        if x.kind == "v" and x.orient == 1:
            return self.each_atom(x, kinds[0], out)
        if x.kind == "m" and x.ndim == 2 and len(x.words) > 1:
            r = None
            for c, w in x.words:
                y = self.take(NF("m", words=[(c, w)]), list(kinds))
                r = y if r is None else self.add(r, y)
            return r
        if x.kind == "m" and x.ndim == 2 and len(x.words) == 1 and len(x.words[0][1]) >= 1:
            c, w = x.words[0]
            w = list(w)
            full = ("s", "::")
            if all(y[0] == "D" for y in w):
                if len(w) == 1 and kinds[0] == kinds[1] and kinds[0][0] == "s":
                    return NF("m", words=self.clean([(c, (("D", self.each_atom(NF("v", w[0][1]), kinds[0], 1).r),))]))
                raise NoForm("slice of a scaling")
            # rows belong to the first letter, columns to the last
            i, j = 0, len(w) - 1
            while w[i][0] == "D" and kinds[0] != full:
                if kinds[0][0] != "s":
                    raise NoForm("row of a scaling")
                w[i] = ("D", self.each_atom(NF("v", w[i][1]), kinds[0], 1).r)
                i += 1
            while w[j][0] == "D" and kinds[1] != full:
                if kinds[1][0] != "s":
                    raise NoForm("column of a scaling")
                w[j] = ("D", self.each_atom(NF("v", w[j][1]), kinds[1], 1).r)
                j -= 1
            if i == j:
                w[i] = self.slice_letter(w[i], kinds[0], kinds[1])
            else:
                w[i] = self.slice_letter(w[i], kinds[0], full)
                w[j] = self.slice_letter(w[j], full, kinds[1])
            if any(k[0] == "i" for k in kinds):
                if sum(k[0] == "i" for k in kinds) == 1 and len(w) == 1 and w[0][0] == "A":
                    v = self.letter(w[0][1], w[0][3], 1)
                    return self.mul(NF("s", c), self.flip(v, "c") if w[0][2] in ("c", "h") else v)
                raise NoForm("row of a product")
            return NF("m", words=[(c, tuple(w))])
        raise NoForm("index of a sum")

    def updated(self, t):
        """an array filled by assignments to disjoint parts"""
        parts = []
        base, ix, v = t.args
        if ix.op == "part":
            re_im = {}
            while base.op == "upd" and base.args[1].op == "part":
                re_im.setdefault(base.args[1].args[0], base.args[2])
                base = base.args[0]
            re_im[ix.args[0]] = v
            a, b = [re_im.get(k) or T(k, base) for k in ("real", "imag")]
            return self.nf(T("Add", a, T("Mult", T("c", 1j), b)))
        ks = list(ix.args) if ix.op == "tuple" else [ix]
        if all(self.everything(k) for k in ks):
            if base.op in ("zeros_like", "empty_like", "ones_like"):
                try:
                    a, b = self.nf(base.args[0]), self.nf(v)
                    if repr((a.kind, a.ndim if a.kind == "m" else a.orient)) == repr((b.kind, b.ndim if b.kind == "m" else b.orient)):
                        return b
                except NoForm:
                    pass
            try:
                a, b = self.nf(base), self.nf(v)
            except NoForm:
                a = b = None
            if a is not None and (a.kind, a.ndim if a.kind == "m" else a.orient if a.kind == "v" else 0) == \
                    (b.kind, b.ndim if b.kind == "m" else b.orient if b.kind == "v" else 0):
                return b
        try:
            # storing what is there already
            if repr(self.nf(v)) == repr(self.nf(T("idx", base, ix))):
                return self.nf(base)
        except NoForm:
            pass
        base = t
        while base.op == "upd":
            base, ix, v = base.args
            parts.append((ix, v))
        fill = None
        if base.op not in ("empty", "zeros", "ones", "full", "empty_like", "zeros_like", "ones_like", "full_like"):
            fill = "of " + repr(self.nf(base)) + ","
            if len(parts) > 1:
                base = t.args[0]
                fill = "of " + repr(self.nf(base)) + ","
                parts = [t.args[1:]]
        txt = []
        nd = None
        for ix, v in parts:
            ks = list(ix.args) if ix.op == "tuple" else [ix]
            ts = []
            for k in ks:
                if k.op == "slice":
                    if any(x.op != "c" for x in k.args):
                        raise NoForm("update of a computed part " + fmt_term(k)[:200])
                    ts.append(self.slice_(k, base, -1))
                elif k.op == "c" and isinstance(k.args[0], int):
                    ts.append(repr(k.args[0]))
                elif fill is not None and self.everything(k):
                    ts.append("::")
                elif fill is not None and self.selector(k) is not None:
                    ts.append(self.selector(k))
                else:
                    raise NoForm("update of a computed part " + fmt_term(k)[:200])
            nd = nd or len(ts)
            if len(ts) != nd:
                raise NoForm("update of different parts")
            txt.append((",".join(ts), repr(self.nf(v))))
        if len({k for k, _ in txt}) != len(txt):
            raise NoForm("update of the same part twice")
        self.opaque.add("upd")
        if fill is None:
            fill = "" if base.op.startswith("empty") else base.op[:4]
        return self.letter(short(f"upd({fill};" + ";".join(f"[{k}]={v}" for k, v in sorted(txt)) + ")"), False, nd)

    full = None              # predicate: positions that are assumed to be all there are

    def everything(self, k):
        return self.full is not None and bool(self.full(k)) or k.op == "slice" and all(x.op == "c" and x.args[0] is None for x in k.args) or k.op == "ones_mask" or \
            k.op == "full" and k.args[1:2] == (T("c", True),) or k.op == "c" and k.args[0] is Ellipsis

    def chain(self, p):
        """successive masks that a mask built by assignments amounts to, or None"""
        if self.everything(p):
            return []
        if p.op != "upd":
            return [p]
        m, k, v = p.args
        false = m.op in ("zeros",) or m.op == "full" and m.args[1:2] == (T("c", False),)
        if false and v is T("c", True):
            return [T("only", k)]
        old = self.chain(m)
        if old is None:
            return None
        if k is m:
            # what was active is restricted further
            return old + [v]
        if v is T("c", False):
            if false:
                return [T("only", T("list"))]
            c = self.cut(k)
            if c is None and self.positions(k) is not None:
                c = T("Invert", self.positions(k))
            if c is not None:
                return [T("BitAnd", m, c)] if old else [c]
            if k.op == "idx" and self.positions(k.args[0]) is not None and self.same_mask(self.positions(k.args[0]), m):
                c = self.cut(k.args[1])
                if c is None and self.positions(k.args[1]) is not None:
                    c = T("Invert", self.positions(k.args[1]))
                if c is not None:
                    return old + [c]
        return None

    def same_mask(self, a, b):
        return a is b or self.everything(a) and self.everything(b)

    @staticmethod
    def positions(t):
        """the mask whose true positions an index array lists"""
        if t.op == "idx" and t.args[1] is T("c", 0):
            t = t.args[0]
        if t.op in ("where", "flatnonzero", "nonzero") and len(t.args) == 1:
            return t.args[0]
        if t.op in ("set", "sorted", "asarray", "unique") and len(t.args) == 1:
            return Former.positions(t.args[0])
        return None

    @staticmethod
    def cut(t):
        """the mask whose false positions an index array lists"""
        if t.op in ("set", "sorted", "asarray", "unique") and len(t.args) == 1:
            return Former.cut(t.args[0])
        if t.op in ("setSub", "setdiff1d") and len(t.args) == 2:
            a, b = t.args
            while a.op in ("set", "sorted") and len(a.args) == 1:
                a = a.args[0]
            if a.op in ("arange", "range"):
                return Former.positions(b)
        m = Former.positions(t)
        if m is not None:
            t = m
        if t.op in ("Invert", "invert", "logical_not") and len(t.args) == 1:
            return t.args[0]
        return None

    CMP = {"Gt": "Gt", "Lt": "Gt", "GtE": "GtE", "LtE": "GtE", "Eq": "Eq", "NotEq": "NotEq"}

    def selector(self, p):
        """canonical text of an index array or a boolean mask"""
        try:
            if p.op in self.CMP and len(p.args) == 2:
                a, b = [repr(self.nf(x)) for x in p.args]
                if p.op in ("Lt", "LtE"):
                    a, b = b, a
                self.opaque.add("mask")
                return f"{self.CMP[p.op]}({a},{b})"
            if p.op == "argsort" and len(p.args) == 1:
                self.opaque.add("argsort")
                return f"argsort({self.nf(p.args[0])!r})"
            if p.id in self.sym and self.sym[p.id][1] == 1:
                return repr(self.nf(p))
            if p.op in ("BitAnd", "logical_and", "BitOr", "logical_or") and len(p.args) == 2:
                ab = [self.selector(x) for x in p.args]
                self.opaque.add("mask")
                return None if None in ab else f"{'and' if 'nd' in p.op else 'or'}({','.join(sorted(ab))})"
            if p.op in ("Invert", "invert", "logical_not") and len(p.args) == 1:
                c = self.selector(p.args[0])
                self.opaque.add("mask")
                return None if c is None else f"not({c})"
            if p.op == "only":
                k = p.args[0]
                if k.op in ("slice", "list"):
                    return f"only({k})"
                return f"only({self.nf(k)!r})"
            c = self.cut(p)
            if c is not None:
                c = self.selector(c)
                self.opaque.add("mask")
                return None if c is None else f"not({c})"
            if self.positions(p) is not None:
                return self.selector(self.positions(p))
            if p.op == "idx" and p.args[0].op == "argsort" and repr(p.args[1]) == "slice(None, None, -1)":
                c = self.selector(p.args[0])
                return None if c is None else f"rev({c})"
        except NoForm:
            pass
        return None

    def slice_(self, p, base, axis):
        """canonical text of a slice of the given axis of base"""
        lo, hi, st = p.args
        if st.op == "c" and st.args[0] not in (None, 1):
            return f"{self.bound(lo, base, axis)}:{self.bound(hi, base, axis)}:{st.args[0]}"
        if st.op != "c":
            raise NoForm("step")
        a, b = self.bound(lo, base, axis), self.bound(hi, base, axis)
        return f"{'' if a == '0' else a}:{b}:"

    def is_size(self, t):
        return t.op in ("len", "size") or t.op in ("idx", "get") and isinstance(t.args[0], Term) and t.args[0].op == "shape"

    def bound(self, t, base, axis):
        if t.op == "c":
            return "" if t.args[0] is None else repr(t.args[0])
        if t.op in ("min", "minimum") and len(t.args) > 1:
            # a bound beyond the end of the axis has no effect
            rest = [y for y in t.args if y.op != "kw" and not self.is_size(y)]
            if len(rest) == 1:
                return self.bound(rest[0], base, axis)
        keep = set(self.soft)
        x = self.nf(t)
        if x.kind != "s":
            raise NoForm("bound")
        # n - c with n the length of this axis is the same as -c
        if axis >= 0 and x.r[1] == ONE:
            n = self.nf(T("idx", T("shape", base), T("c", axis)))
            d = radd(x.r, n.r, -1)
            if d[1] == ONE and set(d[0]) <= {()}:
                k = d[0].get((), Fraction(0))
                if k == 0:
                    return ""
                if k < 0:
                    return repr(int(k))
        txt = rrepr(x.r)
        if self.nosize:
            self.soft = keep
            return "~"
        self.soft.add(txt)
        return txt

    def each_atom(self, x, k, out):
        def p(q):
            r = {}
            for m, c in q.items():
                n = []
                for i in m:
                    if i in SCALARS:
                        n.append(i)
                        continue
                    if k[0] == "i" and ATOMS[i].startswith("arange(s(),") and ATOMS[i].endswith(",s1)") and k[1].isdigit():
                        c *= int(k[1])
                        continue
                    j = atom(f"{ATOMS[i]}[{k[1]}]")
                    if self.conjd.get(i) == i:
                        self.real_atom(j)
                    if not out:
                        SCALARS.add(j)
                    n.append(j)
                n = tuple(sorted(n))
                r[n] = r.get(n, 0) + c
            return {n: c for n, c in r.items() if c}
        return NF("v" if out else "s", (p(x.r[0]), p(x.r[1])), 1)

    def slice_letter(self, y, rows, cols):
        if rows == ("s", "::") and cols == ("s", "::"):
            return y
        if y[0] != "A":
            raise NoForm("slice of a scaling")
        _, n, m, real = y
        if m in ("t", "h"):
            rows, cols = cols, rows
        return ("A", f"{n}[{rows[1]},{cols[1]}]", m, real)


def apart(x, y):
    """positions without common element (in a long enough array)"""
    if x.op == y.op == "c":
        return x is not y
    if x.op == "c":
        x, y = y, x
    if x.op == "slice" and y.op == "c" and all(z.op == "c" for z in x.args) and x.args[2].args[0] in (None, 1):
        lo, hi, k = x.args[0].args[0], x.args[1].args[0], y.args[0]
        return type(lo) is int and lo > k >= 0 or type(hi) is int and (hi < 0 and hi <= k < 0 or 0 <= hi <= k)
    return False


def leq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] in ("D", "V"):
        return bool(requal(a[1], b[1]))
    return a == b


def weq(a, b):
    return len(a) == len(b) and all(leq(x, y) for x, y in zip(a, b))


def same(a, b):
    """are two forms equal"""
    if a is None or b is None:
        return None
    if a.kind != b.kind:
        # a 1-D vector may be either a rational vector or a word ending in one
        if {a.kind, b.kind} == {"v", "m"}:
            v, m = (a, b) if a.kind == "v" else (b, a)
            if m.ndim == 1 and v.orient == 1:
                return same(NF("m", words=[(RONE, (("V", v.r),))], ndim=1), m)
        return False
    if a.kind in ("s", "v"):
        return a.orient == b.orient and bool(requal(a.r, b.r))
    if a.ndim != b.ndim or len(a.words) != len(b.words):
        return False
    rest = list(b.words)
    for c, w in a.words:
        for i, (c2, w2) in enumerate(rest):
            if weq(w, w2) and requal(c, c2):
                del rest[i]
                break
        else:
            return False
    return True
