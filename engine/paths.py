"""Consistent-path search inside one function: can a local name be read before it is assigned?

Paths are enumerated over the syntax tree (loops: up to two passes).  A path carries the outcomes of the branch tests it
took, keyed by the test's text; a test keeps its outcome until one of the names it mentions is reassigned; equality tests
of one expression with different constants exclude each other.  A read is reported only when such a consistent path exists."""
import ast

LIMIT = 20000


class Found(Exception):
    pass


class Search:
    def __init__(self, fnode, name, line):
        self.name, self.line, self.n = name, line, 0
        a = fnode.args
        self.params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.f = fnode
        # a branch outcome is remembered only when another test could contradict it
        self.counts = {}
        for x in ast.walk(fnode):
            if isinstance(x, (ast.If, ast.While, ast.IfExp)):
                for k in atoms(x.test):
                    self.counts[k] = self.counts.get(k, 0) + 1
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                if isinstance(x.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                    for k in atoms(x.value):
                        self.counts[k] = self.counts.get(k, 0) + 1
                    k = key(ast.Name(x.targets[0].id, ast.Load()))
                    self.counts[k] = self.counts.get(k, 0) + 1
                for k in literal_facts(x.targets[0].id, x.value):
                    self.counts[k] = self.counts.get(k, 0) + 1

    def run(self):
        if self.name in self.params:
            return False
        try:
            self.block(self.f.body, [({}, False)])
        except Found:
            return True
        return False

    # a state: (facts, bound)
    def block(self, body, states):
        for s in body:
            if not states:
                return []
            self.n += len(states)
            if self.n > LIMIT:
                raise Found        # give up: keep the report
            states = self.stmt(s, states)
            states = dedupe(states)
        return states

    def reads(self, e):
        if e is None:
            return False
        for x in ast.walk(e):
            if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                continue
            if isinstance(x, ast.Name) and x.id == self.name and isinstance(x.ctx, ast.Load) and x.lineno == self.line:
                return True
        return False

    def use(self, e, states):
        if self.reads(e) and any(not b for _, b in states):
            raise Found

    def assign(self, names, states):
        out = []
        for f, b in states:
            f2 = {k: v for k, v in f.items() if not (k[1] & names)} if any(k[1] & names for k in f) else f
            out.append((f2, b or self.name in names))
        return out

    def stmt(self, s, states):
        if isinstance(s, ast.If):
            self.use(s.test, states)
            t = self.block(s.body, self.branch(s.test, True, states))
            e = self.block(s.orelse, self.branch(s.test, False, states))
            return t + e
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.use(s.iter, states)
            self.loops.append([]) if hasattr(self, "loops") else setattr(self, "loops", [[]])
            out = list(states)
            cur = states
            for _ in range(2):
                cur = self.block(s.body, self.assign(names_of(s.target), cur))
                cur = dedupe(cur + self.cont())
                out += cur
            br = self.loops.pop()
            return self.block(s.orelse, dedupe(out)) + br
        if isinstance(s, ast.While):
            self.use(s.test, states)
            self.loops.append([]) if hasattr(self, "loops") else setattr(self, "loops", [[]])
            always = isinstance(s.test, ast.Constant) and bool(s.test.value)
            out = [] if always else self.branch(s.test, False, states)
            cur = states
            for _ in range(2):
                cur = self.block(s.body, self.branch(s.test, True, cur))
                cur = dedupe(cur + self.cont())
                if not always:
                    out += self.branch(s.test, False, cur)
            br = self.loops.pop()
            return self.block(s.orelse, dedupe(out)) + br
        if isinstance(s, (ast.Return, ast.Raise)):
            self.use(getattr(s, "value", None), states)
            self.use(getattr(s, "exc", None), states)
            return []
        if isinstance(s, ast.Break):
            self.loops[-1] += states
            return []
        if isinstance(s, ast.Continue):
            self.conts = getattr(self, "conts", []) + states
            return []
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, states)
                if i.optional_vars is not None:
                    states = self.assign(names_of(i.optional_vars), states)
            return self.block(s.body, states)
        if isinstance(s, ast.Try):
            done = self.block(s.body, states)
            assigned = set()
            for b in s.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        assigned.add(x.id)
            exc = [({k: v for k, v in f.items() if not (k[1] & assigned)}, b) for f, b in states]
            out = self.block(s.orelse, done)
            for h in s.handlers:
                out += self.block(h.body, self.assign({h.name} if h.name else set(), exc))
            return self.block(s.finalbody, dedupe(out))
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return self.assign({s.name}, states)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.assign({(a.asname or a.name).split(".")[0] for a in s.names}, states)
        if isinstance(s, ast.Assign):
            self.use(s.value, states)
            for t in s.targets:
                self.use(t, states)
            self_ref = len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                s.targets[0].id not in {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}
            if self_ref and (isinstance(s.value, (ast.Compare, ast.BoolOp)) or
                             isinstance(s.value, ast.UnaryOp) and isinstance(s.value.op, ast.Not)):
                t = s.targets[0]
                out = []
                for o in (True, False):
                    br = self.assign(names_of(t), self.branch(s.value, o, states))
                    out += self.branch(ast.Name(t.id, ast.Load()), o, br)
                return out
            states = self.assign(set().union(*(names_of(t) for t in s.targets)), states)
            if self_ref:
                states = [({**f, **literal_facts(s.targets[0].id, s.value)}, b) for f, b in states]
            return states
        if isinstance(s, ast.AugAssign):
            self.use(s.value, states)
            if isinstance(s.target, ast.Name) and s.target.id == self.name and s.lineno == self.line \
                    and any(not b for _, b in states):
                raise Found
            return self.assign(names_of(s.target), states)
        if isinstance(s, ast.AnnAssign):
            self.use(s.value, states)
            return self.assign(names_of(s.target), states) if s.value is not None else states
        if isinstance(s, ast.Delete):
            return states
        for x in ast.iter_child_nodes(s):
            self.use(x, states)
        walrus = {x.target.id for x in ast.walk(s) if isinstance(x, ast.NamedExpr)}
        # statements may change attributes that tests mention (method calls): keep it simple, only names are tracked
        return self.assign(walrus, states) if walrus else states

    def cont(self):
        c = getattr(self, "conts", [])
        self.conts = []
        return c

    def branch(self, test, outcome, states):
        out = []
        for f, b in states:
            for g in assume(test, outcome, f):
                if g is not f:
                    g = {k: v for k, v in g.items() if k in f or self.counts.get(k, 0) > 1}
                out.append((g, b))
        return dedupe(out)


def literal_facts(name, v):
    ns = frozenset({name})
    if isinstance(v, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in v.elts):
        return {("==", ns | {"len"}, f"len({name})"): ("is", len(v.elts)), (f"{name} is None", ns): False}
    if isinstance(v, ast.Constant):
        out = {(name, ns): bool(v.value), (f"{name} is None", ns): v.value is None}
        try:
            hash(v.value)
            out[("==", ns, name)] = ("is", v.value)
        except TypeError:
            pass
        return out
    if isinstance(v, (ast.Dict, ast.JoinedStr, ast.ListComp)):
        return {(f"{name} is None", ns): False}
    return {}


def names_of(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def key(e):
    return (ast.unparse(e), frozenset(x.id for x in ast.walk(e) if isinstance(x, ast.Name)))


def atoms(test):
    """keys of the facts a test can produce"""
    out = set()
    for o in (True, False):
        for g in assume(test, o, {}):
            out |= set(g)
    return out


def assume(test, outcome, f):
    """list of fact dictionaries under which test has the outcome"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return assume(test.operand, not outcome, f)
    if isinstance(test, ast.Constant):
        return [f] if bool(test.value) == outcome else []
    if isinstance(test, ast.BoolOp):
        conj = isinstance(test.op, ast.And)
        if conj == outcome:
            fs = [f]
            for v in test.values:
                fs = [h for g in fs for h in assume(v, outcome, g)]
            return fs
        out, pre = [], [f]
        for v in test.values:
            out += [h for g in pre for h in assume(v, outcome, g)]
            pre = [h for g in pre for h in assume(v, not outcome, g)]
        return out
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op, l, r = test.ops[0], test.left, test.comparators[0]
        flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
        if type(op) in flip:
            return assume(ast.copy_location(ast.Compare(l, [flip[type(op)]()], [r]), test), not outcome, f)
        if isinstance(op, ast.In) and isinstance(r, (ast.Tuple, ast.List, ast.Set)) and \
                all(isinstance(x, ast.Constant) for x in r.elts):
            vals = [ast.Compare(l, [ast.Eq()], [x]) for x in r.elts]
            return assume(ast.BoolOp(ast.Or(), vals), outcome, f) if vals else ([] if outcome else [f])
        if isinstance(op, ast.Eq) and isinstance(r, ast.Constant):
            kl = key(l)
            eqk = ("==", kl[1], kl[0])
            cur = f.get(eqk)           # ("is", c) or ("not", frozenset)
            if cur is not None and cur[0] == "is":
                return [f] if (cur[1] == r.value) == outcome else []
            nots = cur[1] if cur is not None else frozenset()
            if outcome:
                if r.value in nots:
                    return []
                return [{**f, eqk: ("is", r.value)}]
            return [{**f, eqk: ("not", nots | {r.value})}]
    k = key(test)
    if k in f:
        return [f] if f[k] == outcome else []
    return [{**f, k: outcome}]


def dedupe(states):
    seen, out = set(), []
    for f, b in states:
        h = (frozenset(f.items()), b)
        if h not in seen:
            seen.add(h)
            out.append((f, b))
    return out


def may_be_unbound(fnode, name, line):
    return Search(fnode, name, line).run()
