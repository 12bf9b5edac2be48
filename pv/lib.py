"""Helpers shared by the property checks: symbolic inputs, runs, specifications."""
from . import npm, poly
from .poly import (P, Poly, Fr, sym, el, tensor, fresh_index, fresh_name, sum_over, gt, ge, eq, phi, power, fun, subst, aid_of,
                   pmin, pmax, with_facts, FACTS, TENSORS, ATOMS)
from .values import *

ZERO, ONE = Poly.const(0), Poly.const(1)


def isym(name, lo=1):
    return sym(fresh_name(name), integer=True, lo=lo)


def fsym(name, lo=None):
    return sym(fresh_name(name), lo=lo)


def F(p):
    return Sc(P(p), "float")


def N(p):
    return sc(P(p), "int")


def arr(I, name, dims, dtype="float64", note="user", order="C", **info):
    """A fresh symbolic array; returns (array reference, element function)."""
    nm = fresh_name(name)
    t = tensor(nm, tuple(P(d) for d in dims))
    for k, v in info.items():
        setattr(t, k, v)
    a = npm.build(I, tuple(dims), lambda iv: el(nm, tuple(iv)), dtype, order, note)
    return a, lambda *ix: el(nm, tuple(P(i) for i in ix))


def given(I, dims, f, dtype="float64", note="user", order="C"):
    return npm.build(I, tuple(P(d) for d in dims), lambda iv: f(*iv), dtype, order, note)


def method(I, o, name, *a, **k):
    return I.call(I.getattr(o, name), list(a), k)


def S(f, n):
    """sum_{b < n} f(b)"""
    b = fresh_index(P(n))
    return sum_over(f(b), b, P(n))


def content(I, a):
    """The current body of an array as a function of its indices (a snapshot that later writes do not affect)."""
    ix = [fresh_index(d) for d in a.dims]
    body = npm.elem(I, a, ix)
    return lambda *jx: subst(body, {aid_of(i): P(j) for i, j in zip(ix, jx)})


def freeze(I, v):
    """A copy of a value whose arrays are detached from the heap cells they live in."""
    if isinstance(v, ARef):
        f = content(I, v)
        return npm.build(I, v.dims, lambda iv: f(*iv), I.heap[v.buf].dtype)
    if isinstance(v, tuple):
        return tuple(freeze(I, x) for x in v)
    if isinstance(v, PhiV):
        return PhiV(v.c, freeze(I, v.a), freeze(I, v.b))
    if isinstance(v, LRef):
        c = I.heap[v.id]
        segs = []
        for s in c.segs:
            if s[0] == "v":
                segs.append(("v", freeze(I, s[1])))
            elif s[0] == "rows":
                segs.append(("rows", freeze(I, s[1])))
            else:
                segs.append(s)
        return I.new(ListC(segs), LRef)
    return v


def scramble(I, v):
    """Overwrites every array reachable as v with fresh unknown contents."""
    if isinstance(v, ARef):
        nm = fresh_name("scrambled")
        b = I.heap[v.buf]
        tensor(nm, v.dims)
        npm.store(I, v, npm.build(I, v.dims, lambda iv: el(nm, tuple(iv)), b.dtype))
        return True
    if isinstance(v, tuple):
        return any([scramble(I, x) for x in v])
    if isinstance(v, PhiV):
        return any([scramble(I, v.a), scramble(I, v.b)])
    return False


def raising(exits):
    return [e for e in exits if e.kind == "raise"]


def merge(I, v):
    """Alternatives that are arrays of equal shape as one array with gated entries."""
    if isinstance(v, PhiV):
        a, b = merge(I, v.a), merge(I, v.b)
        if isinstance(a, ARef) and isinstance(b, ARef) and a.dims == b.dims:
            fa, fb = content(I, a), content(I, b)
            return npm.build(I, a.dims, lambda iv: phi(v.c, fa(*iv), fb(*iv)), I.heap[a.buf].dtype)
        pa, pb = P_of(a), P_of(b)
        if pa is not None and pb is not None:
            return Sc(phi(v.c, pa, pb), "np")
        return PhiV(v.c, a, b)
    if isinstance(v, tuple):
        return tuple(merge(I, x) for x in v)
    return v


class ObjM(Model):
    """An opaque user object with given attributes (abstract values or thunks); logs attribute writes."""
    tag = "user-object"
    _n = 0

    def __init__(self, name="obj", isa=(), **attrs):
        self.name, self.attrs, self._isa = name, attrs, isa
        ObjM._n += 1
        self.uid = ObjM._n

    def __repr__(self):
        return f"<{self.name}>"

    def isa(self, d):
        return d in self._isa or d == "object"

    def get(self, I, name):
        if name in self.attrs:
            v = self.attrs[name]
            return v
        if name == "__hasattr__":
            return lambda I, n: ONE if n in self.attrs else ZERO
        if name == "__setattr__":
            def f(I, n, v):
                I.event("user-setattr", obj=self, name=n, value=v)
                self.attrs[n] = v
            return f
        return MISSING


def rejected(ck, rule, where, ex, detail="", facts=()):
    """Every path of the run ends in an exception."""
    left = ONE
    for e in raising(ex):
        left = left - e.guard
    return ck.zero(rule, where, left, facts=facts, detail=f"{detail} is accepted")


def prim(name, f):
    return PrimV(name, f)


def opaque_test(name, log):
    """A user callable returning an opaque truth value; logs the arguments it is called with."""
    b = poly.opaque_bool("verdict", name)

    def f(I, *a, **k):
        log.append((name, a, k))
        I.event("criterion", name=name, args=a)
        return Sc(b, "bool")
    return PrimV(name, f), b


def user(I, src, **env):
    """Executes a snippet of user code against the package inside the interpreter; returns its namespace."""
    import ast
    from .interp import Module
    m = Module("user", "<user>", ast.parse(src))
    m.loaded = True
    m.frame.env.update(env)
    saved = (I.frame, I.guard, I.pos)
    I.frame = m.frame
    try:
        I.exec_block(m.tree.body)
    finally:
        I.frame, I.guard, I.pos = saved
    return m.frame.env


class OpM(Model):
    """A user linear operator: shape, dtype and products with a symbolic matrix; products and quadratic forms are logged."""
    tag = "operator"

    def __init__(self, I, n, m=None, quad=False, dtype="float64", name="A", attrs=()):
        self.n, self.m = P(n), P(n if m is None else m)
        self.nm = fresh_name(name)
        tensor(self.nm, (self.n, self.m))
        self.el = lambda i, j: el(self.nm, (P(i), P(j)))
        self.dtype, self.hasquad = dtype, quad
        self.uid = self.nm
        self.extra = dict(attrs)
        self.q = fresh_name("quad")

    def __repr__(self):
        return f"<operator {self.nm}>"

    def matrix(self, I):
        return npm.build(I, (self.n, self.m), lambda iv: self.el(*iv), self.dtype)

    def mul(self, I, v):
        if not isinstance(v, ARef):
            return Unk("operator product")
        x = freeze(I, v)
        I.event("matvec", op=self, x=x)
        return npm.matmul(I, self.matrix(I), x)

    def get(self, I, name):
        if name in ("__matmul__",):
            return lambda I, v: self.mul(I, v)
        if name in ("matvec", "matmat", "dot", "matmul"):
            return PrimV(name, lambda I, v: self.mul(I, v))
        if name in ("T", "H"):
            return OpT(self)
        if name == "shape":
            return (N(self.n), N(self.m))
        if name == "dtype":
            return DtV(self.dtype)
        if name == "ndim":
            return 2
        if name == "quad" and self.hasquad:
            def f(I, v):
                x = freeze(I, v)
                I.event("quad", op=self, x=x)
                if len(x.dims) == 1:
                    return self.quad_of(I, x, lambda i, _c: npm.elem(I, x, [i]), None)
                return npm.build(I, (x.dims[1],), lambda iv: P_of(self.quad_of(I, x, lambda i, c: npm.elem(I, x, [i, c]), iv[0])))
            return PrimV("quad", f)
        if name in self.extra:
            return self.extra[name]
        if name == "__setattr__":
            def put(I, k, v):
                I.event("user-setattr", obj=self, name=k, value=v)
                self.extra[k] = v
            return put
        if name == "__hasattr__":
            return lambda I, k: ONE if k in ("__matmul__", "matvec", "matmat", "dot", "shape", "dtype", "T", "ndim") or (k == "quad" and self.hasquad) or k in self.extra else ZERO
        return MISSING

    def quad_of(self, I, x, col, c):
        """The operator's own quadratic form: a form unrelated to the one its products define."""
        B = lambda i, j: el(self.q, (i, j))
        tensor(self.q, (self.n, self.n))
        v = S(lambda i: S(lambda j: col(i, c) * B(i, j) * col(j, c), self.n), self.n)
        return Sc(v, "np")


class OpT(Model):
    tag = "operator"

    def __init__(self, op):
        self.op, self.uid = op, op.uid + "T"

    def get(self, I, name):
        o = self.op
        if name == "__matmul__" or name in ("matvec", "matmat", "dot"):
            def f(I, v):
                x = freeze(I, v)
                I.event("matvec", op=self, x=x)
                return npm.matmul(I, npm.build(I, (o.m, o.n), lambda iv: o.el(iv[1], iv[0]), o.dtype), x)
            return f if name == "__matmul__" else PrimV(name, f)
        if name == "shape":
            return (N(o.m), N(o.n))
        if name == "T":
            return o
        return o.get(I, name)


def operator(I, kind, n, **kw):
    """The analysed function's operator argument: a plain array, an operator object, or one with its own quadratic form."""
    if kind == "array":
        return arr(I, "A", (n, n), kw.get("dtype", "float64"))[0]
    return OpM(I, n, quad=kind == "quad", **kw)


def criterion(I, name="stop"):
    """A user-defined criterion whose verdict in each iteration is unknown; returns (object, verdict tensor name)."""
    nm = fresh_name(name)
    count = [0]

    def f(I, est):
        ix = I.loopidx()
        count[0] += 1
        key = ix if ix else (P(-count[0]),)
        tensor(nm, (None,) * len(key))
        b = poly.opaque_bool("verdict", nm, *key)
        I.event("criterion", name=nm, est=est, value=b)
        return Sc(b, "bool")
    env = user(I, "from primate.estimators import ConvergenceCriterion\nclass Stop(ConvergenceCriterion):\n\tdef __init__(self):\n\t\tpass\n\tdef __call__(self, est):\n\t\treturn oracle(est)\n\tdef message(self, est):\n\t\treturn 'stopped'\nc = Stop()\n", oracle=PrimV("oracle", f))
    return env["c"], nm
