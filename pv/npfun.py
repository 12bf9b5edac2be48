"""Abstract models of numpy / scipy functions, random generators and executors."""
from .npm import *
from .npm import ZERO, ONE, INF, NAN, model, _item, _astype, minmax
from . import npm, poly


def arr(I, v):
    """asarray; scalars become 0-d arrays."""
    return asarr(I, v)


# -------------------------------------------------------------------------------------------------------------- creation
def _dims(I, shape):
    return shape_of(I, shape)


def creator(val):
    def f(I, shape=None, dtype=None, order="C", like=None, **kw):
        dims = _dims(I, shape)
        for d in dims:
            I.raise_if(gt(-d), "ValueError")
        return build(I, dims, lambda iv: val, to_dt(dtype), order if isinstance(order, str) else "C")
    return f


MODELS["numpy.zeros"] = creator(ZERO)
MODELS["numpy.ones"] = creator(ONE)


@model("numpy.empty")
def _empty(I, shape=None, dtype=None, order="C", **kw):
    dims = _dims(I, shape)
    nm, f = I.fresh("uninit", dims)
    I.event("uninit", name=nm)
    return build(I, dims, f, to_dt(dtype), order)


@model("numpy.full")
def _full(I, shape=None, fill_value=None, dtype=None, order="C", **kw):
    dims = _dims(I, shape)
    if isinstance(fill_value, (LRef, tuple, ARef)):
        r = build(I, dims, lambda iv: ZERO, to_dt(dtype), order)
        store(I, r, fill_value)
        return r
    p = P_of(fill_value)
    if p is None:
        raise Undecided("np.full")
    return build(I, dims, lambda iv: p, to_dt(dtype, {"int": "int64", "bool": "bool"}.get(ty_of(fill_value), "float64")), order)


def like(val):
    def f(I, a, *rest, dtype=None, order="K", shape=None, **kw):
        v = val
        if val is None:
            fv = rest[0] if rest else kw.get("fill_value")
            v = P_of(fv)
        a = arr(I, a)
        dims = a.dims if shape is None else _dims(I, shape)
        d = to_dt(dtype, I.heap[a.buf].dtype) if dtype is not None else I.heap[a.buf].dtype
        return build(I, dims, lambda iv: v, d, I.heap[a.buf].order)
    return f


MODELS["numpy.zeros_like"] = like(ZERO)
MODELS["numpy.ones_like"] = like(ONE)
MODELS["numpy.full_like"] = like(None)


@model("numpy.empty_like")
def _empty_like(I, a, dtype=None, order="K", shape=None, **kw):
    a = arr(I, a)
    return _empty(I, tuple(sc(d, "int") for d in a.dims) if shape is None else shape, DtV(I.heap[a.buf].dtype) if dtype is None else dtype)


@model("numpy.eye", "numpy.identity")
def _eye(I, n, m=None, k=0, dtype=None, order="C", **kw):
    n = P_of(n)
    m = n if m is None else P_of(m)
    kk = P_of(k)
    return build(I, (n, m), lambda iv: eq(iv[1] - iv[0] - kk), to_dt(dtype), order)


@model("numpy.arange")
def _arange(I, a, b_=None, st=1, dtype=None, **kw):
    if "stop" in kw:
        b_ = kw["stop"]
    if "step" in kw:
        st = kw["step"]
    lo, hi = (0, a) if b_ is None else (a, b_)
    lo, hi, s = P_of(lo), P_of(hi), P_of(st)
    if lo is None or hi is None or s is None:
        raise Undecided("arange")
    n = (hi - lo) / s
    n = pmax(n if poly.is_integer(n) else fun("ceil", n), 0)
    integer = all(ty_of(x) in ("int", "bool") for x in (a, b_ if b_ is not None else 0, st))
    return build(I, (n,), lambda iv: lo + s * iv[0], to_dt(dtype, "int64" if integer else "float64"))


@model("numpy.linspace")
def _linspace(I, a, b_, num=50, endpoint=True, **kw):
    lo, hi, n = P_of(a), P_of(b_), P_of(num)
    den = n - 1 if endpoint is True else n
    if den == ZERO:
        return build(I, (n,), lambda iv: lo)
    return build(I, (n,), lambda iv: lo + (hi - lo) * iv[0] / den)


@model("numpy.array")
def _array(I, v, dtype=None, copy=True, order="K", ndmin=0, subok=False, **kw):
    if isinstance(v, ARef):
        b = I.heap[v.buf]
        d = to_dt(dtype, b.dtype) if dtype is not None else b.dtype
        o = b.order if order in ("K", "A", None) else order
        if copy is True or d != b.dtype or (o != b.order and len(v.dims) > 1):
            return _astype(I, v, DtV(d), o)
        return v
    if isinstance(v, Unk):
        return v
    if isinstance(v, (ORef, Model)):
        if isinstance(v, Model) and v.get(I, "__segs__") is not MISSING:
            return from_list(I, tuple(I.sequence(v)))
        raise Undecided("np.array of an object")
    if isinstance(v, DRef) or v is None or isinstance(v, str):
        return Unk("object array")
    r = arr(I, v)
    if dtype is not None:
        r = _astype(I, r, dtype)
    if ndmin:
        while len(r.dims) < ndmin:
            r = view_of(r, (ONE,) + r.dims, lambda iv: list(iv)[1:])
    return r


@model("numpy.asarray", "numpy.asanyarray", "numpy.asfarray")
def _asarray(I, v, dtype=None, order=None, **kw):
    return _array(I, v, dtype, None, order or "K")


@model("numpy.ascontiguousarray")
def _ascont(I, v, dtype=None):
    r = _array(I, v, dtype, None, "C")
    return r


@model("numpy.asfortranarray")
def _asfort(I, v, dtype=None):
    return _array(I, v, dtype, None, "F")


@model("numpy.require")
def _require(I, v, dtype=None, requirements=None):
    return _array(I, v, dtype, None)


@model("numpy.copy")
def _npcopy(I, v, order="K"):
    return _array(I, v)


@model("numpy.atleast_1d")
def _atleast_1d(I, *vs):
    def one(v):
        if isinstance(v, Unk):
            return v
        if v is None:
            return Unk("object array")
        a = arr(I, v)
        return a if a.dims else view_of(a, (ONE,), lambda iv: [])
    return one(vs[0]) if len(vs) == 1 else I.mklist([one(v) for v in vs])


@model("numpy.atleast_2d")
def _atleast_2d(I, v):
    if isinstance(v, Unk):
        return v
    a = arr(I, v)
    if len(a.dims) == 0:
        return view_of(a, (ONE, ONE), lambda iv: [])
    if len(a.dims) == 1:
        return view_of(a, (ONE, a.dims[0]), lambda iv: [iv[1]])
    return a


@model("numpy.expand_dims")
def _expand(I, v, axis=0):
    a = arr(I, v)
    k = int(P_of(axis).cval())
    n = len(a.dims) + 1
    k %= n
    return view_of(a, a.dims[:k] + (ONE,) + a.dims[k:], lambda iv: list(iv)[:k] + list(iv)[k + 1:])


@model("numpy.squeeze")
def _squeeze(I, v, axis=None):
    a = arr(I, v)
    keep = [k for k, d in enumerate(a.dims) if d != ONE]
    if axis is not None:
        x = int(P_of(axis).cval()) % len(a.dims)
        need_eq(I, a.dims[x], ONE)
        keep = [k for k in range(len(a.dims)) if k != x]
    r = view_of(a, [a.dims[k] for k in keep], lambda iv: [iv[keep.index(k)] if k in keep else ZERO for k in range(len(a.dims))])
    return r


@model("numpy.transpose")
def _transpose(I, v, axes=None):
    a = arr(I, v)
    n = len(a.dims)
    p = list(range(n))[::-1] if axes is None else [int(P_of(x).cval()) % n for x in axes]
    return view_of(a, [a.dims[k] for k in p], lambda iv: [iv[p.index(k)] for k in range(n)])


@model("numpy.swapaxes", "numpy.moveaxis")
def _swap(I, v, x, y):
    a = arr(I, v)
    n = len(a.dims)
    x, y = int(P_of(x).cval()) % n, int(P_of(y).cval()) % n
    p = list(range(n))
    p[x], p[y] = p[y], p[x]
    return view_of(a, [a.dims[k] for k in p], lambda iv: [iv[p.index(k)] for k in range(n)])


@model("numpy.ravel")
def _ravel(I, v, order="C"):
    if isinstance(v, Unk):
        return v
    return ravel(I, arr(I, v), order)


@model("numpy.reshape")
def _reshape(I, v, shape=None, order="C", **kw):
    shape = kw.get("newshape", shape)
    return reshape(I, arr(I, v), shape_of(I, shape), order)


@model("numpy.broadcast_to")
def _bto(I, v, shape):
    a = arr(I, v)
    dims = shape_of(I, shape)
    off = len(dims) - len(a.dims)
    return view_of(a, dims, lambda iv: [ZERO if a.dims[k] == ONE else iv[off + k] for k in range(len(a.dims))])


@model("numpy.append")
def _append(I, a, b_, axis=None):
    if axis is None:
        x, y = _ravel(I, a), _ravel(I, b_)
    else:
        return MODELS["numpy.concatenate"](I, (a, b_), axis)
    return MODELS["numpy.concatenate"](I, (x, y))


@model("numpy.concatenate")
def _concat(I, seq, axis=0, dtype=None, **kw):
    vals = I.sequence(seq) if not isinstance(seq, LRef) or all(s[0] == "v" for s in I.heap[seq.id].segs) else None
    if vals is None:
        raise Undecided("concatenation of a symbolic list")

    def go(*vals):
        if any(isinstance(v, Unk) for v in vals):
            return Unk("concatenate")
        arrs = [arr(I, v) for v in vals]
        if axis is None:
            arrs2, ax = [ravel(I, a) for a in arrs], 0
        else:
            arrs2, ax = arrs, int(P_of(axis).cval())
        return concat(I, arrs2, ax, dtype)
    return I.lift(go, *vals)


def concat(I, arrs, ax, dtype=None):
    n = len(arrs[0].dims)
    if n == 0 or any(len(a.dims) != n for a in arrs):
        I.exit("raise", "ValueError")
    ax %= n
    inner = [d for k, d in enumerate(arrs[0].dims) if k != ax]
    for a in arrs[1:]:
        for d1, d2 in zip(inner, [d for k, d in enumerate(a.dims) if k != ax]):
            need_eq(I, d1, d2)
    dt = to_dt(dtype) if dtype is not None else promote(*[dt_of(I, a) for a in arrs])
    parts = [(a.dims[ax], lambda k, rest, a=a: elem(I, a, list(rest[:ax]) + [k] + list(rest[ax:]))) for a in arrs if a.dims[ax] != ZERO]
    if not parts:
        parts = [(ZERO, lambda k, rest: ZERO)]
    dims = list(arrs[0].dims)
    dims[ax] = sum((a.dims[ax] for a in arrs), ZERO)
    order = "F" if n > 1 and all(I.heap[a.buf].order == "F" for a in arrs) else "C"
    return build(I, dims, lambda iv: pick(parts, iv[ax], list(iv[:ax]) + list(iv[ax + 1:])), dt, order)


@model("numpy.hstack")
def _hstack(I, seq, **kw):
    arrs = [_atleast_1d(I, v) for v in I.sequence(seq)]
    return concat(I, arrs, 0 if len(arrs[0].dims) == 1 else 1)


@model("numpy.vstack")
def _vstack(I, seq, **kw):
    return concat(I, [_atleast_2d(I, v) for v in I.sequence(seq)], 0)


@model("numpy.column_stack")
def _cstack(I, seq):
    return c_(I, tuple(I.sequence(seq)))


@model("numpy.stack")
def _stack(I, seq, axis=0, **kw):
    a = from_list(I, seq)
    k = int(P_of(axis).cval()) % len(a.dims)
    if k == 0:
        return a
    n = len(a.dims)
    dims = a.dims[1:k + 1] + (a.dims[0],) + a.dims[k + 1:]
    return view_of(a, dims, lambda iv: [iv[k]] + list(iv[:k]) + list(iv[k + 1:]))


def c_(I, ks):
    arrs = []
    for v in ks:
        a = arr(I, v)
        if len(a.dims) == 0:
            a = view_of(a, (ONE, ONE), lambda iv: [])
        elif len(a.dims) == 1:
            a = view_of(a, (a.dims[0], ONE), lambda iv: [iv[0]])
        arrs.append(a)
    return concat(I, arrs, 1)


npm.c_ = c_


@model("numpy.tile", "numpy.repeat", "numpy.pad", "numpy.insert", "numpy.delete", "numpy.unique", "numpy.histogram", "numpy.meshgrid", "numpy.outer_")
def _unk(I, *a, **k):
    I.incomplete.append(f"unmodelled array function at {I.pos}")
    return Unk("array function")


@model("numpy.outer")
def _outer(I, a, b_):
    x, y = _ravel(I, a), _ravel(I, b_)
    return build(I, (x.dims[0], y.dims[0]), lambda iv: elem(I, x, [iv[0]]) * elem(I, y, [iv[1]]), promote(dt_of(I, x), dt_of(I, y)))


@model("numpy.roll")
def _roll(I, v, shift, axis=None):
    a = arr(I, v)
    s = P_of(shift)
    if len(a.dims) != 1 or not s.is_const():
        raise Undecided("roll")
    n, c = a.dims[0], s.cval()
    # element i of the result is element (i - c) mod n

    def f(iv):
        k = iv[0] - c
        if c >= 0:
            return phi(ge(k), elem(I, a, [k]), elem(I, a, [k + n]))
        return phi(gt(n - k), elem(I, a, [k]), elem(I, a, [k - n]))
    return build(I, (n,), f, dt_of(I, a))


@model("numpy.flip", "numpy.flipud")
def _flip(I, v, axis=None):
    a = arr(I, v)
    axes = range(len(a.dims)) if axis is None else [int(P_of(axis).cval()) % len(a.dims)]
    return view_of(a, a.dims, lambda iv: [a.dims[k] - 1 - x if k in axes else x for k, x in enumerate(iv)])


@model("numpy.fliplr")
def _fliplr(I, v):
    return _flip(I, v, 1)


@model("numpy.diag", "numpy.diagonal", "numpy.diagflat")
def _diag(I, v, k=0, **kw):
    a = arr(I, v)
    kk = P_of(k)
    if len(a.dims) == 1:
        if kk != ZERO:
            n = a.dims[0] + fun("abs", kk)
            if not kk.is_const():
                raise Undecided("diag")
            if kk.cval() > 0:
                return build(I, (n, n), lambda iv: phi(eq(iv[1] - iv[0] - kk), elem(I, a, [iv[0]]), ZERO), dt_of(I, a))
            return build(I, (n, n), lambda iv: phi(eq(iv[1] - iv[0] - kk), elem(I, a, [iv[1]]), ZERO), dt_of(I, a))
        return build(I, (a.dims[0], a.dims[0]), lambda iv: phi(eq(iv[1] - iv[0]), elem(I, a, [iv[0]]), ZERO), dt_of(I, a))
    if kk != ZERO:
        if not kk.is_const():
            raise Undecided("diag")
        c = kk.cval()
        n = pmin(a.dims[0], a.dims[1] - c) if c > 0 else pmin(a.dims[0] + c, a.dims[1])
        return view_of(a, (n,), lambda iv: [iv[0] + max(-c, 0), iv[0] + max(c, 0)])
    n = a.dims[0] if a.dims[0] == a.dims[1] else pmin(a.dims[0], a.dims[1])
    return view_of(a, (n,), lambda iv: [iv[0], iv[0]])


@model("numpy.tril", "numpy.triu")
def _tri(I, v, k=0):
    raise Undecided("tril/triu")


@model("numpy.triu")
def _triu(I, v, k=0):
    a = arr(I, v)
    kk = P_of(k)
    return build(I, a.dims, lambda iv: phi(ge(iv[1] - iv[0] - kk), elem(I, a, iv), ZERO), dt_of(I, a))


@model("numpy.tril")
def _tril(I, v, k=0):
    a = arr(I, v)
    kk = P_of(k)
    return build(I, a.dims, lambda iv: phi(ge(iv[0] - iv[1] + kk), elem(I, a, iv), ZERO), dt_of(I, a))


@model("numpy.fill_diagonal")
def _filldiag(I, a, v, wrap=False):
    store(I, _diag(I, a), v)


@model("numpy.split", "numpy.array_split")
def _split(I, *a, **k):
    raise Undecided("split")


@model("numpy.copyto")
def _copyto(I, dst, src, **kw):
    store(I, dst, src)


@model("numpy.put", "numpy.place", "numpy.putmask")
def _put(I, dst, *a, **k):
    npm.clobber(I, [dst], {})


# ------------------------------------------------------------------------------------------------------------ elementwise
def ufunc(*names, f, out_dtype=None):
    def g(I, *args, out=None, dtype=None, where=True, **kw):
        if any(isinstance(a, SpecV) for a in args):
            return Unk("spectral ufunc")
        if isinstance(out, tuple):
            out = out[0]
        n = g.nin
        if len(args) == n + 1:
            out, args = args[-1], args[:n]
        if any(isinstance(a, ORef) for a in args) and n == 1:
            raise Undecided("ufunc of an object")
        if any(isinstance(a, Model) for a in args):
            raise Undecided("ufunc of a model")
        vals = [arr(I, a) if isinstance(a, (LRef, tuple, RangeV)) else a for a in args]
        if any(isinstance(a, Unk) for a in vals):
            if out is not None:
                store(I, out, Unk("ufunc"))
                return out
            return Unk("ufunc")
        if any(v is None or isinstance(v, str) for v in vals):
            I.exit("raise", "TypeError")
        dt = promote(*[dt_of(I, a) for a in vals])
        if out_dtype == "float" and is_int_dt(dt):
            dt = "float64"
        elif out_dtype not in (None, "float"):
            dt = out_dtype
        if dtype is not None:
            dt = to_dt(dtype)
        return ew(I, f, *vals, dtype=dt, out=out)
    g.nin = f.__code__.co_argcount
    for n in names:
        MODELS["numpy." + n] = g
    return g


def _log(p):
    return fun("log", p)


ufunc("abs", "absolute", "fabs", f=lambda x: fun("abs", x))
ufunc("sqrt", f=lambda x: npm.NAN if x.is_const() and x.cval() < 0 else power(x, Fr(1, 2)), out_dtype="float")
ufunc("cbrt", f=lambda x: power(x, Fr(1, 3)), out_dtype="float")
ufunc("square", f=lambda x: x * x)
ufunc("reciprocal", f=lambda x: npm.quot(ONE, x))
ufunc("negative", f=lambda x: -x)
ufunc("positive", f=lambda x: x)
ufunc("exp", f=lambda x: fun("exp", x), out_dtype="float")
ufunc("expm1", f=lambda x: fun("exp", x) - 1, out_dtype="float")
ufunc("log", f=_log, out_dtype="float")
ufunc("log1p", f=lambda x: fun("log", x + 1), out_dtype="float")
ufunc("log2", f=lambda x: fun("log", x) / fun("log", P(2)), out_dtype="float")
ufunc("log10", f=lambda x: fun("log", x) / fun("log", P(10)), out_dtype="float")
for _n in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "erf"):
    ufunc(_n, f=(lambda nm: lambda x: fun(nm, x))(_n), out_dtype="float")
ufunc("floor", f=lambda x: fun("floor", x), out_dtype="float")
ufunc("ceil", f=lambda x: fun("ceil", x), out_dtype="float")
ufunc("trunc", "fix", f=lambda x: fun("int", x), out_dtype="float")
ufunc("rint", f=lambda x: fun("round", x), out_dtype="float")
ufunc("sign", f=lambda x: gt(x) - gt(-x))
ufunc("add", f=lambda x, y: x + y)
ufunc("subtract", f=lambda x, y: x - y)
ufunc("multiply", f=lambda x, y: x * y)
ufunc("divide", "true_divide", f=npm.quot, out_dtype="float")
ufunc("floor_divide", f=lambda x, y: npm.floordiv(x, y))
ufunc("mod", "remainder", f=lambda x, y: npm.mod(x, y))
ufunc("power", "float_power", f=lambda x, y: npm.pow_(x, y))
ufunc("maximum", "fmax", f=lambda x, y: pmax(x, y))
ufunc("minimum", "fmin", f=lambda x, y: pmin(x, y))
ufunc("hypot", f=lambda x, y: power(x * x + y * y, Fr(1, 2)), out_dtype="float")
ufunc("copysign", f=lambda x, y: phi(ge(y), fun("abs", x), -fun("abs", x)), out_dtype="float")
ufunc("arctan2", f=lambda x, y: fun("arctan2", x, y), out_dtype="float")
ufunc("greater", f=lambda x, y: gt(x - y), out_dtype="bool")
ufunc("less", f=lambda x, y: gt(y - x), out_dtype="bool")
ufunc("greater_equal", f=lambda x, y: ge(x - y), out_dtype="bool")
ufunc("less_equal", f=lambda x, y: ge(y - x), out_dtype="bool")
ufunc("equal", f=lambda x, y: eq(x - y), out_dtype="bool")
ufunc("not_equal", f=lambda x, y: ONE - eq(x - y), out_dtype="bool")
ufunc("logical_and", f=lambda x, y: npm_truth(x) * npm_truth(y), out_dtype="bool")
ufunc("logical_or", f=lambda x, y: ONE - (ONE - npm_truth(x)) * (ONE - npm_truth(y)), out_dtype="bool")
ufunc("logical_not", f=lambda x: ONE - npm_truth(x), out_dtype="bool")
ufunc("isnan", f=lambda x: isnan(x), out_dtype="bool")
_isnan = MODELS["numpy.isnan"]


@model("numpy.isnan")
def isnan_(I, x, *a, **k):
    """Arrays of known length are judged entry by entry (a value that is piecewise in the position is not looked into otherwise)."""
    if isinstance(x, (LRef, tuple)):
        x = arr(I, x)
    if isinstance(x, ARef) and len(x.dims) == 1 and x.dims[0].is_const() and x.dims[0].cval() <= 64 and not a and not k:
        bits = [isnan(elem(I, x, [P(j)])) for j in range(int(x.dims[0].cval()))]
        return build(I, x.dims, lambda iv: sum((b * eq(iv[0] - P(j)) for j, b in enumerate(bits)), ZERO) if len(set(bits)) > 1 else bits[0], "bool")
    return _isnan(I, x, *a, **k)
ufunc("isfinite", f=lambda x: isfinite(x), out_dtype="bool")
ufunc("isinf", f=lambda x: isinf(x), out_dtype="bool")
ufunc("bitwise_and", f=lambda x, y: x * y)
ufunc("bitwise_or", f=lambda x, y: x + y - x * y)
ufunc("real", f=lambda x: x)
ufunc("conj", "conjugate", f=lambda x: x)
ufunc("nan_to_num", f=lambda x: fun("nan_to_num", x))


def npm_truth(p):
    if all(all(ATOMS[a].kind in ("gt", "eq", "bl") for a, _e in fs) and not bs for (fs, bs) in p.t):
        return p
    return ONE - eq(p)


NUMBERS = []            # non-empty while a check takes the entries of its inputs to be ordinary numbers


def isnan(p):
    if p == NAN:
        return ONE
    if NUMBERS and aid_of(NAN) not in p.free() and aid_of(INF) not in p.free():
        return ZERO
    if p.is_const() or p == INF or (poly.is_integer(p) and aid_of(NAN) not in p.free()):
        return ZERO
    return opaque_bool("isnan", p)


def without_nans(I, x):
    """The array with its missing entries set to zero, when it is known which are missing."""
    x = arr(I, x)
    if len(x.dims) == 1 and x.dims[0].is_const() and x.dims[0].cval() <= 64:
        es = [elem(I, x, [P(j)]) for j in range(int(x.dims[0].cval()))]
        if all(isnan(e).is_const() for e in es):
            return arr(I, tuple(Sc(ZERO if isnan(e) == ONE else e, "float") for e in es)) if any(isnan(e) == ONE for e in es) else x
    elif isnan(elem(I, x, [fresh_index(d) for d in x.dims])) == ZERO:
        return x
    raise Undecided("missing entries")


MODELS["numpy.nancumsum"] = lambda I, x, *a, **k: MODELS["numpy.cumsum"](I, without_nans(I, x), *a, **k)


def isinf(p):
    if p == INF or p == -INF:
        return ONE
    if p.is_const() or p == NAN or poly.is_integer(p):
        return ZERO
    return opaque_bool("isinf", p)


def isfinite(p):
    return (ONE - isnan(p)) * (ONE - isinf(p))


@model("numpy.clip")
def _clip(I, v, lo=None, hi=None, out=None, **kw):
    lo, hi = kw.get("a_min", kw.get("min", lo)), kw.get("a_max", kw.get("max", hi))
    if isinstance(v, (LRef, tuple)):
        v = arr(I, v)

    def f(x, *r):
        r = list(r)
        if lo is not None:
            x = pmax(x, r.pop(0))
        if hi is not None:
            x = pmin(x, r.pop(0))
        return x
    args = [a for a in (lo, hi) if a is not None]
    return ew(I, f, v, *args, out=out)


@model("numpy.where")
def _where(I, c, a=MISSING, b_=MISSING):
    if a is MISSING:
        return (_flatnz(I, c),)
    return ew(I, lambda c, x, y: phi(npm_truth(c), x, y), c, a, b_, dtype=promote(dt_of(I, arr(I, a)) if P_of(a) is None else dt_of(I, a), dt_of(I, arr(I, b_)) if P_of(b_) is None else dt_of(I, b_)))


@model("numpy.flatnonzero")
def _flatnz(I, v):
    a = ravel(I, arr(I, v))
    n = a.dims[0]
    cnt = psum(n, lambda k: npm_truth(elem(I, a, [k])))
    key = npm.akey(I, build(I, (n,), lambda iv: npm_truth(elem(I, a, iv)), "bool"))
    nm, f = npm.afun(I, "nz", (key,), (cnt,), integer=True, nonneg=True)
    return build(I, (cnt,), f, "int64")


@model("numpy.nonzero", "numpy.argwhere")
def _nonzero(I, v):
    return (_flatnz(I, v),)


@model("numpy.count_nonzero")
def _cnz(I, v, **kw):
    a = ravel(I, arr(I, v))
    return sc(psum(a.dims[0], lambda k: npm_truth(elem(I, a, [k]))), "int")


@model("numpy.isclose")
def _isclose(I, a, b_, rtol=None, atol=None, **kw):
    r = Sc(Fr(1, 100000) * ONE) if rtol is None else rtol
    t = Sc(P(Fr(1, 10**8))) if atol is None else atol
    return ew(I, lambda x, y, r, t: ge(t + r * fun("abs", y) - fun("abs", x - y)), a, b_, r, t, dtype="bool")


@model("numpy.allclose")
def _allclose(I, a, b_, **kw):
    return _all(I, _isclose(I, a, b_, **kw))


@model("numpy.array_equal")
def _aeq(I, a, b_, **kw):
    a, b_ = arr(I, a), arr(I, b_)
    if len(a.dims) != len(b_.dims):
        return False
    r = ONE
    for x, y in zip(a.dims, b_.dims):
        r = r * eq(x - y)
    return sc(r * P_of(_all(I, ew(I, lambda x, y: eq(x - y), a, b_, dtype="bool"))), "bool")


@model("numpy.diff")
def _diff(I, v, n=1, axis=-1):
    a = arr(I, v)
    if len(a.dims) == 2:
        ax = int(P_of(axis).cval()) % 2
        dims = list(a.dims)
        dims[ax] = pmax(dims[ax] - 1, 0)
        return build(I, dims, lambda iv: elem(I, a, [x + (1 if k == ax else 0) for k, x in enumerate(iv)]) - elem(I, a, iv), dt_of(I, a))
    return build(I, (pmax(a.dims[0] - 1, 0),), lambda iv: elem(I, a, [iv[0] + 1]) - elem(I, a, [iv[0]]), dt_of(I, a))


# ------------------------------------------------------------------------------------------------------------ reductions
def _axes(a, axis):
    if axis is None:
        return list(range(len(a.dims)))
    if isinstance(axis, tuple):
        return [int(P_of(x).cval()) % len(a.dims) for x in axis]
    p = P_of(axis)
    if p is None or not p.is_const():
        raise Undecided("axis")
    return [int(p.cval()) % len(a.dims)]


def reduce_(I, v, axis, keepdims, red, dtype=None, out=None):
    """red(n_list, fn(idx_list)) -> Poly"""
    if isinstance(v, Unk):
        return v
    if isinstance(v, LRef) and len(I.heap[v.id].segs) == 0:
        v = build(I, (ZERO,), lambda iv: ZERO)
    a = arr(I, v)
    if not a.dims and axis is None:
        r = red([], lambda idx: elem(I, a, []))
        return scal_res(I, r, dtype or dt_of(I, a))
    axes = _axes(a, axis)
    keep = [k for k in range(len(a.dims)) if k not in axes]
    if keepdims is True or (keepdims and keepdims is not False and not isinstance(keepdims, Unk)):
        dims = [ONE if k in axes else d for k, d in enumerate(a.dims)]
        kmap = lambda iv: {k: iv[k] for k in keep}
    else:
        dims = [a.dims[k] for k in keep]
        kmap = lambda iv: {k: iv[i] for i, k in enumerate(keep)}

    def body(iv):
        m = kmap(iv)

        def fn(idx):
            full = dict(m)
            full.update(zip(axes, idx))
            return elem(I, a, [full[k] for k in range(len(a.dims))])
        return red([a.dims[k] for k in axes], fn)
    dt = dtype or dt_of(I, a)
    if not dims:
        r = body([])
        if out is not None:
            store(I, out, Sc(r))
            return out
        return scal_res(I, r, dt)
    r = build(I, dims, body, dt)
    if out is not None:
        store(I, out, r)
        return out
    return r


def nsum(ns, fn):
    if not ns:
        return fn([])
    return psum(ns[0], lambda k: nsum(ns[1:], lambda idx: fn([k] + idx)))


def nprod(ns):
    r = ONE
    for n in ns:
        r = r * n
    return r


def red_key(name):
    """A reduction kept symbolic as a function of the reduced array."""
    def red(ns, fn):
        if all(n.is_const() and n.cval() <= 12 for n in ns):
            vals = []

            def go(ns, pre):
                if not ns:
                    vals.append(fn(pre))
                    return
                for i in range(int(ns[0].cval())):
                    go(ns[1:], pre + [P(i)])
            go(ns, [])
            if vals:
                r = vals[0]
                for v in vals[1:]:
                    r = {"amax": pmax, "amin": pmin, "prod": lambda a, b_: a * b_}[name](r, v)
                return r
            if name == "prod":
                return ONE
        ivs = [fresh_index(n) for n in ns]
        body = fn(ivs)
        if name in ("amax", "amin") and not any(aid_of(i) in body.free() for i in ivs):
            return body
        base = max([lam_level(body)] + [lam_level(n) for n in ns])
        return fun(name, ("arr", tuple(ns), base, subst(body, {aid_of(x): lam(base + k) for k, x in enumerate(ivs)})))
    return red


@model("numpy.sum", "numpy.nansum")
def _sum(I, v, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = v if isinstance(v, Unk) else (arr(I, v) if not (isinstance(v, LRef) and not I.heap[v.id].segs) else v)
    dt = None
    if isinstance(a, ARef) and I.heap[a.buf].dtype == "bool":
        dt = "int64"
    if dtype is not None:
        dt = to_dt(dtype)
    return reduce_(I, a, axis, keepdims, nsum, dt, out)


@model("numpy.mean", "numpy.average", "numpy.nanmean")
def _mean(I, v, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if isinstance(v, Unk):
        return v
    a = arr(I, v)
    dt = dt_of(I, a)
    return reduce_(I, a, axis, keepdims, lambda ns, fn: nsum(ns, fn) / nprod(ns), "float64" if is_int_dt(dt) else dt, out)


def _var_red(ddof):
    def red(ns, fn):
        n = nprod(ns)
        m = nsum(ns, fn) / n
        return nsum(ns, lambda idx: (fn(idx) - m) * (fn(idx) - m)) / (n - ddof)
    return red


@model("numpy.var")
def _var(I, v, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    d = P_of(ddof)
    return reduce_(I, v, axis, keepdims, _var_red(d), None, out)


@model("numpy.std")
def _std(I, v, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    d = P_of(ddof)
    return reduce_(I, v, axis, keepdims, lambda ns, fn: power(_var_red(d)(ns, fn), Fr(1, 2)), None, out)


@model("numpy.cov")
def _cov(I, *a, **k):
    raise Undecided("np.cov")


@model("numpy.prod", "numpy.product")
def _prod(I, v, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return reduce_(I, v, axis, keepdims, red_key("prod"), None, out)


@model("numpy.max", "numpy.amax", "numpy.nanmax")
def _amax(I, v, axis=None, out=None, keepdims=False, **kw):
    return reduce_(I, v, axis, keepdims, red_key("amax"), None, out)


@model("numpy.min", "numpy.amin", "numpy.nanmin")
def _amin(I, v, axis=None, out=None, keepdims=False, **kw):
    return reduce_(I, v, axis, keepdims, red_key("amin"), None, out)


@model("numpy.ptp")
def _ptp(I, v, axis=None, **kw):
    return npm.binop(I, "Sub", _amax(I, v, axis), _amin(I, v, axis))


@model("numpy.median", "numpy.percentile", "numpy.quantile")
def _median(I, v, *a, **k):
    return Sc(fun("median", npm.akey(I, arr(I, v))), "np")


@model("numpy.argmax", "numpy.argmin")
def _argmax(I, v, axis=None, **kw):
    a = arr(I, v)
    if len(a.dims) != 1:
        raise Undecided("argmax")
    return Sc(fun("argmax", npm.akey(I, a)), "int")


@model("numpy.argmin")
def _argmin(I, v, axis=None, **kw):
    a = arr(I, v)
    return Sc(fun("argmin", npm.akey(I, a)), "int")


@model("numpy.all")
def _all(I, v, axis=None, **kw):
    def red(ns, fn):
        if all(n.is_const() and n.cval() <= 12 for n in ns):
            return red_key("prod")(ns, lambda idx: npm_truth(fn(idx)))
        r = npm_truth(fn([fresh_index(n) for n in ns]))
        if r.is_const() and r == ONE:
            return ONE
        return eq(nsum(ns, lambda idx: ONE - npm_truth(fn(idx))))
    return reduce_(I, v, axis, kw.get("keepdims", False), red, "bool")


@model("numpy.any")
def _any(I, v, axis=None, **kw):
    def red(ns, fn):
        return ONE - eq(nsum(ns, lambda idx: npm_truth(fn(idx))))
    return reduce_(I, v, axis, kw.get("keepdims", False), red, "bool")


def present(I, x):
    """The entries that are not missing, for vectors of known length with entries known to be missing; otherwise the array itself."""
    x = arr(I, x)
    if NUMBERS and len(x.dims) == 1 and x.dims[0].is_const() and x.dims[0].cval() <= 64:
        es = [elem(I, x, [P(j)]) for j in range(int(x.dims[0].cval()))]
        if any(isnan(e) == ONE for e in es):
            return arr(I, tuple(Sc(e, "float") for e in es if isnan(e) != ONE))
    return x


for _f in ("sum", "mean", "max", "min"):
    MODELS["numpy.nan" + _f] = lambda I, x, *a, _m=MODELS["numpy." + _f], **k: _m(I, present(I, x) if isinstance(x, (ARef, LRef, tuple)) else x, *a, **k)


@model("numpy.cumsum", "numpy.add.accumulate")
def _cumsum(I, v, axis=None, **kw):
    a = arr(I, v)
    if axis is None and len(a.dims) != 1:
        a = ravel(I, a)
    if len(a.dims) != 1:
        raise Undecided("cumsum")
    dt = dt_of(I, a)
    if dt == "bool":
        dt = "int64"
    n = a.dims[0]
    if n.is_const() and n.cval() <= 12:
        pre = [ZERO]
        for i in range(int(n.cval())):
            pre.append(pre[-1] + elem(I, a, [P(i)]))

        def f(iv):
            out = ZERO
            for i in range(int(n.cval())):
                out = out + eq(iv[0] - i) * pre[i + 1]
            return out
        return build(I, (n,), f, dt)

    def f(iv):
        t = fresh_index(n, "t")
        return sum_over(elem(I, a, [t]), t, iv[0] + 1)
    return build(I, (n,), f, dt)


@model("numpy.cumprod")
def _cumprod(I, v, axis=None, **kw):
    a = arr(I, v)
    n = a.dims[0]
    if not (n.is_const() and n.cval() <= 16):
        raise Undecided("cumprod")
    pre = [ONE]
    for i in range(int(n.cval())):
        pre.append(pre[-1] * elem(I, a, [P(i)]))

    def f(iv):
        if iv[0].is_const():
            return pre[int(iv[0].cval()) + 1]
        out = ZERO
        for i in range(int(n.cval())):
            out = out + eq(iv[0] - i) * pre[i + 1]
        return out
    return build(I, (n,), f, dt_of(I, a))


@model("numpy.sort", "numpy.argsort")
def _sort(I, v, *a, **k):
    x = arr(I, v)
    nm, f = npm.afun(I, "sort", (npm.akey(I, x),), x.dims)
    return build(I, x.dims, f, dt_of(I, x))


MODELS["numpy.argsort"] = lambda I, v, *a, **k: Unk("argsort")
MODELS["numpy.searchsorted"] = lambda I, *a, **k: Unk("searchsorted")
MODELS["numpy.interp"] = lambda I, *a, **k: Unk("interp")


@model("numpy.trace")
def _trace(I, v, **kw):
    return _sum(I, _diag(I, v))


@model("numpy.dot", "numpy.inner", "numpy.vdot", "numpy.matmul")
def _dot(I, a, b_, out=None):
    if isinstance(a, (Model, ORef)) or isinstance(b_, (Model, ORef)):
        return npm.binop(I, "MatMult", a, b_)
    pa, pb = P_of(a), P_of(b_)
    if pa is not None or pb is not None:
        return npm.binop(I, "Mult", a, b_)
    x, y = arr(I, a), arr(I, b_)
    if not x.dims or not y.dims:
        return npm.binop(I, "Mult", a, b_)
    r = npm.matmul(I, x, y)
    if out is not None:
        store(I, out, r)
        return out
    return r


@model("numpy.vdot")
def _vdot(I, a, b_):
    return npm.matmul(I, ravel(I, arr(I, a)), ravel(I, arr(I, b_)))


@model("numpy.inner")
def _inner(I, a, b_):
    x, y = arr(I, a), arr(I, b_)
    if len(y.dims) == 2:
        y = npm.arr_attr(I, y, "T")
    return npm.matmul(I, x, y)


@model("numpy.einsum")
def _einsum(I, spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Undecided("einsum")
    arrs = [arr(I, o) for o in ops]
    spec = spec.replace(" ", "")
    lhs, _, rhs = spec.partition("->")
    ins = lhs.split(",")
    if "->" not in spec:
        letters = [c for t in ins for c in t if c.isalpha()]
        rhs = ("..." if "..." in lhs else "") + "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    full = []
    nell = 0
    for t, a in zip(ins, arrs):
        if "..." in t:
            nell = max(nell, len(a.dims) - len(t.replace("...", "")))
    for t, a in zip(ins, arrs):
        if "..." in t:
            p, q = t.split("...")
            k = len(a.dims) - len(p) - len(q)
            if k < 0:
                I.exit("raise", "ValueError")
            ell = [f"E{i}" for i in range(nell - k, nell)]
            full.append(list(p) + ell + list(q))
        else:
            full.append(list(t))
        if len(full[-1]) != len(a.dims):
            I.exit("raise", "ValueError")
    if "..." in rhs:
        p, q = rhs.split("...")
        out = list(p) + [f"E{i}" for i in range(nell)] + list(q)
    else:
        out = list(rhs)
    ext = {}
    for t, a in zip(full, arrs):
        for c, d in zip(t, a.dims):
            if c not in ext or ext[c] == ONE:
                ext[c] = d
            elif d != ONE and d != ext[c]:
                need_eq(I, ext[c], d)
                if d.is_const():
                    ext[c] = d
    # a diagonal view of one operand
    if len(arrs) == 1 and set(out) == set(full[0]):
        a = arrs[0]
        return view_of(a, [ext[c] for c in out], lambda iv: [iv[out.index(c)] for c in full[0]])
    summed = [c for c in ext if c not in out]

    def f(iv):
        m = dict(zip(out, iv))

        def go(rest, m):
            if not rest:
                r = ONE
                for t, a in zip(full, arrs):
                    r = r * elem(I, a, [ZERO if d == ONE else m[c] for c, d in zip(t, a.dims)])
                return r
            return psum(ext[rest[0]], lambda k: go(rest[1:], {**m, rest[0]: k}))
        return go(summed, m)
    dt = promote(*[dt_of(I, a) for a in arrs])
    if not out:
        return scal_res(I, f([]), dt)
    return build(I, [ext[c] for c in out], f, dt)


@model("numpy.tensordot", "numpy.kron")
def _td(I, *a, **k):
    raise Undecided("tensordot")


# ---------------------------------------------------------------------------------------------------------------- linalg
@model("numpy.linalg.norm", "scipy.linalg.norm")
def _norm(I, v, ord=None, axis=None, keepdims=False, **kw):
    if isinstance(v, Unk):
        return v
    a = arr(I, v)
    p = P_of(ord)
    two = ord is None or (p is not None and p.is_const() and p.cval() == 2)
    if axis is not None or len(a.dims) <= 1:
        if len(a.dims) == 0:
            if ord is not None:
                I.exit("raise", "ValueError")    # an order is defined for vectors and matrices only
            a = view_of(a, (ONE,), lambda iv: [])
        if two:
            return reduce_(I, a, axis, keepdims, lambda ns, fn: power(nsum(ns, lambda idx: fn(idx) * fn(idx)), Fr(1, 2)), "float64" if is_int_dt(dt_of(I, a)) else None)
        if p is not None and p.is_const() and p.cval() == 1:
            return reduce_(I, a, axis, keepdims, lambda ns, fn: nsum(ns, lambda idx: fun("abs", fn(idx))))
        if p is not None and (p == INF):
            return reduce_(I, a, axis, keepdims, lambda ns, fn: red_key("amax")(ns, lambda idx: fun("abs", fn(idx))))
        if axis is None:
            return Sc(fun("norm", npm.akey(I, a), npm.akey(I, ord)), "np")
        raise Undecided("norm along an axis")
    if ord is None or ord == "fro":
        return reduce_(I, a, None, keepdims, lambda ns, fn: power(nsum(ns, lambda idx: fn(idx) * fn(idx)), Fr(1, 2)))
    return Sc(fun("norm", npm.akey(I, a), npm.akey(I, ord)), "np")


@model("numpy.linalg.qr", "scipy.linalg.qr")
def _qr(I, v, mode="reduced", **kw):
    a = arr(I, v)
    n, m = a.dims
    I.event("qr", arr=a, mode=mode)
    economic = mode in ("reduced", "economic", "full_") or mode == "economic"
    k = pmin(n, m) if mode in ("reduced", "economic") else n
    if prove_ge0(n - m) and mode in ("reduced", "economic"):
        k = m
    elif prove_ge0(m - n):
        k = n
    key = npm.akey(I, a)
    nq, q = npm.afun(I, "Q", (key,), (n, k), ortho=1)
    nr, r = npm.afun(I, "R", (key,), (k, m))
    if k == n:
        pass
    Q = build(I, (n, k), q, dt_of(I, a))
    R = build(I, (k, m), lambda iv: phi(ge(iv[1] - iv[0]), r(iv), ZERO), dt_of(I, a))
    if mode == "r":
        return R
    return (Q, R)


def qr_source(I, Q, R):
    """The array whose QR decomposition (Q, R) is, as an element function, or None."""
    i, j = fresh_index(Q.dims[0]), fresh_index(Q.dims[1])
    t = list(elem(I, Q, [i, j]).t.items())
    if len(t) != 1 or t[0][1] != 1 or t[0][0][1] or len(t[0][0][0]) != 1 or t[0][0][0][0][1] != 1:
        return None
    at = ATOMS[t[0][0][0][0][0]]
    if at.kind != "el" or not at.args[0].startswith("Q#") or tuple(at.args[1][:2]) != (i, j):
        return None
    key = ATOMS[int(at.args[0][2:])]
    i2, j2 = fresh_index(R.dims[0]), fresh_index(R.dims[1])
    want = fun("#R", *key.args[1:])
    names = {ATOMS[a].args[0] for a in poly.atoms_of(elem(I, R, [i2, j2])) if ATOMS[a].kind == "el"}
    if names != {f"R#{aid_of(want)}"}:
        return None
    k = key.args[1]
    if not (isinstance(k, tuple) and len(k) == 4 and k[0] == "arr" and len(k[1]) == 2):
        return None
    _, dims, base, body = k
    if len(at.args[1]) > 2:
        return None
    return lambda iv: poly.open_lam(body, base, iv)


@model("scipy.linalg.qr_insert")
def _qr_insert(I, Q, R, u, k, which="row", rcond=None, **kw):
    if which != "col":
        raise Undecided("qr_insert of rows")
    Q, R, u = arr(I, Q), arr(I, R), arr(I, u)
    n, q = Q.dims
    m = R.dims[1]
    need_eq(I, u.dims[0], n)
    p = ONE if len(u.dims) == 1 else u.dims[1]
    col = (lambda i, c: elem(I, u, [i])) if len(u.dims) == 1 else (lambda i, c: elem(I, u, [i, c]))
    k = P_of(k)
    k = k if prove_ge0(k) else phi(ge(k), k, k + m)
    src = qr_source(I, Q, R)
    if src is None:
        B0 = npm.matmul(I, Q, R)
        src = lambda iv: elem(I, B0, list(iv))

    def f(iv):
        i, c = iv
        out = phi(gt(k + p - c), col(i, c - k), src([i, c - p]))
        return out if not k.t else phi(gt(k - c), src([i, c]), out)
    B = build(I, (n, m + p), f, dt_of(I, Q))
    return _qr(I, B, mode="reduced" if not (q == n and not prove_ge0(n - m - p)) else "reduced")


@model("numpy.linalg.inv", "scipy.linalg.inv", "numpy.linalg.pinv")
def _inv(I, v, **kw):
    a = arr(I, v)
    n, m = a.dims
    need_eq(I, n, m)
    I.may_raise("LinAlgError", npm.akey(I, a))
    nm, f = npm.afun(I, "inv", (npm.akey(I, a),), (n, n))
    return build(I, (n, n), f, dt_of(I, a))


@model("numpy.linalg.solve", "scipy.linalg.solve", "numpy.linalg.lstsq")
def _solve(I, A, b_, **kw):
    return npm.matmul(I, _inv(I, A), arr(I, b_))


@model("scipy.linalg.solve_triangular")
def _solvetri(I, A, b_, trans=0, lower=False, **kw):
    raise Undecided("solve_triangular")


@model("numpy.linalg.det")
def _det(I, v):
    a = arr(I, v)
    return Sc(fun("det", npm.akey(I, a)), "np")


def eig(I, keys, n, dt, vectors, **ev):
    I.event("eigh", keys=keys, vectors=vectors, **ev)
    I.may_raise("LinAlgError", *keys)
    nw, w = npm.afun(I, "eigw", keys, (n,))
    W = build(I, (n,), w, dt)
    if not vectors:
        return W
    nv, v = npm.afun(I, "eigv", keys, (n, n), ortho=1)
    return (W, build(I, (n, n), v, dt, "F"))


@model("numpy.linalg.eigh", "scipy.linalg.eigh")
def _eigh(I, v, **kw):
    a = arr(I, v)
    return eig(I, ("dense", npm.akey(I, a)), a.dims[0], dt_of(I, a), kw.get("eigvals_only") is not True, arr=a)


@model("numpy.linalg.eigvalsh", "scipy.linalg.eigvalsh")
def _eigvalsh(I, v, **kw):
    a = arr(I, v)
    return eig(I, ("dense", npm.akey(I, a)), a.dims[0], dt_of(I, a), False, arr=a)


@model("scipy.linalg.eigh_tridiagonal")
def _eightri(I, d, e, eigvals_only=False, select="a", **kw):
    d, e = arr(I, d), arr(I, e)
    need_eq(I, e.dims[0] + 1, d.dims[0])
    return eig(I, ("tri", npm.akey(I, d), npm.akey(I, e)), d.dims[0], dt_of(I, d), not (eigvals_only is True), d=d, e=e)


@model("scipy.linalg.eigvalsh_tridiagonal")
def _eigvaltri(I, d, e, **kw):
    d, e = arr(I, d), arr(I, e)
    need_eq(I, e.dims[0] + 1, d.dims[0])
    return eig(I, ("tri", npm.akey(I, d), npm.akey(I, e)), d.dims[0], dt_of(I, d), False, d=d, e=e)


# ------------------------------------------------------------------------------------------------------- special functions
def sfun(name, nin=1):
    def f(I, *args, **kw):
        return ew(I, lambda *x: fun(name, *x), *args)
    return f


MODELS["scipy.special.erfinv"] = sfun("erfinv")
MODELS["scipy.special.erf"] = sfun("erf")
MODELS["scipy.special.ndtri"] = sfun("normppf")


def _erfinv(I, x):
    # erfinv(c) = Phi^-1((1 + c)/2)/sqrt(2)
    return ew(I, lambda p: fun("normppf", (p + 1).scale(Fr(1, 2))) / power(P(2), Fr(1, 2)), x)


MODELS["scipy.special.erfinv"] = _erfinv


@model("scipy.stats.norm.ppf")
def _normppf(I, q, loc=0, scale=1):
    return ew(I, lambda q, l, s: l + s * fun("normppf", q), q, loc, scale)


@model("scipy.stats.norm.isf")
def _normisf(I, q, loc=0, scale=1):
    return ew(I, lambda q, l, s: l + s * fun("normppf", ONE - q), q, loc, scale)


@model("scipy.stats.t.ppf")
def _tppf(I, q, df=None, loc=0, scale=1):
    return ew(I, lambda q, d, l, s: l + s * fun("tppf", q, d), q, df, loc, scale)


@model("scipy.stats.t.isf")
def _tisf(I, q, df=None, loc=0, scale=1):
    return ew(I, lambda q, d, l, s: l + s * fun("tppf", ONE - q, d), q, df, loc, scale)


@model("scipy.special.stdtrit")
def _stdtrit(I, df, q):
    return _tppf(I, q, df)


@model("scipy.stats.norm.interval")
def _norminterval(I, confidence=None, loc=0, scale=1, **kw):
    confidence = kw.get("alpha", confidence)
    h = lambda s: ew(I, lambda c, l, sc_: l + sc_ * fun("normppf", (c + 1).scale(Fr(1, 2))).scale(s), confidence, loc, scale)
    return (h(-1), h(1))


@model("scipy.stats.t.interval")
def _tinterval(I, confidence=None, df=None, loc=0, scale=1, **kw):
    confidence = kw.get("alpha", confidence)
    h = lambda s: ew(I, lambda c, d, l, sc_: l + sc_ * fun("tppf", (c + 1).scale(Fr(1, 2)), d).scale(s), confidence, df, loc, scale)
    return (h(-1), h(1))


@model("scipy.stats.sem")
def _sem(I, v, axis=0, ddof=1, **kw):
    a = arr(I, v)
    d = P_of(ddof)
    if axis is None:
        a = ravel(I, a)
        axis = 0
    n = a.dims[_axes(a, axis)[0]]
    return reduce_(I, a, axis, False, lambda ns, fn: power(_var_red(d)(ns, fn), Fr(1, 2)) / power(n, Fr(1, 2)))


class FInfo(Model):
    def __init__(self, dt):
        self.dt = dt

    def get(self, I, name):
        if name in ("eps", "resolution", "tiny", "smallest_normal", "max", "min"):
            return Sc(fun("eps" if name == "eps" else "finfo_" + name, "dt:" + self.dt), "np")
        return MISSING


@model("numpy.finfo")
def _finfo(I, d):
    if isinstance(d, ARef):
        return FInfo(dt_of(I, d))
    return FInfo(to_dt(d))


MODELS["numpy.iinfo"] = lambda I, d: Unk("iinfo")


@model("numpy.dtype")
def _npdtype(I, d, **kw):
    if isinstance(d, Unk):
        return d
    return DtV(to_dt(d))


@model("numpy.result_type", "numpy.promote_types", "numpy.common_type")
def _rt(I, *a):
    return DtV(promote(*[dt_of(I, x) if isinstance(x, ARef) or P_of(x) is not None else to_dt(x) for x in a]))


MODELS["numpy.issubdtype"] = lambda I, a, b_: sc(opaque_bool("issubdtype", npm.akey(I, a), npm.akey(I, b_)), "bool")
MODELS["numpy.isscalar"] = lambda I, a: P_of(a) is not None or isinstance(a, str)
def _is_complex(I, a):
    d = a.name if isinstance(a, DtV) else I.heap[a.buf].dtype if isinstance(a, ARef) else None
    return isinstance(a, SpecV) or d is not None and npm.DTYPES.get(d, "?")[0] == "c"


MODELS["numpy.iscomplexobj"] = _is_complex
MODELS["numpy.isrealobj"] = lambda I, a: not _is_complex(I, a)


@model("numpy.issubdtype")
def _issubdtype(I, a, b):
    x, y = to_dt(a), to_dt(b)
    if y.startswith("abstract ") and x in npm.DTYPES:
        return npm.DTYPES[x][0] in npm.DT_GROUPS[y[9:]]
    if x in npm.DTYPES and y in npm.DTYPES:
        return x == y
    return Unk("issubdtype")
MODELS["numpy.ndim"] = lambda I, a: len(arr(I, a).dims)
MODELS["numpy.shape"] = lambda I, a: tuple(sc(d, "int") for d in arr(I, a).dims)
MODELS["numpy.size"] = lambda I, a, axis=None: npm.arr_attr(I, arr(I, a), "size")
MODELS["numpy.may_share_memory"] = lambda I, a, b_: Unk("share")
MODELS["numpy.shares_memory"] = lambda I, a, b_: Unk("share")
MODELS["numpy.setdiff1d"] = lambda I, *a: Unk("setdiff")
MODELS["numpy.vectorize"] = lambda I, f, **k: f
MODELS["numpy.errstate"] = lambda I, **k: npm.NullCM()
for _n in ("float64", "float32"):
    MODELS["numpy." + _n] = lambda I, v=0: npm._float(I, v)


# ------------------------------------------------------------------------------------------------------------------ FFT
def spec_of(I, v):
    a = arr(I, v)
    b_ = build(I, a.dims, lambda iv: elem(I, a, iv), dt_of(I, a))
    return a


@model("numpy.fft.fft", "scipy.fft.fft", "numpy.fft.rfft", "scipy.fft.rfft")
def _fft(I, v, n=None, axis=-1, **kw):
    a = arr(I, v)
    if len(a.dims) != 1:
        raise Undecided("multi-dimensional FFT")
    N = a.dims[0]
    ivs = [fresh_index(N)]
    body = elem(I, a, ivs)
    if n is not None:
        M = P_of(n)
        if M != N:
            ivs2 = [fresh_index(M)]
            body = phi(gt(N - ivs2[0]), subst(body, {aid_of(ivs[0]): ivs2[0]}), ZERO)
            ivs, N = ivs2, M
    return SpecV((N,), tuple(ivs), body)


@model("numpy.fft.ifft", "scipy.fft.ifft", "numpy.fft.irfft", "scipy.fft.irfft")
def _ifft(I, v, n=None, **kw):
    if not isinstance(v, SpecV):
        raise Undecided("inverse FFT of a plain array")
    return build(I, v.dims, lambda iv: subst(v.body, {aid_of(a): x for a, x in zip(v.ivs, iv)}), "complex128", note=None)


def spec_binop(I, op, a, b_):
    if op == "Mult" and isinstance(a, SpecV) and isinstance(b_, SpecV):
        N = a.dims[0]
        need_eq(I, N, b_.dims[0])
        i = fresh_index(N)
        k = fresh_index(N, "k")
        fa = lambda x: subst(a.body, {aid_of(a.ivs[0]): x})
        fb = lambda x: subst(b_.body, {aid_of(b_.ivs[0]): x})
        t1 = sum_over(fa(i - k) * fb(k), k, i + 1)
        k2 = fresh_index(N, "k")
        # terms that wrap around: k = i+1 .. N-1
        t2 = sum_over(fa(N - 1 - k2) * fb(i + 1 + k2), k2, N - 1 - i)
        return SpecV((N,), (i,), t1 + t2)
    if op in ("Add", "Sub") and isinstance(a, SpecV) and isinstance(b_, SpecV):
        need_eq(I, a.dims[0], b_.dims[0])
        bb = subst(b_.body, {aid_of(b_.ivs[0]): a.ivs[0]})
        return SpecV(a.dims, a.ivs, a.body + bb if op == "Add" else a.body - bb)
    s, o = (a, b_) if isinstance(a, SpecV) else (b_, a)
    p = P_of(o)
    if p is not None and (op == "Mult" or (op == "Div" and s is a)):
        return SpecV(s.dims, s.ivs, s.body * p if op == "Mult" else s.body / p)
    return Unk("spectral operation")


npm.spec_binop = spec_binop


@model("numpy.real")
def _real(I, v):
    if isinstance(v, SpecV):
        return Unk("real part of a spectrum")
    if isinstance(v, ARef) and dt_of(I, v) == "complex128":
        return build(I, v.dims, lambda iv: elem(I, v, iv), "float64")
    return v


# ------------------------------------------------------------------------------------------------------------- random
class Rng(Model):
    """A numpy Generator; key identifies where its entropy comes from."""
    tag = "rng"
    _n = 0

    def __init__(self, key, parent=None):
        self.key, self.parent = key, parent
        self.born = ()
        Rng._n += 1
        self.uid = Rng._n

    def __repr__(self):
        return f"Rng({self.key})"

    def isa(self, d):
        return d in ("numpy.random.Generator", "object")

    def get(self, I, name):
        m = RNG_METHODS.get(name)
        if m is not None:
            return PrimV("rng." + name, lambda I, *a, **k: m(I, self, *a, **k))
        if name == "bit_generator":
            return BitGenM(self)
        if name == "__hasattr__":
            return lambda I, n: ONE if n in RNG_METHODS or n in ("bit_generator",) else ZERO
        return MISSING


class BitGenM(Model):
    def __init__(self, rng):
        self.rng = rng

    def get(self, I, name):
        if name == "seed_seq":
            return SeedSeq(self.rng)
        return MISSING


class SeedSeq(Model):
    def __init__(self, src):
        self.src = src

    def isa(self, d):
        return d in ("numpy.random.SeedSequence", "object")

    def get(self, I, name):
        if name == "spawn":
            def f(I, n):
                return spawn(I, self.src, n, lambda r: SeedSeq(r))
            return PrimV("spawn", f)
        return MISSING


class SpawnM(npm.SeqM):
    """The list of n independent children of a generator."""
    tag = "spawn"

    def __init__(self, rng, n, wrap):
        self.rng, self.n, self.wrap, self.base = rng, P(n), wrap, ZERO

    def child(self, j):
        return self.wrap(Rng(("spawn", self.rng.key if isinstance(self.rng, Rng) else self.rng, self.base + j), self.rng))

    @property
    def segs(self):
        return [("sym", self.n, lambda j: self.child(j))]

    def get(self, I, name):
        if name == "__segs__":
            if self.n.is_const() and self.n.cval() <= I.unroll:
                return lambda I: [("v", self.child(P(i))) for i in range(int(self.n.cval()))]
            return lambda I: self.segs
        return super().get(I, name)


def spawn(I, rng, n, wrap=lambda r: r):
    p = P_of(n)
    I.event("spawn", gen=rng, n=p)
    r = SpawnM(rng, p, wrap)
    r.base = getattr(rng, "spawned", ZERO)
    rng.spawned = r.base + p
    return r


def draw(I, rng, law, size=None, out=None, dtype=None, **par):
    if out is not None:
        dims = out.dims
        d = I.heap[out.buf].dtype
        asked = to_dt(dtype)
        if asked in ("float32", "float64") and d in npm.DTYPES and d != asked:
            I.raise_if(ONE, "TypeError")  # the generators fill arrays of the requested type only
    elif size is None:
        dims, d = (), "float64"
    else:
        dims, d = tuple(shape_of(I, size)), to_dt(dtype)
    info = {}
    nm, f = I.fresh(law, dims, law=law, **({"nonneg": True} if law == "U01" else {}))
    I.event("draw", gen=rng, law=law, dims=dims, name=nm, out=out, par=par, dtype=dtype)
    if not dims:
        return Sc(f(()), "float")
    return build(I, dims, f, d), nm


def _affine(I, r, a, b_):
    """a + b * r elementwise with parameters broadcast."""
    return ew(I, lambda x, y, z: y + z * x, r, a, b_)


def rng_random(I, rng, size=None, dtype=None, out=None):
    r = draw(I, rng, "U01", size, out, dtype)
    if not isinstance(r, tuple):
        return r
    if out is not None:
        store(I, out, r[0])
        return out
    return r[0]


def rng_stdnormal(I, rng, size=None, dtype=None, out=None):
    r = draw(I, rng, "N01", size, out, dtype)
    if not isinstance(r, tuple):
        return r
    if out is not None:
        store(I, out, r[0])
        return out
    return r[0]


def rng_normal(I, rng, loc=0, scale=1, size=None):
    r = draw(I, rng, "N01", size, None)
    return _affine(I, r[0] if isinstance(r, tuple) else r, loc, scale)


def rng_uniform(I, rng, low=0, high=1, size=None):
    r = draw(I, rng, "U01", size, None)
    return _affine(I, r[0] if isinstance(r, tuple) else r, low, npm.binop(I, "Sub", high, low))


def rng_integers(I, rng, low, high=None, size=None, dtype=None, endpoint=False):
    lo, hi = (0, low) if high is None else (low, high)
    r = draw(I, rng, "U01", size, None)
    w = P_of(hi) - P_of(lo) + (1 if endpoint else 0)
    v = r[0] if isinstance(r, tuple) else r
    return ew(I, lambda x: P_of(lo) + fun("floor", x * w), v, dtype="int64")


def rng_choice(I, rng, a, size=None, replace=True, p=None, axis=0, shuffle=True):
    x = arr(I, a) if not P_of(a) is not None else npm.MODELS["numpy.arange"](I, a)
    if replace is not True or p is not None:
        return Unk("choice")
    n = x.dims[0]
    r = draw(I, rng, "U01", size, None)
    v = r[0] if isinstance(r, tuple) else r
    if isinstance(v, ARef):
        return build(I, v.dims, lambda iv: elem(I, x, [fun("floor", elem(I, v, iv) * n)]), dt_of(I, x))
    return Sc(elem(I, x, [fun("floor", P_of(v) * n)]), "np")


def rng_other(law):
    def f(I, rng, *a, size=None, **k):
        r = draw(I, rng, law, size if size is not None else (a[-1] if a and law in ("exponential",) else None), None)
        return r[0] if isinstance(r, tuple) else r
    return f


RNG_METHODS = {"random": rng_random, "standard_normal": rng_stdnormal, "normal": rng_normal, "uniform": rng_uniform,
               "integers": rng_integers, "choice": rng_choice, "spawn": lambda I, r, n: spawn(I, r, n),
               "shuffle": lambda I, r, x: (I.event("draw", gen=r, law="shuffle", dims=(), name=None, out=x, par={}, dtype=None), npm.clobber(I, [x], {}))[1],
               "permutation": lambda I, r, x: (I.event("draw", gen=r, law="perm", dims=(), name=None, out=None, par={}, dtype=None), Unk("permutation"))[1],
               "standard_exponential": rng_other("E1"), "exponential": rng_other("E1"), "gamma": rng_other("gamma"), "beta": rng_other("beta")}


@model("numpy.random.default_rng", "numpy.random.Generator")
def _default_rng(I, seed=None):
    if isinstance(seed, Rng):
        return seed
    if isinstance(seed, SeedSeq):
        return seed.src if isinstance(seed.src, Rng) else Rng(("seq", seed.src.key if hasattr(seed.src, "key") else id(seed.src)))
    if isinstance(seed, Model):
        r = seed.get(I, "__rng__")
        if r is not MISSING:
            return r(I)
    if seed is None:
        k = ("entropy", fresh_name("os"))
        I.event("os-entropy", key=k)
        return Rng(k)
    r = Rng(("seed", npm.akey(I, seed)))
    r.born = tuple(l[2] for l in I.loops)
    I.event("rng-new", gen=r)
    return r


@model("numpy.random.SeedSequence")
def _seedseq(I, seed=None, **k):
    return SeedSeq(_default_rng(I, seed))


def _global_rng(law):
    def f(I, *a, **k):
        I.event("global-draw", fn=law)
        size = k.get("size", a if law in ("rand", "randn") else (a[-1] if a else None))
        if law in ("seed",):
            return None
        if size is None or size == ():
            nm, g = I.fresh("G" + law, ())
            I.event("draw", gen=Rng(("global",)), law="?" + law, dims=(), name=nm, out=None, par={}, dtype=None)
            return Sc(g(()), "float")
        dims = tuple(shape_of(I, size))
        r = draw(I, Rng(("global",)), {"rand": "U01", "randn": "N01", "random": "U01", "standard_normal": "N01"}.get(law, "?" + law), size, None)
        return r[0]
    return f


for _n in ("rand", "randn", "random", "random_sample", "uniform", "normal", "standard_normal", "choice", "randint", "seed", "permutation", "shuffle"):
    MODELS["numpy.random." + _n] = _global_rng(_n)
for _n in ("random", "uniform", "gauss", "choice", "randint", "shuffle", "sample", "seed"):
    MODELS["random." + _n] = _global_rng(_n)
for _n in ("time.time", "time.perf_counter", "time.time_ns", "os.getpid", "os.urandom", "time.monotonic"):
    def _nd(I, *a, _n=_n, **k):
        I.event("nondeterministic", fn=_n)
        return Sc(sym(fresh_name(_n)), "float")
    MODELS[_n] = _nd


@model("scipy.stats.ortho_group")
def _orthog(I, dim=None, seed=None):
    return OrthoM(dim, seed)


class OrthoM(Model):
    def __init__(self, dim, seed):
        self.dim, self.seed = dim, seed

    def get(self, I, name):
        if name == "rvs":
            return PrimV("rvs", lambda I, dim=None, size=1, random_state=None: _ortho_rvs(I, self.dim if dim is None else dim, random_state if random_state is not None else self.seed))
        return MISSING


def _ortho_rvs(I, dim, seed):
    if seed is None:
        I.event("global-draw", fn="ortho_group.rvs")
        rng = Rng(("global",))
    elif isinstance(seed, Rng):
        rng = seed
    else:
        rng = _default_rng(I, seed)
    n = P_of(dim)
    nm, f = I.fresh("haar", (n, n), ortho=1)
    I.event("draw", gen=rng, law="haar", dims=(n, n), name=nm, out=None, par={}, dtype=None)
    return build(I, (n, n), f)


MODELS["scipy.stats.ortho_group.rvs"] = lambda I, dim=None, size=1, random_state=None: _ortho_rvs(I, dim, random_state)


@model("scipy.spatial.distance.squareform")
def _squareform(I, v, *a, **k):
    x = arr(I, v)
    if len(x.dims) != 1:
        return Unk("squareform")
    # the matrix is symmetric with a zero diagonal; its side n satisfies n(n-1)/2 = len
    key = npm.akey(I, x)
    N = x.dims[0]
    n = tri_side(N)
    if n is None:
        n = fun("int", fun("squareform_side", N))
    nm, f = npm.afun(I, "square", (key,), (n, n))

    def g(iv):
        i, j = iv
        return phi(gt(j - i), f([i, j]), phi(gt(i - j), f([j, i]), ZERO))
    return build(I, (n, n), g)


def tri_side(N):
    """n with N = n(n-1)/2."""
    fr = [a for a in N.free()]
    if len(fr) != 1:
        return None
    n = poly.sym_poly(fr[0])
    for off in (0, 1, -1, 2):
        m = n + off
        if N == (m * (m - 1)).scale(Fr(1, 2)):
            return m
    return None


@model("scipy.sparse.diags", "scipy.sparse.diags_array", raw=True)
def _sdiags(I, diagonals, offsets=0, shape=None, format=None, dtype=None, **kw):
    offs = [P_of(x) for x in I.sequence(offsets)] if isinstance(offsets, (LRef, tuple, ARef)) else [P_of(offsets)]
    rows = list(I.sequence(diagonals)) if isinstance(offsets, (LRef, tuple, ARef)) else [diagonals]
    rows = [arr(I, x) for x in rows]
    if len(rows) != len(offs) or not all(o.is_const() for o in offs):
        raise Undecided("diags")
    if shape is None:
        m = rows[0].dims[0] + abs(int(offs[0].cval()))
        dims = (m, m)
    else:
        dims = tuple(shape_of(I, shape))

    def f(iv):
        i, j = iv
        out = ZERO
        for r, k in zip(rows, offs):
            at = i if k.cval() >= 0 else j
            out = out + eq(j - i - k) * (elem(I, r, [ZERO]) if npm.is_zero(r.dims[0] - 1) else elem(I, r, [at]))
        return out
    return build(I, dims, f, dt_of(I, rows[0]))


@model("scipy.sparse.spdiags")
def _spdiags(I, data=None, diags=None, m=None, n=None, format=None, **kw):
    d = from_list(I, data) if isinstance(data, (LRef, tuple)) else arr(I, data)
    ds = [P_of(x) for x in I.sequence(diags)]
    if m is None:
        raise Undecided("spdiags")
    M, N = P_of(m), P_of(n)
    L = d.dims[1]
    # spdiags: entry (i, j) on diagonal k holds data[k, j]

    def f(iv):
        i, j = iv
        out = ZERO
        for r, k in enumerate(ds):
            out = out + eq(j - i - k) * phi(gt(L - j), elem(I, d, [P(r), j]), ZERO)
        return out
    r = build(I, (M, N), f, dt_of(I, d))
    I.event("spdiags", arr=r)
    return r


# ------------------------------------------------------------------------------------------------- operators and processes
@model("scipy.sparse.linalg.aslinearoperator")
def _aslin(I, A):
    return A


@model("multiprocessing.cpu_count", "os.cpu_count")
def _cpu(I):
    return Sc(sym("cpu_count", integer=True, lo=1), "int")


class Executor(Model):
    tag = "executor"

    def __init__(self, workers):
        self.workers = workers

    def get(self, I, name):
        if name == "submit":
            def f(I, fn, *a, **k):
                ev = I.event("submit", fn=fn, args=a, kw=k)
                r = I.call(fn, list(a), k)
                I.event("submitted", task=ev)
                fut = FutureM(ev, r)
                fut.fresh_in_loop = len(I.loops)
                return fut
            return PrimV("submit", f)
        if name == "map":
            def f(I, fn, *its, **k):
                body = []

                def task(I, *a):
                    ev = I.event("submit", fn=fn, args=a, kw={})
                    r = I.call(fn, list(a), {})
                    I.event("submitted", task=ev)
                    return r
                r = npm._map(I, PrimV("task", task), *its)
                return FuturesM(r)
            return PrimV("map", f)
        if name == "shutdown":
            def f(I, wait=True, **k):
                I.event("shutdown", wait=wait)
            return PrimV("shutdown", f)
        if name == "__enter__":
            return PrimV("enter", lambda I: self)
        if name == "__exit__":
            return PrimV("exit", lambda I, *a: I.event("shutdown", wait=True) and None)
        return MISSING


class FuturesM(Model):
    def __init__(self, lst):
        self.lst = lst

    def get(self, I, name):
        if name == "__segs__":
            def f(I):
                I.event("wait", futures=self)
                return I.iteration(self.lst)
            return f
        return MISSING


class FutureM(Model):
    tag = "future"
    _n = 0

    def __init__(self, ev, r):
        self.ev, self.r = ev, r
        FutureM._n += 1
        self.uid = FutureM._n

    def with_result(self, r):
        return FutureM(self.ev, r)

    def get(self, I, name):
        if name == "result":
            def f(I, timeout=None):
                I.event("wait", futures=self)
                return self.r
            return PrimV("result", f)
        if name == "done":
            return PrimV("done", lambda I: True)
        return MISSING


MODELS["concurrent.futures.ThreadPoolExecutor"] = lambda I, max_workers=None, *a, **k: Executor(max_workers)
MODELS["concurrent.futures.thread.ThreadPoolExecutor"] = MODELS["concurrent.futures.ThreadPoolExecutor"]
MODELS["concurrent.futures.ProcessPoolExecutor"] = MODELS["concurrent.futures.ThreadPoolExecutor"]


@model("concurrent.futures.wait", "concurrent.futures.as_completed", raw=True)
def _wait(I, fs, timeout=None, return_when=None, **kw):
    I.event("wait", futures=fs, timeout=timeout, return_when=return_when)
    return fs


MODELS["concurrent.futures.as_completed"] = _wait


# --------------------------------------------------------------------------------------------------- the native extension
def contents(I, x):
    return npm.akey(I, x) if isinstance(x, ARef) else x


def native_run(I, A, v, k, rtol, orth, Q, n_alpha, n_beta, olds, early):
    """What the native routine leaves in its outputs: unknown functions of operator, start vector, degree, tolerance, depth and initial basis.
    With early termination only the leading entries are written: the run ends after the first negligible off-diagonal."""
    n, ncv = Q.dims
    oa, ob, oq = olds
    q = contents(I, Q)
    zero = npm.akey(I, build(I, Q.dims, lambda iv: ZERO, I.heap[Q.buf].dtype))
    o = P_of(orth)
    blank = q == zero or (o is not None and o.is_const() and o.cval() == 0)
    key = (npm.akey(I, A), contents(I, v), npm.akey(I, k), npm.akey(I, rtol), npm.akey(I, orth), "blank" if blank else q)
    kp = P_of(k)
    _na, fa = npm.afun(I, "lzalpha", key, (kp,))
    _nb, fb = npm.afun(I, "lzbeta", key, (kp + 1,), nonneg=True)
    nq, fq = npm.afun(I, "lzQ", key + (npm.akey(I, sc(ncv, "int")),), (n, ncv))
    _nv, fv = npm.afun(I, "lzv", key, v.dims)
    steps = kp
    if early:
        tol = power(n, Fr(1, 2)) * P_of(rtol)
        small = _flatnz(I, build(I, (kp - 1,), lambda iv: gt(tol - fb((iv[0] + 1,))), "bool"))
        cnt = small.dims[0]
        steps = phi(eq(cnt), kp, elem(I, small, [ZERO]) + 1)
    alpha = lambda iv: phi(gt(steps - iv[0]), fa(iv), oa(*iv))
    beta = lambda iv: phi(eq(iv[0]), ZERO, phi(ge(steps - iv[0]), fb(iv), ob(*iv)))
    if npm.is_zero(ncv - kp) or not early:
        basis = lambda iv: phi(gt(steps - iv[1]), fq(iv), phi(eq(iv[1] - ncv + 1), ZERO, oq(*iv)))
    else:
        basis = fq
    return alpha, beta, basis, fv, steps


@model("primate._lanczos.lanczos")
def _native_lanczos(I, A, v, k, rtol, orth, alpha, beta, Q):
    ev = I.event("native", A=A, v=v, k=k, rtol=rtol, orth=orth, alpha=alpha, beta=beta, Q=Q,
                 vkey=contents(I, v), qkey=contents(I, Q), heap=dict(I.heap),
                 dts=tuple(dt_of(I, x) if isinstance(x, ARef) else None for x in (v, alpha, beta, Q)))
    if P_of(k) is None or P_of(rtol) is None or not all(isinstance(x, ARef) for x in (v, alpha, beta, Q)):
        raise Undecided("arguments of the native routine")

    def old(a):
        ix = [poly.fresh_index(d) for d in a.dims]
        body = elem(I, a, ix)
        return lambda *jx: poly.subst(body, {poly.aid_of(i): P(j) for i, j in zip(ix, jx)})
    fa, fb, fq, fv, steps = native_run(I, A, v, k, rtol, orth, Q, alpha.dims[0], beta.dims[0], (old(alpha), old(beta), old(Q)), getattr(I, "early_stop", False))
    ev.d["steps"] = steps
    for a, f in ((alpha, fa), (beta, fb), (Q, fq), (v, fv)):
        store(I, a, build(I, a.dims, f, I.heap[a.buf].dtype))
    return None
