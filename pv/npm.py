"""Abstract models of the builtins and of the numpy/scipy functions the package uses."""
import itertools
from . import poly
from .poly import (P, Poly, Fr, sym, subst, fresh_index, fresh_name, aid_of, gt, ge, eq, phi, pmax, pmin, is_zero, ATOMS, SYMS,
                   FACTS, el, tensor, TENSORS, sum_over, prove_ge0, opaque_bool, linear_in, fun, power, lam, lam_level, atoms_of)
from .values import *

ZERO, ONE = Poly.const(0), Poly.const(1)
MODELS, CONSTS, BUILTINS = {}, {}, {}
INF, NAN, PI = sym("inf", lo=1), sym("nan"), sym("pi", lo=3)


def model(*names, raw=False):
    def deco(f):
        for n in names:
            MODELS[n] = f
        if raw:
            f.raw = True
        return f
    return deco


def canon(name):
    for a, b in (("numpy.core.", "numpy."), ("scipy.linalg.basic.", "scipy.linalg."), ("numpy.linalg.linalg.", "numpy.linalg."), ("scipy.sparse.linalg._interface.", "scipy.sparse.linalg."), ("math.", "numpy.")):
        if name.startswith(a):
            return b + name[len(a):]
    return name


CONSTS.update({"numpy.newaxis": None, "numpy.inf": Sc(INF, "float"), "math.inf": Sc(INF, "float"), "numpy.Inf": Sc(INF, "float"),
               "numpy.nan": Sc(NAN, "float"), "math.nan": Sc(NAN, "float"), "numpy.NaN": Sc(NAN, "float"),
               "numpy.pi": Sc(PI, "float"), "math.pi": Sc(PI, "float")})
for _n in ("float64", "float32", "int64", "int32", "bool_", "complex128", "int_", "float_", "double", "single", "longdouble", "intp", "uint64", "uint32", "uint16", "uint8", "int8", "int16", "float16", "half", "complex64", "csingle", "cdouble", "clongdouble", "object_"):
    _c = {"int_": "int64", "float_": "float64", "double": "float64", "single": "float32", "bool_": "bool", "intp": "int64", "half": "float16", "csingle": "complex64", "cdouble": "complex128", "object_": "object"}.get(_n, _n)
    CONSTS[f"numpy.{_n}"] = DtV(_c)


# ---------------------------------------------------------------------------------------------------------------- dtypes
def to_dt(v, default="float64"):
    if v is None:
        return default
    if isinstance(v, DtV):
        return v.name
    if isinstance(v, str):
        return {"d": "float64", "f": "float32", "f8": "float64", "f4": "float32", "float": "float64", "int": "int64", "double": "float64", "single": "float32", "F": "complex64", "D": "complex128", "e": "float16", "half": "float16", "c16": "complex128", "c8": "complex64", "complex": "complex128", "?": "bool", "i8": "int64", "i4": "int32", "f2": "float16"}.get(v.lstrip("<=|"), v.lstrip("<=|"))
    if isinstance(v, PrimV):
        return {"float": "float64", "int": "int64", "bool": "bool", "complex": "complex128"}.get(v.name, "?")
    return "?"


# kind, item size and type character of the dtypes
DTYPES = {"bool": ("b", 1, "?"), "int8": ("i", 1, "b"), "int16": ("i", 2, "h"), "int32": ("i", 4, "i"), "int64": ("i", 8, "l"), "uint8": ("u", 1, "B"),
          "uint16": ("u", 2, "H"), "uint32": ("u", 4, "I"), "uint64": ("u", 8, "L"), "float16": ("f", 2, "e"), "float32": ("f", 4, "f"),
          "float64": ("f", 8, "d"), "longdouble": ("f", 16, "g"), "complex64": ("c", 8, "F"), "complex128": ("c", 16, "D"), "clongdouble": ("c", 32, "G"),
          "object": ("O", 8, "O")}
DT_GROUPS = {"floating": "f", "complexfloating": "c", "inexact": "fc", "integer": "iu", "signedinteger": "i", "unsignedinteger": "u", "number": "iufc", "generic": "biufcO"}
for _n in DT_GROUPS:
    CONSTS[f"numpy.{_n}"] = DtV("abstract " + _n)
KNOWN_DT = ("bool", "int32", "int64", "float32", "float64", "complex128", "longdouble")


def promote(*dts):
    """numpy result type; python scalars come as 'pybool', 'pyint', 'pyfloat'."""
    hard = [d for d in dts if not d.startswith("py")]
    soft = [d for d in dts if d.startswith("py")]
    if not hard:
        return {"pybool": "bool", "pyint": "int64", "pyfloat": "float64"}[max(soft, key=["pybool", "pyint", "pyfloat"].index)] if soft else "float64"
    unk = sorted({d for d in hard if d not in KNOWN_DT})
    if unk:
        if len(set(hard)) == 1:
            return hard[0]
        if "float64" in hard and len(unk) == 1:
            return "float64"
        if len(unk) == 1 and all(d in unk or d in ("bool",) for d in hard):
            return unk[0]
        return "promote(" + ",".join(sorted(set(hard))) + ")"
    r = max(hard, key=KNOWN_DT.index)
    if "float32" in hard and any(d in ("int64", "int32") for d in hard) and r == "float32":
        r = "float64"
    if "pyfloat" in soft and r in ("bool", "int32", "int64"):
        r = "float64"
    if "pyint" in soft and r == "bool":
        r = "int64"
    return r


def dt_of(I, v):
    if isinstance(v, ARef):
        return I.heap[v.buf].dtype
    t = ty_of(v)
    return {"bool": "pybool", "int": "pyint", "np": "float64"}.get(t, "pyfloat")


def is_int_dt(d):
    return d in ("int32", "int64", "bool", "uint64", "uint8", "int8")


# ---------------------------------------------------------------------------------------------------------------- arrays
def new_array(I, dims, ivs, body, dtype="float64", order="C", note=None):
    dims = tuple(P(d) for d in dims)
    I.nid += 1
    if I.let_at is not None and dims and weight(body) > I.let_at:
        body = let(I, dims, ivs, body)
    I.heap[I.nid] = Buf(dims, ivs, body, dtype, order, note)
    iv2 = [fresh_index(d) for d in dims]
    return ARef(I.nid, dims, iv2, iv2)


def weight(p):
    """A measure of the evaluation cost of a term: monomials and nested sums."""
    return sum(1 + 3 * len(bs) for (_fs, bs) in p.t)


def let(I, dims, ivs, body):
    """Names an intermediate array: its elements become applications of an interned array-valued function."""
    base = max([lam_level(body)] + [lam_level(d) for d in dims])
    key = ("arr", dims, base, subst(body, {aid_of(x): lam(base + k) for k, x in enumerate(ivs)}))
    _nm, f = afun(I, "let", (key,), dims)
    return f(list(ivs))


def build(I, dims, f, dtype="float64", order="C", note=None):
    dims = tuple(P(d) for d in dims)
    ivs = [fresh_index(d) for d in dims]
    return new_array(I, dims, ivs, f(ivs), dtype, order, note)


def elem(I, a, idx):
    """Element polynomial of array a at index polynomials idx."""
    b = I.heap[a.buf]
    m = {aid_of(v): P(x) for v, x in zip(a.ivs, idx)}
    bi = [subst(e, m) for e in a.bidx]
    return subst(b.body, {aid_of(v): x for v, x in zip(b.ivs, bi)})


def asarr(I, v):
    if isinstance(v, ARef):
        return v
    p = P_of(v)
    if p is not None:
        t = ty_of(v)
        return build(I, (), lambda iv: p, {"int": "int64", "bool": "bool"}.get(t, "float64"))
    if isinstance(v, (LRef, tuple)):
        return from_list(I, v)
    if isinstance(v, RangeV):
        lo, st = P_of(v.lo), P_of(v.step)
        n = pmax(fun("ceil", (P_of(v.hi) - lo) / st), 0)
        return build(I, (n,), lambda iv: lo + st * iv[0], "int64")
    if isinstance(v, Unk):
        raise Undecided(f"array of {v}")
    raise Undecided(f"array of {v!r}")


def list_segs(I, v):
    if isinstance(v, tuple):
        return [("v", x) for x in v]
    return list(I.heap[v.id].segs)


def from_list(I, v, dtype=None):
    segs = list_segs(I, v)
    if any(isinstance(s[1], PhiV) for s in segs if s[0] == "v"):
        raise Undecided("array of alternatives")
    parts = []  # (count, inner dims, fn(k, inner idx), dtype)
    scal = []

    def flush():
        if scal:
            vals = list(scal)
            if all(P_of(x) is not None for x in vals):
                ps = [P_of(x) for x in vals]
                dt = promote(*[dt_of(I, x) for x in vals])

                def f(k, inner, ps=ps):
                    if k.is_const():
                        c = int(k.cval())
                        return ps[c] if 0 <= c < len(ps) else ZERO
                    out = ZERO
                    for i, p in enumerate(ps):
                        out = out + eq(k - i) * p
                    return out
                parts.append((P(len(ps)), (), f, dt))
            else:
                arrs = [asarr(I, x) for x in vals]
                nd = {len(x.dims) for x in arrs}
                if len(nd) != 1:
                    raise Undecided("ragged array")
                dims = arrs[0].dims
                for x in arrs[1:]:
                    for d1, d2 in zip(dims, x.dims):
                        need_eq(I, d1, d2)
                dt = promote(*[I.heap[x.buf].dtype for x in arrs])
                elems = [(lambda inner, x=x: elem(I, x, inner)) for x in arrs]

                def f(k, inner, elems=elems):
                    if k.is_const():
                        return elems[int(k.cval())](inner)
                    out = ZERO
                    for i, e in enumerate(elems):
                        out = out + eq(k - i) * e(inner)
                    return out
                parts.append((P(len(arrs)), dims, f, dt))
            scal.clear()
    for s in segs:
        if s[0] == "v":
            scal.append(s[1])
            continue
        flush()
        if s[0] == "rows":
            a = s[1]
            parts.append((a.dims[0], a.dims[1:], lambda k, inner, a=a: elem(I, a, [k] + list(inner)), I.heap[a.buf].dtype))
        elif s[0] == "arr":
            _, dims, ivs, body, dt = s
            parts.append((dims[0], dims[1:], lambda k, inner, ivs=ivs, body=body: subst(body, {aid_of(x): y for x, y in zip(ivs, [k] + list(inner))}), dt))
        elif s[0] == "gen":
            _, N, t, snap = s
            if snap[0] == "s":
                parts.append((N, (), lambda k, inner, snap=snap, t=t: subst(snap[1], {aid_of(t): k}), {"int": "int64", "bool": "bool"}.get(snap[2], "float64")))
            elif snap[0] == "a":
                _, dims, ivs, body, dt = snap
                if any(aid_of(t) in d.free() for d in dims):
                    raise Undecided("ragged array")
                parts.append((N, dims, lambda k, inner, ivs=ivs, body=body, t=t: subst(body, {**{aid_of(x): y for x, y in zip(ivs, inner)}, aid_of(t): k}), dt))
            else:
                raise Undecided("array of a generated list")
        else:
            raise Undecided("array of a joined list")
    flush()
    if not parts:
        return build(I, (ZERO,), lambda iv: ZERO, "float64" if dtype is None else dtype)
    inner = parts[0][1]
    for p in parts[1:]:
        if len(p[1]) != len(inner):
            raise Undecided("ragged array")
        for d1, d2 in zip(inner, p[1]):
            need_eq(I, d1, d2)
    dt = dtype or promote(*[p[3] for p in parts])
    return concat_parts(I, [(p[0], p[2]) for p in parts], inner, dt)


def concat_parts(I, parts, inner, dt):
    n = sum((p[0] for p in parts), ZERO)

    def f(iv):
        k, rest = iv[0], list(iv[1:])
        return pick(parts, k, rest)
    return build(I, (n,) + tuple(inner), f, dt)


def pick(parts, k, rest):
    out = None
    off = sum((p[0] for p in parts), ZERO)
    for cnt, fn in reversed(parts):
        end, off = off, off - cnt
        v = fn(k - off, rest)
        out = v if out is None else phi(ge(k - end), out, v)
    return out


def need_eq(I, d1, d2, exc="ValueError"):
    if d1 == d2 or is_zero(d1 - d2):
        return
    I.raise_if(ONE - eq(d1 - d2), exc)


def bcast(I, dimss):
    n = max((len(d) for d in dimss), default=0)
    out = []
    for k in range(n):
        cur = ONE
        for d in dimss:
            j = k - (n - len(d))
            if j < 0:
                continue
            x = d[j]
            if x == ONE:
                continue
            if cur == ONE:
                cur = x
            elif x != cur:
                need_eq(I, cur, x)
                if x.is_const():
                    cur = x
        out.append(cur)
    return tuple(out)


def at_b(I, v, dims, ivs):
    """Element of v broadcast to dims at ivs."""
    if not isinstance(v, ARef):
        return P_of(v)
    off = len(dims) - len(v.dims)
    idx = [ZERO if (v.dims[k] == ONE) else ivs[off + k] for k in range(len(v.dims))]
    return elem(I, v, idx)


def scal_res(I, p, dtype=None):
    if dtype == "bool":
        return sc(p, "bool")
    if dtype and is_int_dt(dtype):
        return sc(p, "int")
    return Sc(p, "np")


def ew(I, f, *args, dtype=None, out=None):
    vals = []
    for a in args:
        if isinstance(a, Unk):
            return a
        if isinstance(a, (LRef, tuple)):
            a = asarr(I, a)
        if P_of(a) is None and not isinstance(a, ARef):
            raise Undecided(f"elementwise operation on {a!r}")
        vals.append(a)
    dt = dtype or promote(*[dt_of(I, a) for a in vals])
    if not any(isinstance(a, ARef) for a in vals):
        r = f(*[P_of(a) for a in vals])
        if out is not None:
            store(I, out, Sc(r))
            return out
        return scal_res(I, r, dt)
    dims = bcast(I, [a.dims for a in vals if isinstance(a, ARef)])
    ivs = [fresh_index(d) for d in dims]
    body = f(*[at_b(I, a, dims, ivs) for a in vals])
    order = "F" if all(I.heap[a.buf].order == "F" for a in vals if isinstance(a, ARef)) and len(dims) > 1 else "C"
    if out is not None:
        r = new_array(I, dims, ivs, body, dt, order)
        store(I, out, r)
        return out
    if not dims:
        return scal_res(I, body, dt)
    return new_array(I, dims, ivs, body, dt, order)


def store(I, view, v):
    """Writes v (broadcast) into every element of view."""
    b = I.heap[view.buf]
    if b.note == "readonly":
        I.event("write-readonly", buf=view.buf)
    if isinstance(v, (LRef, tuple)):
        v = asarr(I, v)
    if isinstance(v, Unk) or (P_of(v) is None and not isinstance(v, ARef)):
        I.incomplete.append(f"store of {v!r} at {I.pos}")
        nm = fresh_name("unknown")
        tensor(nm, b.dims)
        I.heap[view.buf] = b.with_body(el(nm, b.ivs))
        I.event("store", view=view, value=v)
        return
    if view.buf in I.regions_only:
        # only where it is written matters, not what
        I.heap[view.buf] = b.with_body(sym("unknown_contents"))
        I.event("store", view=view, value=v)
        return
    bivs = [fresh_index(d) for d in b.dims]
    # solve bidx(iv) = biv
    sol, cond, used = {}, ONE, set()
    for n, iv in enumerate(view.ivs):
        a = aid_of(iv)
        for k, e in enumerate(view.bidx):
            if k in used:
                continue
            lin = linear_in(e, a) if a in e.free() else None
            if lin is None or not (lin[0].is_const() if isinstance(lin[0], Poly) else True):
                continue
            c = lin[0].cval() if isinstance(lin[0], Poly) else Fr(lin[0])
            if abs(c) != 1 and not view.dims[n].is_const():
                continue
            if any(aid_of(x) in lin[1].free() for x in view.ivs if x is not iv):
                continue
            s = (bivs[k] - lin[1]).scale(Fr(1) / c)
            if abs(c) != 1:
                m = int(view.dims[n].cval())
                cond = cond * sum((eq(s - q) for q in range(m)), ZERO)
            sol[a] = s
            used.add(k)
            if not (lin[1] == ZERO and c == 1 and view.dims[n] == b.dims[k]):
                cond = cond * ge(s) * gt(view.dims[n] - s)
            break
        else:
            if view.dims[n] == ONE:
                sol[a] = ZERO
                continue
            raise Undecided("store through an irregular view")
    for k, e in enumerate(view.bidx):
        if k not in used:
            cond = cond * eq(bivs[k] - subst(e, sol))
    if isinstance(v, ARef):
        vd = list(v.dims)
        while len(vd) > len(view.dims):
            if vd[0] != ONE:
                need_eq(I, vd[0], ONE)
            vd = vd[1:]
        off = len(v.dims) - len(vd)
        for d1, d2 in zip(vd, view.dims[len(view.dims) - len(vd):]):
            if d1 != ONE:
                need_eq(I, d1, d2)
        idx = [ZERO] * off
        tail = view.ivs[len(view.dims) - len(vd):]
        for d, iv in zip(vd, tail):
            idx.append(ZERO if d == ONE else sol[aid_of(iv)])
        val = elem(I, v, idx)
        vdt = I.heap[v.buf].dtype
    else:
        val = P_of(v)
        vdt = dt_of(I, v)
    if is_int_dt(b.dtype) and b.dtype != "bool" and not (is_int_dt(vdt) or vdt in ("pyint", "pybool")):
        val = fun("int", val)
    old = subst(b.body, {aid_of(x): y for x, y in zip(b.ivs, bivs)})
    b = I.heap[view.buf]
    new = phi(cond, val, old)
    if I.let_at is not None and weight(new) > I.let_at and not I.loops:
        new = let(I, b.dims, bivs, new)
    I.heap[view.buf] = Buf(b.dims, bivs, new, b.dtype, b.order, b.note)
    I.event("store", view=view, value=v)


def copy(I, a, dtype=None, order="C"):
    b = I.heap[a.buf]
    return build(I, a.dims, lambda iv: elem(I, a, iv), dtype or b.dtype, order)


def reset_view(dims, f):
    ivs = [fresh_index(d) for d in dims]
    return tuple(ivs), tuple(f(ivs))


def view_of(a, dims, f):
    """View of a whose element iv is a[f(iv)]."""
    dims = tuple(P(d) for d in dims)
    ivs = [fresh_index(d) for d in dims]
    idx = f(ivs)
    m = {aid_of(v): P(x) for v, x in zip(a.ivs, idx)}
    return ARef(a.buf, dims, ivs, [subst(e, m) for e in a.bidx])


# -------------------------------------------------------------------------------------------------------------- indexing
def position_in(p, d):
    """p is the position of the largest or smallest entry of an array of d entries."""
    if len(p.t) != 1:
        return False
    ((fs, bs), c), = p.t.items()
    if bs or c != 1 or len(fs) != 1 or fs[0][1] != 1:
        return False
    at = poly.ATOMS[fs[0][0]]
    return at.kind == "fun" and at.args[0] in ("argmax", "argmin") and isinstance(at.args[1], tuple) and at.args[1][:1] == ("arr",) and at.args[1][1] in ((d,), (d.cval(),))


def extreme_at(I, a, k):
    """The entry of a vector at the position of its own largest (smallest) entry is that largest (smallest) entry."""
    p = P_of(k) if len(a.dims) == 1 and not isinstance(k, (tuple, SliceV, LRef, ARef)) else None
    if p is None or len(p.t) != 1:
        return None
    (fs, bs), c = next(iter(p.t.items()))
    at = poly.ATOMS[fs[0][0]] if len(fs) == 1 and not bs and c == 1 and fs[0][1] == 1 else None
    if at is None or at.kind != "fun" or at.args[0] not in ("argmax", "argmin") or at.args[1] != akey(I, a):
        return None
    return MODELS["numpy.max" if at.args[0] == "argmax" else "numpy.min"](I, a)


def norm_index(p, dim):
    if p.is_const():
        return p if p.cval() >= 0 else dim + p
    if prove_ge0(p):
        return p
    if prove_ge0(-p - 1):
        return dim + p
    return phi(ge(p), p, dim + p)


def slice_bounds(I, s, dim):
    """(start, length, step) of a slice along an axis of extent dim."""
    step = 1 if s.step is None else P_of(s.step)
    if isinstance(step, Poly):
        if not step.is_const():
            raise Undecided("slice step")
        step = int(step.cval())
    for x in (s.lo, s.hi):
        if x is not None and P_of(x) is None:
            raise Undecided("slice bound")
    if step > 0:
        lo = ZERO if s.lo is None else clip0(norm_index(P_of(s.lo), dim), dim)
        hi = dim if s.hi is None else clip0(norm_index(P_of(s.hi), dim), dim)
        n = pmax(hi - lo, 0)
        if step != 1:
            n = fun("ceil", n.scale(Fr(1, step))) if not n.is_const() else P(-((-int(n.cval())) // step))
        return lo, n, step
    if s.lo is None and s.hi is None:
        n = dim if step == -1 else fun("ceil", dim.scale(Fr(1, -step)))
        return dim - 1, n, step
    lo = dim - 1 if s.lo is None else pmin(norm_index(P_of(s.lo), dim), dim - 1)
    hi = P(-1) if s.hi is None else pmax(norm_index(P_of(s.hi), dim), -1)
    n = pmax(lo - hi, 0)
    if step != -1:
        n = fun("ceil", n.scale(Fr(1, -step))) if not n.is_const() else P(-((-int(n.cval())) // -step))
    return lo, n, step


def clip0(p, dim):
    return pmax(pmin(p, dim), 0)


def index_view(I, a, k):
    """(view, fancy?) for a[k]."""
    ks = list(k) if isinstance(k, tuple) else [k]
    nreal = sum(1 for x in ks if x is not None and x is not Ellipsis)
    if any(x is Ellipsis for x in ks):
        p = next(i for i, x in enumerate(ks) if x is Ellipsis)
        ks[p:p + 1] = [SliceV(None, None, None)] * (len(a.dims) - nreal)
    else:
        ks += [SliceV(None, None, None)] * (len(a.dims) - nreal)
    if len([x for x in ks if x is not None]) > len(a.dims):
        I.exit("raise", "IndexError")
    dims, specs, ax, fancy, fdim = [], [], 0, False, None
    for x in ks:
        if x is None:
            dims.append(ONE)
            continue
        d = a.dims[ax]
        if isinstance(x, SliceV):
            lo, n, st = slice_bounds(I, x, d)
            specs.append(("s", len(dims), lo, st))
            dims.append(n)
        elif P_of(x) is not None and ty_of(x) != "bool":
            p = P_of(x)
            if p.is_const():
                c = p.cval()
                if d.is_const() and not (-d.cval() <= c < d.cval()):
                    I.exit("raise", "IndexError")
                if not d.is_const() and c.denominator == 1:
                    need = d - (c + 1) if c >= 0 else d + c
                    if not prove_ge0(need):
                        I.raise_if(gt(-need), "IndexError")
            elif d.is_const() and not position_in(p, d):
                if not prove_ge0(d - 1 - p):
                    I.raise_if(gt(p + 1 - d), "IndexError")
                if not prove_ge0(d + p):
                    I.raise_if(gt(-d - p), "IndexError")
            specs.append(("i", norm_index(p, d)))
        elif isinstance(x, (LRef, ARef)):
            arr = asarr(I, x)
            if I.heap[arr.buf].dtype == "bool":
                arr = mask_positions(I, arr)
            if len(arr.dims) != 1:
                raise Undecided("multi-dimensional index array")
            fancy = True
            if fdim is None:
                fdim = len(dims)
                dims.append(arr.dims[0])
            specs.append(("f", fdim, arr, d))
        else:
            raise Undecided(f"index {x!r}")
        ax += 1

    def f(iv):
        out = []
        for s in specs:
            if s[0] == "s":
                out.append(s[2] + iv[s[1]].scale(s[3]))
            elif s[0] == "i":
                out.append(s[1])
            else:
                e = elem(I, s[2], [ZERO if s[2].dims[0] == ONE else iv[s[1]]])
                out.append(norm_index(e, s[3]))
        return out
    return view_of(a, dims, f), fancy


def mask_positions(I, m):
    """The positions a one-dimensional boolean mask selects, when every entry of the mask is known."""
    if len(m.dims) != 1:
        raise Undecided("boolean mask")
    any_ = elem(I, m, [fresh_index(m.dims[0])])
    if any_ == ONE:
        return build(I, m.dims, lambda iv: iv[0], "int64")
    if any_ == ZERO:
        return build(I, (ZERO,), lambda iv: ZERO, "int64")
    if not m.dims[0].is_const() or m.dims[0].cval() > 64:
        raise Undecided("boolean mask")
    es = [elem(I, m, [P(k)]) for k in range(int(m.dims[0].cval()))]
    if not all(e.is_const() for e in es):
        raise Undecided("boolean mask")
    return asarr(I, tuple(Sc(P(k), "int") for k, e in enumerate(es) if e != ZERO))


def getitem(I, o, k):
    if isinstance(o, Unk):
        return o
    if isinstance(k, Unk):
        return k
    if isinstance(o, ARef):
        if isinstance(k, ARef) and I.heap[k.buf].dtype == "bool":
            if k.dims and o.dims and not is_zero(k.dims[0] - o.dims[0]):
                raise Undecided("boolean mask")
            k = mask_positions(I, k)
        if isinstance(k, tuple) and any(isinstance(x, Unk) for x in k):
            return Unk("index")
        ext = extreme_at(I, o, k)
        if ext is not None:
            return ext
        v, fancy = index_view(I, o, k)
        if fancy:
            return copy(I, v)
        if not v.dims:
            return scal_res(I, elem(I, v, []), I.heap[o.buf].dtype)
        return v
    if isinstance(o, tuple):
        if isinstance(k, SliceV):
            f = lambda x: None if x is None else int(P_of(x).cval())
            return o[slice(f(k.lo), f(k.hi), f(k.step))]
        p = P_of(k)
        if p is None or not p.is_const():
            raise Undecided("tuple index")
        c = int(p.cval())
        if not -len(o) <= c < len(o):
            I.exit("raise", "IndexError")
        return o[c]
    if isinstance(o, LRef):
        return list_get(I, o, k)
    if isinstance(o, DRef):
        d = I.heap[o.id]
        kk = I.hkey(k)
        if kk in d.items and d.items[kk] is not MISSING:
            return I.drop_missing(d.items[kk], kk)
        if d.extra or isinstance(kk, Poly):
            return Unk("dict item")
        I.exit("raise", "KeyError")
    if isinstance(o, str):
        p = P_of(k)
        if p is not None and p.is_const() and -len(o) <= p.cval() < len(o):
            return o[int(p.cval())]
        return Unk("str")
    if isinstance(o, Model):
        f = o.get(I, "__getitem__")
        if f is MISSING:
            return Unk(f"item of {o!r}")
        return f(I, k)
    if isinstance(o, ORef):
        return I.call(I.getattr(o, "__getitem__"), [k], {})
    if isinstance(o, ModV):
        if o.name == "numpy.c_":
            return c_(I, k if isinstance(k, tuple) else (k,))
        if o.name == "numpy.r_":
            return MODELS["numpy.concatenate"](I, tuple(MODELS["numpy.atleast_1d"](I, x) for x in (k if isinstance(k, tuple) else (k,))))
        return o
    if isinstance(o, (PrimV, ClassV, DtV)):
        return o  # generic alias
    if P_of(o) is not None:
        if ty_of(o) == "np" and k in ((), Ellipsis):
            return o
        I.exit("raise", "TypeError")
    raise Undecided(f"item of {o!r}")


def list_get(I, o, k):
    segs = I.heap[o.id].segs
    if isinstance(k, SliceV):
        if all(s[0] == "v" for s in segs):
            f = lambda x: None if x is None else int(P_of(x).cval())
            return I.new(ListC(segs[slice(f(k.lo), f(k.hi), f(k.step))]), LRef)
        raise Undecided("slice of a symbolic list")
    p = P_of(k)
    if p is None:
        raise Undecided("list index")
    if all(s[0] == "v" for s in segs):
        if p.is_const():
            c = int(p.cval())
            if not -len(segs) <= c < len(segs):
                I.exit("raise", "IndexError")
            return segs[c][1]
        vals = [s[1] for s in segs]
        q = norm_index(p, P(len(segs)))
        r = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            r = I.join_val(eq(q - i), vals[i], r)
        return r
    if len(segs) == 1:
        s = segs[0]
        if s[0] == "gen":
            q = norm_index(p, s[1])
            return unsnap(I, s[3], {aid_of(s[2]): q})
        if s[0] == "rows":
            return getitem(I, s[1], k)
        if s[0] == "arr":
            a = new_array(I, s[1], s[2], s[3], s[4])
            return getitem(I, a, k)
    n = P_of(length(I, o))
    if p.is_const() and p.cval() < 0 and segs[-1][0] == "v" and p.cval() == -1:
        return segs[-1][1]
    if p.is_const() and p.cval() == 0 and segs[0][0] == "v":
        return segs[0][1]
    return Unk("list item")


def setitem(I, o, k, v):
    if isinstance(o, Unk):
        I.incomplete.append(f"store into {o}")
        return
    if isinstance(o, ARef):
        if isinstance(k, ARef) and I.heap[k.buf].dtype == "bool":
            mask = k
            b = ew(I, lambda m, x, y: phi(m, x, y), mask, v if isinstance(v, ARef) and v.dims == o.dims or P_of(v) is not None else Unk("masked value"), o)
            store(I, o, b)
            return
        view, _ = index_view(I, o, k)
        store(I, view, v)
        return
    if isinstance(o, DRef):
        dict_set(I, o, k, v)
        return
    if isinstance(o, LRef):
        segs = I.heap[o.id].segs
        p = P_of(k)
        if p is not None and p.is_const() and all(s[0] == "v" for s in segs):
            c = int(p.cval())
            if not -len(segs) <= c < len(segs):
                I.exit("raise", "IndexError")
            c %= len(segs)
            I.heap[o.id] = ListC(segs[:c] + (("v", v),) + segs[c + 1:])
            return
        if p is not None and all(s[0] == "v" for s in segs):
            q = norm_index(p, P(len(segs)))
            I.heap[o.id] = ListC([("v", I.join_val(eq(q - i), v, s[1])) for i, s in enumerate(segs)])
            return
        raise Undecided("store into a symbolic list")
    if isinstance(o, Model):
        f = o.get(I, "__setitem__")
        if f is not MISSING:
            f(I, k, v)
            return
    if isinstance(o, ORef):
        I.call(I.getattr(o, "__setitem__"), [k, v], {})
        return
    raise Undecided(f"item store on {o!r}")


# ------------------------------------------------------------------------------------------------------------ containers
def length(I, v):
    if isinstance(v, PhiV):
        return I.lift(lambda x: length(I, x), v)
    if isinstance(v, ARef):
        if not v.dims:
            I.exit("raise", "TypeError")
        return sc(v.dims[0], "int")
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, LRef):
        return sc(segs_len(I, I.heap[v.id].segs), "int")
    if isinstance(v, DRef):
        d = I.heap[v.id]
        n = ZERO
        for x in d.extra:
            n = n + (x[1] if x[0] == "sym" else sym(fresh_name("unknown_len"), integer=True, lo=0))
        for x in d.items.values():
            if isinstance(x, PhiV) and (x.a is MISSING or x.b is MISSING):
                n = n + (x.c if x.b is MISSING else ONE - x.c)
            elif x is not MISSING:
                n = n + 1
        return sc(n, "int")
    if isinstance(v, RangeV):
        return sc(sum((s[1] if s[0] == "sym" else ONE for s in I.iteration(v)), ZERO), "int")
    if isinstance(v, ORef):
        m = I.getattr(v, "__len__", None)
        if m is None:
            I.exit("raise", "TypeError")
        return I.call(m, [], {})
    if isinstance(v, Model):
        f = v.get(I, "__len__")
        if f is not MISSING:
            return I.call(f, [], {}) if isinstance(f, PrimV) else f(I)
    if isinstance(v, Unk):
        return v
    if v is None or P_of(v) is not None:
        I.exit("raise", "TypeError")
    raise Undecided(f"len of {v!r}")


def segs_len(I, segs):
    n = ZERO
    for s in segs:
        if s[0] == "v":
            n = n + 1
        elif s[0] == "rows":
            n = n + s[1].dims[0]
        elif s[0] == "arr":
            n = n + s[1][0]
        elif s[0] == "gen":
            n = n + s[1]
        elif s[0] == "phi":
            n = n + phi(s[1], segs_len(I, s[2]), segs_len(I, s[3]))
        elif s[0] == "opq":
            t = tensor("len." + s[1], (None,))
            t.integer = t.nonneg = True
            n = n + el("len." + s[1], (s[2],))
    return n


def list_extend(I, a, b):
    segs = I.heap[a.id].segs
    I.event("list-extend", list=a, value=b)
    if isinstance(b, ARef):
        if b.dims and b.dims[0].is_const() and b.dims[0].cval() <= 4 and len(b.dims) == 1:
            new = tuple(("v", getitem(I, b, i)) for i in range(int(b.dims[0].cval())))
        elif not b.dims:
            I.exit("raise", "TypeError")
        elif b.dims[0].is_const() and b.dims[0].cval() <= 4:
            new = tuple(("v", getitem(I, b, i)) for i in range(int(b.dims[0].cval())))
        else:
            new = (("rows", b),)
    elif isinstance(b, LRef):
        new = I.heap[b.id].segs
    elif isinstance(b, (tuple, str)):
        new = tuple(("v", x) for x in b)
    elif isinstance(b, (Unk,)):
        new = (("opq", fresh_name("ext"), ZERO),)
    elif isinstance(b, (RangeV, DRef, Model)):
        new = ()
        for s in I.iteration(b):
            if s[0] != "v":
                raise Undecided("list extension")
            new += (s,)
    elif P_of(b) is not None or b is None:
        I.exit("raise", "TypeError")
    else:
        raise Undecided(f"extending a list by {b!r}")
    I.heap[a.id] = ListC(segs + new)


def list_append(I, a, v):
    I.event("list-append", list=a, value=v)
    I.heap[a.id] = ListC(I.heap[a.id].segs + (("v", v),))


def dict_set(I, d, k, v):
    c = I.heap[d.id]
    kk = I.hkey(k)
    if isinstance(k, PhiV):
        raise Undecided("gated dict key")
    it = dict(c.items)
    it[kk] = v
    I.heap[d.id] = DictC(it, c.kind, c.extra)


def dict_update(I, d, o):
    if isinstance(o, DRef):
        c, x = I.heap[d.id], I.heap[o.id]
        it = dict(c.items)
        for k, v in x.items.items():
            if isinstance(v, PhiV) and (v.a is MISSING or v.b is MISSING):
                cc = v.c if v.b is MISSING else ONE - v.c
                v = I.join_val(cc, I.drop_missing(v, k), it.get(k, MISSING))
            it[k] = v
        I.heap[d.id] = DictC(it, c.kind, c.extra + x.extra)
    else:
        I.incomplete.append("dict update")
        c = I.heap[d.id]
        I.heap[d.id] = DictC(c.items, c.kind, c.extra + (("opq", fresh_name("u")),))


def optional(v):
    return isinstance(v, PhiV) and (v.a is MISSING or v.b is MISSING)


def keyset(d):
    """The keys of a dictionary; a key that is only present under a condition keeps that condition."""
    return {k: (PhiV(x.c, MISSING, k) if x.a is MISSING else PhiV(x.c, k, MISSING)) if optional(x) else k for k, x in d.items.items()}


def optsegs(items):
    """Sequence segments of (key, value) pairs some of which are only conditionally present."""
    out = []
    for v, x in items:
        if optional(x):
            one = [("v", v)]
            out.append(("alt", x.c, [], one) if x.a is MISSING else ("alt", x.c, one, []))
        else:
            out.append(("v", v))
    return out


def strip(x):
    return (x.b if x.a is MISSING else x.a) if optional(x) else x


def to_set(I, v):
    it = {}
    if isinstance(v, DRef):
        d = I.heap[v.id]
        return I.new(DictC(keyset(d), "set", d.extra), DRef)
    for s in I.iteration(v):
        if s[0] != "v":
            raise Undecided("set of a symbolic sequence")
        it[I.hkey(s[1])] = s[1]
    return I.new(DictC(it, "set"), DRef)


def snap(I, v, heap):
    if isinstance(v, Sc) or P_of(v) is not None:
        return ("s", P_of(v), ty_of(v))
    if isinstance(v, ARef):
        b = heap[v.buf]
        body = subst(b.body, {aid_of(x): y for x, y in zip(b.ivs, v.bidx)})
        return ("a", v.dims, v.ivs, body, b.dtype)
    if isinstance(v, tuple):
        r = [snap(I, x, heap) for x in v]
        return None if any(x is None for x in r) else ("t", tuple(r))
    if v is None or isinstance(v, (str, FuncV, ModV, ClassV, PrimV)):
        return ("o", v)
    if isinstance(v, Model) and hasattr(v, "with_result"):
        r = snap(I, v.r, heap)
        return None if r is None else ("f", v, r)
    return None


def unsnap(I, s, m):
    if s[0] == "s":
        return sc(subst(s[1], m), s[2])
    if s[0] == "a":
        return new_array(I, [subst(d, m) for d in s[1]], s[2], subst(s[3], m), s[4])
    if s[0] == "t":
        return tuple(unsnap(I, x, m) for x in s[1])
    if s[0] == "f":
        return s[1].with_result(unsnap(I, s[2], m))
    return s[1]


def clobber(I, args, kw):
    """An unknown function may overwrite the arrays it is given."""
    for v in list(args) + list(kw.values()):
        if isinstance(v, ARef):
            b = I.heap[v.buf]
            nm = fresh_name("clobbered")
            tensor(nm, b.dims)
            I.heap[v.buf] = b.with_body(el(nm, b.ivs))


# ---------------------------------------------------------------------------------------------------- interned functions
def akey(I, v):
    """Hashable key of a value for use as a function argument."""
    if isinstance(v, ARef):
        b = I.heap[v.buf]
        body = subst(b.body, {aid_of(x): y for x, y in zip(b.ivs, v.bidx)})
        base = max([lam_level(body)] + [lam_level(d) for d in v.dims])
        return ("arr", v.dims, base, subst(body, {aid_of(x): lam(base + k) for k, x in enumerate(v.ivs)}))
    p = P_of(v)
    if p is not None:
        return p
    if isinstance(v, (LRef, tuple)):
        return ("list",) + tuple(akey(I, s[1]) if s[0] == "v" else ("?", fresh_name("k")) for s in list_segs(I, v))
    if v is None or isinstance(v, str):
        return str(v)
    if isinstance(v, DtV):
        return "dt:" + v.name
    if isinstance(v, (ModV, PrimV)):
        return "f:" + v.name
    if isinstance(v, Model):
        return ("model", v.tag, str(getattr(v, "uid", id(v))))
    if isinstance(v, Unk):
        return ("unk", v.why, fresh_name("k"))
    return ("obj", fresh_name("k"))


def subst_key(x, m):
    if isinstance(x, Poly):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(subst_key(y, m) for y in x)
    return x


def key_level(x):
    if isinstance(x, Poly):
        return lam_level(x)
    if isinstance(x, tuple):
        return max([key_level(y) for y in x], default=0)
    return 0


def key_free(x, out):
    if isinstance(x, Poly):
        out |= x.free()
    elif isinstance(x, tuple):
        for y in x:
            key_free(y, out)
    return out


def afun(I, name, keys, dims, **info):
    """Element function of an array-valued function of the given keys (a tensor interned modulo equality of the keys)."""
    frees = sorted(a for a in key_free(tuple(keys), set()) if ATOMS[a].kind == "sym" and SYMS[ATOMS[a].args[0]].index)
    lvl = key_level(tuple(keys))
    m = {a: lam(lvl + k) for k, a in enumerate(frees)}
    k2 = tuple(subst_key(k, m) for k in keys) if m else tuple(keys)
    nm = f"{name}#{poly.atom('fun', '#' + name, *k2).id}"
    t = tensor(nm, tuple(P(d) for d in dims) + (None,) * len(frees))
    for k, v in info.items():
        setattr(t, k, v)
    ex = tuple(poly.sym_poly(a) for a in frees)
    return nm, (lambda idx: el(nm, tuple(idx) + ex))


# ------------------------------------------------------------------------------------------------------------- operators
def floordiv(a, b):
    if a.is_const() and b.is_const() and b.cval():
        return P(a.cval() // b.cval())
    if b == ONE and poly.is_integer(a):
        return a
    q = a / b
    if poly.is_integer(a) and poly.is_integer(b):
        # n*(n-1)//2 and similar exact products
        if b.is_const() and b.cval() == 2 and product_even(a):
            return q
    return fun("floor", q)


def product_even(a):
    """Recognises k*(k-1) and k*(k+1) (+ even polynomials) up to substitution of a symbol by 0 and 1."""
    fr = [x for x in a.free()]
    if len(fr) != 1:
        return False
    x = fr[0]
    return all((lambda v: v.is_const() and v.cval().denominator == 1 and v.cval() % 2 == 0)(subst(a, {x: P(i)})) for i in range(4))


def mod(a, b):
    if a.is_const() and b.is_const() and b.cval():
        return P(a.cval() % b.cval())
    if prove_ge0(a) and prove_ge0(b - a - 1):
        return a
    return a - b * fun("floor", a / b)


def pow_(a, b):
    if b.is_const():
        return power(a, b.cval())
    if a.is_const() and a.cval() == 1:
        return ONE
    # gated exponents: x ** sum_i [k = i] * i
    for x in sorted(poly.indicators(b)):
        t, f = poly.cofactor(b, x, True), poly.cofactor(b, x, False)
        return phi(poly.sym_poly(x), pow_(a, t), pow_(a, f))
    return fun("pow", a, b)


def quot(a, b):
    """Floating point division: by the exact zero, something that is no number."""
    return a / b if b.t else sym("undef")


OPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": quot,
       "Pow": pow_, "FloorDiv": floordiv, "Mod": mod,
       "BitAnd": lambda a, b: a * b, "BitOr": lambda a, b: a + b - a * b, "BitXor": lambda a, b: a + b - (a * b).scale(2)}
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "FloorDiv": "floordiv", "Mod": "mod",
          "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "MatMult": "matmul", "LShift": "lshift", "RShift": "rshift"}


def binop(I, op, a, b):
    for x, o in ((a, b), (b, a)):
        if isinstance(x, ORef) or (isinstance(x, Model) and x.get(I, "__binop__") is not MISSING):
            pass
    if isinstance(a, ORef):
        m = I.getattr(a, f"__{DUNDER[op]}__", None)
        if m is not None:
            return I.call(m, [b], {})
    if isinstance(b, ORef):
        m = I.getattr(b, f"__r{DUNDER[op]}__", None)
        if m is not None:
            return I.call(m, [a], {})
    if isinstance(a, Model):
        f = a.get(I, "__binop__")
        if f is not MISSING:
            return f(I, op, b, False)
        f = a.get(I, "__matmul__") if op == "MatMult" else MISSING
        if f is not MISSING:
            return f(I, b)
        if op == "MatMult" and getattr(a, "strict", False):
            I.exit("raise", "TypeError")
    if isinstance(b, Model):
        f = b.get(I, "__binop__")
        if f is not MISSING:
            return f(I, op, a, True)
        if op == "MatMult":
            f = b.get(I, "__rmatmul__")
            if f is not MISSING:
                return f(I, a)
    if op == "Add" and isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)) and not (isinstance(a, str) and isinstance(b, str)):
        return StrV((a.parts if isinstance(a, StrV) else (a,)) + (b.parts if isinstance(b, StrV) else (b,)))
    if isinstance(a, Unk) or isinstance(b, Unk):
        return a if isinstance(a, Unk) else b
    if isinstance(a, SpecV) or isinstance(b, SpecV):
        return spec_binop(I, op, a, b)
    if op == "MatMult":
        return matmul(I, a, b)
    pa, pb = P_of(a), P_of(b)
    if pa is not None and pb is not None:
        ta, tb = ty_of(a), ty_of(b)
        f = OPS.get(op)
        if f is None:
            if op == "LShift" and pb.is_const():
                return sc(pa.scale(2 ** int(pb.cval())), "int")
            raise Undecided(f"operator {op}")
        if op == "Div" and I.log_div and not pb.is_const():
            I.event("div", den=pb)
        if op in ("Div", "FloorDiv", "Mod") and pb.is_const() and pb.cval() == 0:
            if "np" in (ta, tb):
                if op == "Div" and pa.is_const():
                    return sc(INF if pa.cval() > 0 else -INF if pa.cval() < 0 else NAN, "np")
                if op == "Div":
                    return sc(sym("undef"), "np")
                return Unk("division by zero")
            I.exit("raise", "ZeroDivisionError")
        p = f(pa, pb)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if ta == "bool" and tb == "bool":
                return sc(p, "bool")
            if pa.is_const() and pb.is_const():
                import operator as o
                return {"BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor}[op](int(pa.cval()), int(pb.cval()))
            if "bool" in (ta, tb):
                return sc(p, "bool")
            raise Undecided("bitwise operator")
        if op == "Div":
            ty = "np" if "np" in (ta, tb) else "float"
        else:
            ty = ty_join(ta, tb)
            if ty == "bool":
                ty = "int"
            if op == "Pow" and ty == "int" and not (pb.is_const() and pb.cval() >= 0):
                ty = "float" if pb.is_const() else "int"
        return sc(p, ty)
    if isinstance(a, ARef) or isinstance(b, ARef):
        if isinstance(a, (str, type(None), DRef)) or isinstance(b, (str, type(None), DRef)):
            I.exit("raise", "TypeError")
        f = OPS.get(op)
        if f is None:
            raise Undecided(f"operator {op}")
        x, y = (asarr(I, v) if isinstance(v, (LRef, tuple)) else v for v in (a, b))
        dt = promote(dt_of(I, x), dt_of(I, y))
        if op == "Div" and is_int_dt(dt):
            dt = "float64"
        return ew(I, f, x, y, dtype=dt)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
        return a + b
    if isinstance(a, str) and op in ("Add", "Mod"):
        return a + b if isinstance(b, str) and op == "Add" else Unk("str")
    if isinstance(a, str) and op == "Mult":
        return Unk("str")
    if isinstance(a, LRef) and isinstance(b, LRef) and op == "Add":
        return I.new(ListC(I.heap[a.id].segs + I.heap[b.id].segs), LRef)
    if op == "Mult" and (isinstance(a, (LRef, tuple)) or isinstance(b, (LRef, tuple))):
        s, n = (a, pb) if isinstance(a, (LRef, tuple)) else (b, pa)
        if n is not None and n.is_const():
            if isinstance(s, tuple):
                return s * int(n.cval())
            return I.new(ListC(I.heap[s.id].segs * max(int(n.cval()), 0)), LRef)
        if n is not None and isinstance(s, LRef) and len(I.heap[s.id].segs) == 1 and I.heap[s.id].segs[0][0] == "v":
            sn = snap(I, I.heap[s.id].segs[0][1], I.heap)
            if sn is not None:
                n = pmax(n, 0)
                return I.new(ListC([("gen", n, fresh_index(n), sn)]), LRef)
        raise Undecided("sequence repetition")
    if isinstance(a, DRef) and isinstance(b, DRef):
        x, y = I.heap[a.id], I.heap[b.id]
        if op == "BitOr" and x.kind == "dict":
            r = I.new(DictC(dict(x.items), "dict", x.extra), DRef)
            dict_update(I, r, b)
            return r
        if x.extra or y.extra:
            return I.new(DictC(dict(x.items), "set", x.extra + y.extra), DRef)
        if op == "Sub":
            return I.new(DictC({k: v for k, v in x.items.items() if k not in y.items}, "set"), DRef)
        if op == "BitOr":
            return I.new(DictC({**x.items, **y.items}, "set"), DRef)
        if op == "BitAnd":
            return I.new(DictC({k: v for k, v in x.items.items() if k in y.items}, "set"), DRef)
    if a is None or b is None or isinstance(a, (FuncV, ClassV)) or isinstance(b, (FuncV, ClassV)) or isinstance(a, ORef) or isinstance(b, ORef) or isinstance(a, str) or isinstance(b, str):
        I.exit("raise", "TypeError")
    raise Undecided(f"{op} of {a!r} and {b!r} at {I.pos}")


def matmul(I, a, b):
    if isinstance(a, (LRef, tuple)):
        a = asarr(I, a)
    if isinstance(b, (LRef, tuple)):
        b = asarr(I, b)
    if not isinstance(a, ARef) or not isinstance(b, ARef):
        if isinstance(a, Unk) or isinstance(b, Unk):
            return Unk("matmul")
        I.exit("raise", "TypeError" if P_of(a) is None and P_of(b) is None else "ValueError")
    da, db = a.dims, b.dims
    if not da or not db:
        I.exit("raise", "ValueError")
    if len(da) > 2 or len(db) > 2:
        raise Undecided("batched matmul")
    ka, kb = da[-1], db[0]
    need_eq(I, ka, kb)
    K = kb if kb.is_const() else ka
    outer_a, outer_b = da[:-1], db[1:]
    dims = tuple(outer_a) + tuple(outer_b)
    dt = promote(dt_of(I, a), dt_of(I, b))

    def f(iv):
        ia, ib = list(iv[:len(outer_a)]), list(iv[len(outer_a):])
        return psum(K, lambda k: elem(I, a, ia + [k]) * elem(I, b, [k] + ib))
    if not dims:
        return scal_res(I, f([]), dt)
    return build(I, dims, f, dt)


def psum(n, f):
    """sum_{k<n} f(k)"""
    n = P(n)
    if n.is_const() and n.cval() <= 12:
        out = ZERO
        for i in range(int(n.cval())):
            out = out + f(P(i))
        return out
    k = fresh_index(n, "k")
    return sum_over(f(k), k, n)


CMP = {"Lt": lambda a, b: gt(b - a), "Gt": lambda a, b: gt(a - b), "LtE": lambda a, b: ge(b - a), "GtE": lambda a, b: ge(a - b),
       "Eq": lambda a, b: eq(a - b), "NotEq": lambda a, b: ONE - eq(a - b)}


def compare(I, op, a, b):
    if op in ("Is", "IsNot"):
        r = same(I, a, b)
        return sc(r if op == "Is" else ONE - r, "bool")
    if op in ("In", "NotIn"):
        r = contains(I, b, a)
        if isinstance(r, Unk):
            return r
        return sc(r if op == "In" else ONE - r, "bool")
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk("comparison")
    pa, pb = P_of(a), P_of(b)
    if pa is not None and pb is not None:
        return sc(CMP[op](pa, pb), "bool")
    if isinstance(a, ARef) or isinstance(b, ARef):
        if op in ("Eq", "NotEq") and (isinstance(a, (str, type(None))) or isinstance(b, (str, type(None)))):
            return op == "NotEq"
        return ew(I, CMP[op], a, b, dtype="bool")
    if op in ("Eq", "NotEq"):
        r = equal(I, a, b)
        if isinstance(r, Unk):
            return r
        return sc(r if op == "Eq" else ONE - r, "bool")
    if isinstance(a, DRef) and isinstance(b, DRef):
        x, y = I.heap[a.id], I.heap[b.id]
        if not x.extra and not y.extra:
            s, t = set(x.items), set(y.items)
            return {"LtE": s <= t, "Lt": s < t, "GtE": s >= t, "Gt": s > t}[op]
        return Unk("set comparison")
    if isinstance(a, ORef):
        m = I.getattr(a, {"Lt": "__lt__", "Gt": "__gt__", "LtE": "__le__", "GtE": "__ge__"}[op], None)
        if m is not None:
            return I.call(m, [b], {})
    if isinstance(a, tuple) and isinstance(b, tuple) and all(P_of(x) is not None and P_of(x).is_const() for x in a + b):
        x, y = tuple(P_of(v).cval() for v in a), tuple(P_of(v).cval() for v in b)
        return {"Lt": x < y, "Gt": x > y, "LtE": x <= y, "GtE": x >= y}[op]
    if a is None or b is None or isinstance(a, (str, tuple, LRef)) or isinstance(b, (str, tuple, LRef)):
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[op]
        I.exit("raise", "TypeError")
    return Unk("comparison")


def same(I, a, b):
    """Indicator of identity."""
    if isinstance(a, PhiV):
        return phi(a.c, same(I, a.a, b), same(I, a.b, b))
    if isinstance(b, PhiV):
        return phi(b.c, same(I, a, b.a), same(I, a, b.b))
    if isinstance(a, Unk) or isinstance(b, Unk):
        return opaque_bool("is", fresh_name("u"))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Model) and x.get(I, "__is__") is not MISSING:
            r = x.get(I, "__is__")(I, y)
            if r is not None:
                return r
    if a is None or b is None:
        return ONE if a is b else ZERO
    if isinstance(a, bool) and isinstance(b, bool):
        return P(int(a == b))
    if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, (ClassV, ModV, FuncV, PrimV, Model, DtV)):
        return P(int(veq(a, b)))
    pa, pb = P_of(a), P_of(b)
    if pa is not None and pb is not None:
        return eq(pa - pb)
    if isinstance(a, ARef) and isinstance(b, ARef):
        return P(int(a == b))
    if isinstance(a, str) and isinstance(b, str):
        return P(int(a == b))
    if type(a) is not type(b):
        return ZERO
    return P(int(veq(a, b)))


def equal(I, a, b):
    pa, pb = P_of(a), P_of(b)
    if pa is not None and pb is not None:
        return eq(pa - pb)
    if isinstance(a, PhiV):
        x, y = equal(I, a.a, b), equal(I, a.b, b)
        return Unk("eq") if isinstance(x, Unk) or isinstance(y, Unk) else phi(a.c, x, y)
    if isinstance(b, PhiV):
        return equal(I, b, a)
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk("eq")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Model):
            f = x.get(I, "__eq__")
            if f is not MISSING:
                return f(I, y)
    if isinstance(a, (DtV, PrimV)) and isinstance(b, (DtV, PrimV, str)) or isinstance(b, DtV) and isinstance(a, (str, PrimV)):
        if isinstance(a, PrimV) and isinstance(b, PrimV):
            return P(int(a is b or a.name == b.name))
        x, y = to_dt(a), to_dt(b)
        if any(isinstance(v, (str, PrimV)) and z not in DTYPES for v, z in ((a, x), (b, y))) or not (isinstance(a, DtV) or isinstance(b, DtV)):
            return ZERO
        return dteq(x, y)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return ZERO
        r = ONE
        for x, y in zip(a, b):
            e = equal(I, x, y)
            if isinstance(e, Unk):
                return e
            r = r * e
        return r
    if isinstance(a, LRef) and isinstance(b, LRef):
        x, y = I.heap[a.id].segs, I.heap[b.id].segs
        if all(s[0] == "v" for s in x + y):
            return equal(I, tuple(s[1] for s in x), tuple(s[1] for s in y))
        return Unk("eq")
    if isinstance(a, DRef) and isinstance(b, DRef):
        x, y = I.heap[a.id], I.heap[b.id]
        if not x.extra and not y.extra and x.kind == "set":
            return P(int(x.items.keys() == y.items.keys()))
        return Unk("eq")
    if isinstance(a, ORef):
        m = I.getattr(a, "__eq__", None)
        if m is not None:
            r = I.call(m, [b], {})
            return r if isinstance(r, Unk) else I.truth(r)
    if isinstance(a, str) and isinstance(b, str):
        return P(int(a == b))
    return P(int(veq(a, b)))


def dteq(a, b):
    if a == b:
        return ONE
    if a in DTYPES and b in DTYPES:
        return ZERO
    return opaque_bool("dteq", *sorted((a, b)))


def contains(I, c, x):
    if isinstance(c, PhiV):
        a, b = contains(I, c.a, x), contains(I, c.b, x)
        return phi(c.c, a, b)
    if isinstance(c, (tuple, LRef)):
        out = ONE
        for s in list_segs(I, c):
            if s[0] != "v":
                return Unk("in")
            e = equal(I, x, s[1])
            if isinstance(e, Unk):
                return e
            out = out * (ONE - e)
        return ONE - out
    if isinstance(c, DRef):
        d = I.heap[c.id]
        if isinstance(x, PhiV):
            return phi(x.c, contains(I, c, x.a), contains(I, c, x.b))
        if isinstance(x, Unk):
            return Unk("in")
        num = P_of(x)
        if isinstance(x, DtV) or num is not None and (not num.is_const() or any(isinstance(k, Poly) for k in d.items)):
            if d.extra:
                return Unk("in")
            out = ONE
            for k, v in d.items.items():
                kv = Sc(k, "float") if isinstance(k, Poly) else k if not (isinstance(k, tuple) and k and k[0] == "?") else v
                e = equal(I, x, kv)
                if isinstance(e, Unk):
                    return e
                if v is MISSING:
                    continue
                if optional(v):
                    e = e * (v.c if v.b is MISSING else ONE - v.c)
                out = out * (ONE - e)
            return ONE - out
        k = I.hkey(x)
        if k in d.items:
            v = d.items[k]
            if isinstance(v, PhiV) and (v.a is MISSING or v.b is MISSING):
                return v.c if v.b is MISSING else ONE - v.c
            return ZERO if v is MISSING else ONE
        if d.extra:
            return Unk("in")
        return ZERO
    if isinstance(c, str) and isinstance(x, str):
        return P(int(x in c))
    if isinstance(c, Unk) or isinstance(x, Unk):
        return Unk("in")
    if isinstance(c, Model):
        f = c.get(I, "__contains__")
        if f is not MISSING:
            return f(I, x)
    return Unk("in")


# ------------------------------------------------------------------------------------------------------------ attributes
class FlagsM(Model):
    def __init__(self, arr):
        self.arr = arr

    def get(self, I, name):
        if name == "__getitem__":
            def f(I, k):
                return self.flag(I, k)
            return f
        m = {"f_contiguous": "F_CONTIGUOUS", "c_contiguous": "C_CONTIGUOUS", "writeable": "WRITEABLE", "owndata": "OWNDATA"}
        if name in m:
            return self.flag(I, m[name])
        return MISSING

    def flag(self, I, k):
        b = I.heap[self.arr.buf]
        if b.note is not None and b.note != "workspace":
            return sc(opaque_bool("flag", str(k), self.arr.buf), "bool")
        whole = len(self.arr.dims) == len(b.dims) and self.arr.dims == b.dims and self.arr.bidx == self.arr.ivs
        if k == "WRITEABLE":
            return True
        if k == "OWNDATA":
            return whole
        if k in ("F_CONTIGUOUS", "C_CONTIGUOUS"):
            if not whole:
                return sc(opaque_bool("flag", k, self.arr.buf, fresh_name("v")), "bool")
            if len(b.dims) <= 1:
                return True
            if b.order == k[0]:
                return True
            return sc(opaque_bool("degenerate layout", *b.dims), "bool")
        return sc(opaque_bool("flag", str(k), self.arr.buf), "bool")


def method(I, v, name, f):
    return PrimV(name, f)


def is_array_contig(I, a):
    """True if the elements of a 1-d view are adjacent."""
    b = I.heap[a.buf]
    order = range(len(b.dims))
    strides = {}
    s = ONE
    for k in (order if b.order == "F" else reversed(order)):
        strides[k] = s
        s = s * b.dims[k]
    live = [(iv, d) for iv, d in zip(a.ivs, a.dims) if d != ONE]
    if not live:
        return True
    iv, d = live[0]
    tot = ZERO
    for k, e in enumerate(a.bidx):
        lin = linear_in(e, aid_of(iv)) if aid_of(iv) in e.free() else None
        if aid_of(iv) in e.free():
            if lin is None:
                return False
            tot = tot + P(lin[0]) * strides[k]
    return tot == ONE


def ravel(I, a, order="C", force_copy=False):
    live = [k for k, d in enumerate(a.dims) if d != ONE]
    if len(live) <= 1:
        n = a.dims[live[0]] if live else ONE
        v = view_of(a, (n,), lambda iv: [iv[0] if (live and k == live[0]) else ZERO for k in range(len(a.dims))])
        if force_copy or not is_array_contig(I, a):
            return copy(I, v)
        return v
    axes = list(range(len(a.dims)))
    if order == "F":
        axes = axes[::-1]
    n = ONE
    for d in a.dims:
        n = n * d

    def f(iv):
        return elem(I, a, unflatten(iv[0], [a.dims[k] for k in axes], axes))
    r = build(I, (n,), f, I.heap[a.buf].dtype)
    r2 = I.heap[r.buf]
    return r


def unflatten(k, dims, axes):
    idx = [None] * len(dims)
    rest = k
    for d, ax in reversed(list(zip(dims, axes))):
        if ax == axes[0]:
            idx[ax] = rest
        else:
            q = floordiv(rest, d)
            idx[ax] = rest - q * d
            rest = q
    return idx


def reshape(I, a, shape, order="C"):
    shape = [s if isinstance(s, Poly) else P_of(s) for s in shape]
    tot = ONE
    for d in a.dims:
        tot = tot * d
    if any(s is None for s in shape):
        raise Undecided(f"reshape to an unknown shape {shape} {a}")
    neg = [i for i, s in enumerate(shape) if s.is_const() and s.cval() == -1]
    if neg:
        rest = ONE
        for i, s in enumerate(shape):
            if i not in neg:
                rest = rest * s
        shape[neg[0]] = tot / rest if not (tot.is_const() and rest.is_const()) else P(tot.cval() / rest.cval())
    prod = ONE
    for s in shape:
        prod = prod * s
    need_eq(I, prod, tot)
    if tuple(shape) == tuple(a.dims):
        return a
    src = [k for k, d in enumerate(a.dims) if d != ONE]
    dst = [k for k, d in enumerate(shape) if d != ONE]
    if [a.dims[k] for k in src] == [shape[k] for k in dst] or (len(src) <= 1 and len(dst) <= 1):
        def f(iv):
            idx = [ZERO] * len(a.dims)
            for s, d in zip(src, dst):
                idx[s] = iv[d]
            return idx
        return view_of(a, shape, f)
    # general case: through the flat index
    axes_a = list(range(len(a.dims)))
    axes_s = list(range(len(shape)))
    if order == "F":
        axes_a, axes_s = axes_a[::-1], axes_s[::-1]

    def g(iv):
        flat = ZERO
        for k in axes_s:
            flat = flat * shape[k] + iv[k]
        if len(a.dims) == 1:
            return [flat]
        return unflatten(flat, [a.dims[k] for k in axes_a], axes_a)
    if len(a.dims) == 1:
        return view_of(a, shape, g)
    return build(I, shape, lambda iv: elem(I, a, g(iv)), I.heap[a.buf].dtype)


def shape_arg(args, kw=None):
    if len(args) == 1 and isinstance(args[0], (tuple,)):
        return list(args[0])
    return list(args)


def shape_of(I, v):
    """Dims from a shape argument."""
    if isinstance(v, tuple):
        r = [P_of(x) for x in v]
    elif isinstance(v, LRef):
        r = [P_of(s[1]) for s in I.heap[v.id].segs]
    elif P_of(v) is not None:
        r = [P_of(v)]
    else:
        raise Undecided(f"shape {v!r}")
    if any(x is None for x in r):
        raise Undecided(f"shape {v!r}")
    if any(ty_of(x) == "float" for x in (v if isinstance(v, tuple) else () if isinstance(v, LRef) else (v,))):
        I.exit("raise", "TypeError")     # sizes are integers
    return r


def arr_attr(I, a, name):
    b = I.heap[a.buf]
    if name == "shape":
        return tuple(sc(d, "int") for d in a.dims)
    if name == "ndim":
        return len(a.dims)
    if name == "size":
        n = ONE
        for d in a.dims:
            n = n * d
        return sc(n, "int")
    if name == "T":
        if len(a.dims) < 2:
            return a
        return view_of(a, a.dims[::-1], lambda iv: list(iv)[::-1])
    if name == "dtype":
        return DtV(b.dtype)
    if name == "flags":
        return FlagsM(a)
    if name in ("real",):
        return a
    if name == "flat":
        return a
    f = ARR_METHODS.get(name)
    if f is not None:
        return BoundV(PrimV("ndarray." + name, f), a)
    fn = MODELS.get("numpy." + name)
    if fn is not None and name in ("sum", "mean", "std", "var", "min", "max", "prod", "cumsum", "cumprod", "argmax", "argmin", "trace", "diagonal", "clip", "round", "any", "all", "dot", "sort", "searchsorted", "squeeze", "transpose", "conj", "conjugate", "swapaxes", "take", "repeat", "nonzero", "ptp"):
        return BoundV(PrimV("ndarray." + name, fn), a)
    if name in ("strides", "nbytes", "itemsize", "base", "data", "ctypes", "__array_interface__"):
        return Unk("array " + name)
    if name in ("__len__",):
        return PrimV(name, lambda I: length(I, a))
    if name in ("__matmul__",):
        return PrimV(name, lambda I, o: matmul(I, a, o))
    if name in ("__iter__", "__getitem__", "__add__"):
        return PrimV(name, lambda I, *x: Unk(name))
    return MISSING


def _copy_m(I, a, order="C"):
    return copy(I, a, order=(I.heap[a.buf].order if order in ("K", "A") else order) or "C")


def _astype(I, a, dtype=None, order="K", casting=None, subok=None, copy_=True, **kw):
    c = kw.get("copy", copy_)
    d = to_dt(dtype)
    b = I.heap[a.buf]
    if c is False and d == b.dtype:
        return a
    src_int = is_int_dt(b.dtype)
    o = b.order if order == "K" else order
    if is_int_dt(d) and not src_int and d != "bool":
        return build(I, a.dims, lambda iv: fun("int", elem(I, a, iv)), d, o)
    if d == "bool" and b.dtype != "bool":
        return build(I, a.dims, lambda iv: ONE - eq(elem(I, a, iv)), d, o)
    return copy(I, a, d, o)


def _fill(I, a, v):
    store(I, a, v)


def _item(I, a, *idx):
    if idx:
        ks = shape_arg(idx)
        if len(ks) == 1 and len(a.dims) != 1:
            a2 = ravel(I, a)
            return pyscal(I, elem(I, a2, [norm_index(P_of(ks[0]), a2.dims[0])]), a)
        return pyscal(I, elem(I, a, [norm_index(P_of(k), d) for k, d in zip(ks, a.dims)]), a)
    for d in a.dims:
        need_eq(I, d, ONE)
    return pyscal(I, elem(I, a, [ZERO] * len(a.dims)), a)


def pyscal(I, p, a):
    d = I.heap[a.buf].dtype
    return sc(p, "bool" if d == "bool" else ("int" if is_int_dt(d) else "float"))


def _reshape_m(I, a, *shape, order="C", **kw):
    if "shape" in kw:
        shape = (kw["shape"],)
    sh = shape_arg(shape)
    return reshape(I, a, [P_of(s) for s in sh] if not any(isinstance(s, LRef) for s in sh) else shape_of(I, sh[0]), order)


def _resize(I, a, *shape, refcheck=True):
    sh = [P_of(s) for s in shape_arg(shape)]
    I.event("resize", arr=a, shape=tuple(sh))
    if len(sh) == len(a.dims) and all(x == y or is_zero(x - y) for x, y in zip(sh, a.dims)):
        return None
    I.incomplete.append(f"in-place resize at {I.pos}")
    clobber(I, [a], {})
    return None


def _tolist(I, a):
    if not a.dims:
        return pyscal(I, elem(I, a, []), a)
    if a.dims[0].is_const() and a.dims[0].cval() <= I.unroll:
        out = []
        for i in range(int(a.dims[0].cval())):
            x = getitem(I, a, i)
            out.append(_tolist(I, x) if isinstance(x, ARef) else sc(P_of(x), {"np": "float"}.get(ty_of(x), ty_of(x))))
        return I.mklist(out)
    c = copy(I, a)
    return I.new(ListC([("rows", c)]), LRef)


ARR_METHODS = {
    "copy": _copy_m, "astype": _astype, "fill": _fill, "item": _item, "reshape": _reshape_m, "resize": _resize,
    "tolist": _tolist,
    "ravel": lambda I, a, order="C": ravel(I, a, order),
    "flatten": lambda I, a, order="C": ravel(I, a, order, True),
    "view": lambda I, a, *x: a,
    "__copy__": lambda I, a: copy(I, a),
    "setflags": lambda I, a, **k: None,
}


STR_METHODS = {
    "lower": lambda s: s.lower(), "upper": lambda s: s.upper(), "strip": lambda s, *a: s.strip(*a),
    "startswith": lambda s, *a: s.startswith(*a), "endswith": lambda s, *a: s.endswith(*a),
    "replace": lambda s, *a: s.replace(*a), "casefold": lambda s: s.casefold(),
}


def attr(I, v, name):
    if isinstance(v, ARef):
        return arr_attr(I, v, name)
    if isinstance(v, ModV):
        n = canon(f"{v.name}.{name}")
        if n in CONSTS:
            return CONSTS[n]
        return ModV(n)
    if isinstance(v, DtV):
        if name == "type":
            return v
        if name in ("name",):
            return v.name
        if v.name in DTYPES:
            k, size, ch = DTYPES[v.name]
            if name in ("kind", "itemsize", "char", "str"):
                return {"kind": k, "itemsize": size, "char": ch, "str": f"<{k}{size}"}[name]
        return Unk("dtype attribute")
    p = P_of(v)
    if p is not None:
        t = ty_of(v)
        if name == "item":
            return PrimV("item", lambda I, *a: sc(p, {"np": "float"}.get(t, t)))
        if name == "astype":
            def f(I, d=None, **k):
                d = to_dt(d)
                if is_int_dt(d) and d != "bool":
                    return sc(fun("int", p) if not poly.is_integer(p) else p, "int")
                return sc(p, "np")
            return PrimV("astype", f)
        if name == "shape":
            return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name == "dtype":
            return DtV("float64" if t in ("np", "float") else ("bool" if t == "bool" else "int64"))
        if name in ("real", "T"):
            return v
        if name in ("copy", "ravel", "flatten"):
            if name == "copy":
                return PrimV("copy", lambda I, *a, **k: v)
            return PrimV(name, lambda I, *a, **k: build(I, (ONE,), lambda iv: p, "float64"))
        if name == "is_integer":
            return PrimV(name, lambda I: sc(eq(p - fun("floor", p)), "bool"))
        return MISSING
    if isinstance(v, str):
        f = STR_METHODS.get(name)
        if f is not None:
            def g(I, *a):
                try:
                    return f(v, *a)
                except Exception:
                    return Unk("str")
            return PrimV("str." + name, g)
        if name in ("format", "join", "split", "title", "capitalize", "encode"):
            return PrimV("str." + name, lambda I, *a, **k: Unk("str"))
        return MISSING
    if isinstance(v, LRef):
        if name == "append":
            return PrimV("append", lambda I, x: list_append(I, v, x))
        if name == "extend":
            return PrimV("extend", lambda I, x: I.lift(lambda y: list_extend(I, v, y), x))
        if name == "copy":
            return PrimV("copy", lambda I: I.new(ListC(I.heap[v.id].segs), LRef))
        if name == "clear":
            def f(I):
                I.heap[v.id] = ListC(())
            return PrimV("clear", f)
        if name == "pop":
            def f(I, k=-1):
                segs = I.heap[v.id].segs
                if not all(s[0] == "v" for s in segs):
                    raise Undecided("pop from a symbolic list")
                if not segs:
                    I.exit("raise", "IndexError")
                c = int(P_of(k).cval()) % len(segs)
                I.heap[v.id] = ListC(segs[:c] + segs[c + 1:])
                return segs[c][1]
            return PrimV("pop", f)
        if name == "insert":
            def f(I, k, x):
                segs = I.heap[v.id].segs
                if not all(s[0] == "v" for s in segs):
                    raise Undecided("insert into a symbolic list")
                l = list(segs)
                l.insert(int(P_of(k).cval()), ("v", x))
                I.heap[v.id] = ListC(l)
            return PrimV("insert", f)
        if name == "reverse":
            def f(I):
                I.heap[v.id] = ListC(I.heap[v.id].segs[::-1])
            return PrimV("reverse", f)
        if name == "index":
            return PrimV("index", lambda I, *a: Unk("list.index"))
        if name in ("__iter__", "__len__"):
            return PrimV(name, lambda I: length(I, v) if name == "__len__" else v)
        return MISSING
    if isinstance(v, DRef):
        d = I.heap[v.id]
        if name == "get":
            def f(I, k, default=None):
                d = I.heap[v.id]
                kk = I.hkey(k)
                if kk in d.items:
                    x = d.items[kk]
                    if isinstance(x, PhiV) and (x.a is MISSING or x.b is MISSING):
                        return I.join_val(x.c, default if x.a is MISSING else x.a, default if x.b is MISSING else x.b)
                    return default if x is MISSING else x
                if d.extra:
                    return Unk("dict.get")
                return default
            return PrimV("get", f)
        if name == "pop":
            def f(I, k, *default):
                d = I.heap[v.id]
                kk = I.hkey(k)
                if kk in d.items:
                    x = d.items[kk]
                    it = {a: b for a, b in d.items.items() if a != kk}
                    I.heap[v.id] = DictC(it, d.kind, d.extra)
                    if isinstance(x, PhiV) and (x.a is MISSING or x.b is MISSING) and default:
                        return I.join_val(x.c, default[0] if x.a is MISSING else x.a, default[0] if x.b is MISSING else x.b)
                    return x
                if default:
                    return default[0] if not d.extra else Unk("dict.pop")
                I.exit("raise", "KeyError")
            return PrimV("pop", f)
        if name == "setdefault":
            def f(I, k, default=None):
                d = I.heap[v.id]
                kk = I.hkey(k)
                if kk in d.items:
                    return d.items[kk]
                dict_set(I, v, k, default)
                return default
            return PrimV("setdefault", f)
        if name == "keys":
            return PrimV("keys", lambda I: I.new(DictC(keyset(I.heap[v.id]), "set", I.heap[v.id].extra), DRef))
        if name == "values":
            return PrimV("values", lambda I: SeqM(optsegs([(strip(x), x) for x in I.heap[v.id].items.values()])) if any(map(optional, I.heap[v.id].items.values())) else I.mklist(list(I.heap[v.id].items.values())) if not I.heap[v.id].extra else Unk("dict.values"))
        if name == "items":
            return PrimV("items", lambda I: SeqM(optsegs([((k, strip(x)), x) for k, x in I.heap[v.id].items.items()])) if any(map(optional, I.heap[v.id].items.values())) else I.mklist([(k, x) for k, x in I.heap[v.id].items.items()]) if not I.heap[v.id].extra else Unk("dict.items"))
        if name == "copy":
            return PrimV("copy", lambda I: I.new(DictC(dict(d.items), d.kind, d.extra), DRef))
        if name == "update":
            def f(I, o=None, **kw):
                if o is not None:
                    dict_update(I, v, o)
                for k, x in kw.items():
                    dict_set(I, v, k, x)
            return PrimV("update", f)
        if name == "add":
            def f(I, k):
                dict_set(I, v, k, k)
            return PrimV("add", f)
        if name in ("difference", "union", "intersection"):
            op = {"difference": "Sub", "union": "BitOr", "intersection": "BitAnd"}[name]
            return PrimV(name, lambda I, o: binop(I, op, v, o if isinstance(o, DRef) else to_set(I, o)))
        if name == "issubset":
            return PrimV(name, lambda I, o: compare(I, "LtE", v, o if isinstance(o, DRef) else to_set(I, o)))
        return MISSING
    if isinstance(v, FuncV):
        if name == "__name__":
            return v.name
        if name == "__doc__":
            return Unk("doc")
        return MISSING
    if isinstance(v, BoundV):
        if name == "__self__":
            return v.self_
        if name == "__func__":
            return v.fn
        return attr(I, v.fn, name)
    if isinstance(v, PrimV):
        if name == "__name__":
            return v.name
        if v.name == "dict" and name == "fromkeys":
            return Unk("fromkeys")
        if name == "maketrans":
            return Unk("str")
        return MISSING
    if isinstance(v, PropV):
        if name == "fget":
            return v.fget
        if name == "setter":
            return PrimV("setter", lambda I, f: PropV(v.fget, f))
        return MISSING
    if isinstance(v, tuple):
        if name in ("index", "count"):
            return PrimV(name, lambda I, *a: Unk("tuple." + name))
        return MISSING
    if isinstance(v, SpecV):
        if name == "real":
            return MODELS["numpy.real"](I, v)
        if name == "shape":
            return tuple(sc(d, "int") for d in v.dims)
        return MISSING
    return MISSING


# ---------------------------------------------------------------------------------------------------- external base class
def ext_attr(I, base, self_, name):
    base = canon(base)
    if base == "scipy.sparse.linalg.LinearOperator":
        return linop_attr(I, self_, name)
    return MISSING


def linop_attr(I, s, name):
    if name == "__init__":
        def init(I, self_, dtype=None, shape=None):
            if isinstance(shape, (LRef,)):
                shape = tuple(x[1] for x in I.heap[shape.id].segs)
            I.setattr(self_, "dtype", DtV(to_dt(dtype)) if dtype is not None else None)
            I.setattr(self_, "shape", shape)
        return BoundV(PrimV("LinearOperator.__init__", init), s) if s is not None else PrimV("LinearOperator.__init__", init)
    if s is None:
        return MISSING
    if name == "ndim":
        return 2

    def shp(I):
        sh = I.getattr(s, "shape")
        return P_of(sh[0]), P_of(sh[1])

    def matvec(I, x):
        x = asarr(I, x)
        M, N = shp(I)
        if len(x.dims) == 1:
            need_eq(I, x.dims[0], N)
        elif len(x.dims) == 2:
            need_eq(I, x.dims[0], N)
            need_eq(I, x.dims[1], ONE)
        else:
            I.exit("raise", "ValueError")
        y = I.call(I.getattr(s, "_matvec"), [x], {})

        def fin(y):
            if isinstance(y, Unk):
                return y
            y = asarr(I, y)
            if len(x.dims) == 1:
                return reshape(I, y, [M])
            return reshape(I, y, [M, ONE])
        return I.lift(fin, y)

    def matmat(I, X):
        M, N = shp(I)
        need_eq(I, X.dims[0], N)
        mm = I.getattr(s, "_matmat", None)
        if mm is not None:
            return I.call(mm, [X], {})
        import ast
        # default: hstack of matvec applied to the columns
        src = "[__mv(__c.reshape(-1, 1)) for __c in __X.T]"
        node = ast.parse(src, mode="eval").body
        I.frame.env.update({"__mv": PrimV("matvec", matvec), "__X": X})
        cols = I.ev(node)
        for k in ("__mv", "__X"):
            I.frame.env.pop(k, None)
        arr = from_list(I, cols)
        return view_of(arr, (arr.dims[1], arr.dims[0]), lambda iv: [iv[1], iv[0], ZERO])

    def dot(I, x):
        if P_of(x) is not None:
            return ScaledOp(s, P_of(x))
        if isinstance(x, (ORef, Model)):
            return Unk("product of operators")
        x = asarr(I, x)
        if len(x.dims) == 1 or (len(x.dims) == 2 and x.dims[1] == ONE):
            return matvec(I, x)
        if len(x.dims) == 2:
            return matmat(I, x)
        I.exit("raise", "ValueError")
    if name == "matvec":
        return PrimV("matvec", matvec)
    if name == "matmat":
        return PrimV("matmat", matmat)
    if name in ("dot", "__matmul__", "__mul__", "__call__"):
        return PrimV(name, dot)
    if name in ("T", "H"):
        ad = I.getattr(s, "_adjoint", None)
        return I.call(ad, [], {}) if ad is not None else Unk("adjoint")
    return MISSING


class ScaledOp(Model):
    def __init__(self, op, c):
        self.op, self.c = op, c


# -------------------------------------------------------------------------------------------------------------- builtins
def b(name):
    def deco(f):
        BUILTINS[name] = PrimV(name, f)
        return f
    return deco


@b("%append")
def _append(I, lst, v):
    list_append(I, lst, v)


@b("%dictset")
def _dictset(I, d, k, v):
    if isinstance(k, PhiV) or isinstance(k, Unk):
        raise Undecided("symbolic dict key")
    dict_set(I, d, k, v)


@b("len")
def _len(I, v):
    return length(I, v)


@b("range")
def _range(I, a, b_=None, st=1):
    for x in (a, b_, st):
        if isinstance(x, Unk):
            raise Undecided("range bound")
    def mk(a, b_, st):
        return RangeV(0, a, 1) if b_ is None else RangeV(a, b_, st)
    if isinstance(a, ARef):
        a = _item(I, a)
    if any(isinstance(x, PhiV) for x in (a, b_, st)):
        return I.lift(mk, a, b_, st)
    return mk(a, b_, st)


def isinst(I, v, t):
    """Indicator polynomial."""
    if isinstance(v, PhiV):
        return phi(v.c, isinst(I, v.a, t), isinst(I, v.b, t))
    if isinstance(t, tuple):
        r = ONE
        for x in t:
            r = r * (ONE - isinst(I, v, x))
        return ONE - r
    if isinstance(v, Unk):
        return opaque_bool("isinstance", v.why, repr(t))
    if isinstance(v, Model):
        f = v.get(I, "__isa__")
        if f is not MISSING:
            r = f(I, t)
            if r is not None:
                return r
        n = t.name if isinstance(t, (ModV, PrimV)) else getattr(t, "qual", "")
        return P(int(bool(v.isa(canon(n)))))
    if isinstance(t, ClassV):
        if isinstance(v, ORef):
            c = I.heap[v.id].cls
            if isinstance(c, ClassV):
                if t in c.mro():
                    return ONE
                if any(b.name == "typing.Protocol" for b in t.ext_bases()):
                    # structural check of a runtime protocol
                    need = {k for c2 in t.mro() for k in c2.ns if not k.startswith("_") or k in ("__len__", "__call__")} | {a for c2 in t.mro() for a, _ in getattr(c2, "ann", [])}
                    return P(int(all(not I.hasattr(v, k).is_const() or I.hasattr(v, k).cval() for k in need if not k.startswith("_abc"))))
            return ZERO
        return ZERO
    n = t.name if isinstance(t, (ModV, PrimV)) else ""
    if isinstance(v, ORef):
        c = I.heap[v.id].cls
        if n == "object":
            return ONE
        if n in ("collections.abc.Callable", "typing.Callable"):
            return P(int(c.lookup("__call__")[0] is not None))
        return P(int(any(canon(b.name) == canon(n) for b in c.ext_bases()))) if isinstance(c, ClassV) else ZERO
    if isinstance(v, ARef):
        return P(int(n in ("numpy.ndarray", "object", "collections.abc.Iterable", "typing.Iterable", "typing.Sized", "collections.abc.Sized")))
    if isinstance(v, bool):
        return P(int(n in ("bool", "int", "numbers.Number", "numbers.Integral", "numbers.Real", "object")))
    if P_of(v) is not None:
        ty = ty_of(v)
        if ty == "any":
            return opaque_bool("isinstance", P_of(v), n)
        if ty == "bool":
            return P(int(n in ("bool", "int", "numbers.Number", "numbers.Integral", "numpy.bool_", "object")))
        if ty == "int":
            return P(int(n in ("int", "numbers.Number", "numbers.Integral", "numbers.Real", "object", "numbers.Rational")))
        if ty == "np":
            return P(int(n in ("float", "numpy.floating", "numpy.number", "numpy.generic", "numbers.Number", "numbers.Real", "numpy.float64", "object")))
        return P(int(n in ("float", "numbers.Number", "numbers.Real", "object")))
    if isinstance(v, str):
        return P(int(n in ("str", "object", "collections.abc.Iterable", "typing.Iterable")))
    if isinstance(v, tuple):
        return P(int(n in ("tuple", "object", "collections.abc.Iterable", "typing.Iterable", "collections.abc.Sequence", "typing.Sequence", "typing.Sized")))
    if isinstance(v, LRef):
        return P(int(n in ("list", "object", "collections.abc.Iterable", "typing.Iterable", "collections.abc.Sequence", "typing.Sequence", "typing.Sized")))
    if isinstance(v, DRef):
        k = I.heap[v.id].kind
        return P(int(n in (k, "object", "collections.abc.Mapping" if k == "dict" else "")))
    if v is None:
        return P(int(n in ("NoneType", "object")))
    if isinstance(v, (FuncV, BoundV, PartialV, PrimV, ClassV, ModV)):
        return P(int(n in ("typing.Callable", "collections.abc.Callable", "object") or (isinstance(v, ClassV) and n == "type")))
    return ZERO


@b("isinstance")
def _isinstance(I, v, t):
    return sc(isinst(I, v, t), "bool")


@b("issubclass")
def _issubclass(I, c, t):
    if isinstance(c, ClassV) and isinstance(t, ClassV):
        return t in c.mro()
    return sc(opaque_bool("issubclass", fresh_name("c")), "bool")


@b("hasattr")
def _hasattr(I, v, n):
    if not isinstance(n, (str, Unk, PhiV)):
        I.exit("raise", "TypeError")
    return sc(I.hasattr(v, n), "bool")


@b("getattr")
def _getattr(I, v, n, *d):
    if not isinstance(n, str):
        return Unk("getattr")
    return I.getattr(v, n, *d)


@b("setattr")
def _setattr(I, v, n, x):
    if not isinstance(n, str):
        raise Undecided("setattr")
    I.setattr(v, n, x)


def is_callable(I, v):
    if isinstance(v, PhiV):
        return phi(v.c, is_callable(I, v.a), is_callable(I, v.b))
    if isinstance(v, (FuncV, BoundV, PartialV, PrimV, ClassV, ModV, DtV)):
        return ONE
    if isinstance(v, ORef):
        c = I.heap[v.id].cls
        return P(int(isinstance(c, ClassV) and c.lookup("__call__")[0] is not None))
    if isinstance(v, Model):
        h = v.get(I, "__hasattr__")
        if h is not MISSING:
            return h(I, "__call__")
        return P(int(v.get(I, "__call__") is not MISSING))
    if isinstance(v, Unk):
        return opaque_bool("callable", v.why, fresh_name("u"))
    return ZERO


@b("callable")
def _callable(I, v):
    return sc(is_callable(I, v), "bool")


def minmax(op):
    f = pmin if op == "min" else pmax

    def g(I, *args, key=None, default=MISSING):
        if key is not None:
            return Unk(op)
        if len(args) == 1:
            v = args[0]
            if isinstance(v, ARef):
                return MODELS["numpy." + op](I, v)
            vals = I.sequence(v)
            if not vals:
                if default is not MISSING:
                    return default
                I.exit("raise", "ValueError")
        else:
            vals = args

        def go(*vals):
            if any(isinstance(v, Unk) for v in vals):
                return Unk(op)
            ps = [P_of(v) if not isinstance(v, ARef) else P_of(_item(I, v)) for v in vals]
            if any(p is None for p in ps):
                raise Undecided(op)
            r, ty = ps[0], ty_of(vals[0])
            for p, v in zip(ps[1:], vals[1:]):
                r = f(r, p)
                ty = ty_join(ty, ty_of(v)) if not isinstance(v, ARef) else ty
            return sc(r, ty)
        return I.lift(go, *vals)
    return g


BUILTINS["min"] = PrimV("min", minmax("min"))
BUILTINS["max"] = PrimV("max", minmax("max"))


def lift1(name, f):
    def g(I, *args):
        return I.lift(lambda *a: f(I, *a), *args)
    BUILTINS[name] = PrimV(name, g)


def _abs(I, v):
    if isinstance(v, Unk):
        return v
    if isinstance(v, ARef):
        return ew(I, lambda p: fun("abs", p), v)
    p = P_of(v)
    if p is None:
        m = I.getattr(v, "__abs__", None) if isinstance(v, ORef) else None
        if m is not None:
            return I.call(m, [], {})
        raise Undecided("abs")
    return sc(fun("abs", p), ty_of(v) if ty_of(v) != "bool" else "int")


lift1("abs", _abs)


def _int(I, v=0, *a):
    if isinstance(v, Unk):
        return v
    if isinstance(v, ARef):
        v = _item(I, v)
    p = P_of(v)
    if p is None:
        if isinstance(v, str):
            return Unk("int(str)")
        if v is None:
            I.exit("raise", "TypeError")
        if isinstance(v, Model) and v.get(I, "__int__") is not MISSING:
            return v.get(I, "__int__")(I)
        raise Undecided("int()")
    return sc(p if poly.is_integer(p) else fun("int", p), "int")


def _float(I, v=0):
    if isinstance(v, Unk):
        return v
    if isinstance(v, ARef):
        v = _item(I, v)
    if isinstance(v, str):
        return {"inf": CONSTS["numpy.inf"], "nan": CONSTS["numpy.nan"]}.get(v, Unk("float(str)"))
    p = P_of(v)
    if p is None:
        if v is None:
            I.exit("raise", "TypeError")
        raise Undecided("float()")
    return Sc(p, "float")


lift1("int", _int)
lift1("float", _float)


@b("bool")
def _bool(I, v=False):
    return sc(I.truth(v), "bool")


@b("str")
def _str(I, v=""):
    return v if isinstance(v, (str, StrV)) else StrV((v,)) if P_of(v) is not None else Unk("str")


for _n in ("repr", "format", "chr", "hex"):
    BUILTINS[_n] = PrimV(_n, lambda I, *a: Unk("str"))
BUILTINS["complex"] = PrimV("complex", lambda I, *a: Unk("complex"))
BUILTINS["id"] = PrimV("id", lambda I, *a: Unk("id"))
BUILTINS["hash"] = PrimV("hash", lambda I, *a: Unk("hash"))
BUILTINS["print"] = PrimV("print", lambda I, *a, **k: None)
BUILTINS["object"] = PrimV("object", lambda I: Unk("object"))
BUILTINS["property"] = PrimV("property", lambda I, f, s=None: PropV(f, s))
BUILTINS["staticmethod"] = PrimV("staticmethod", None)
BUILTINS["classmethod"] = PrimV("classmethod", None)
BUILTINS["staticmethod"] = ModV("staticmethod")
BUILTINS["classmethod"] = ModV("classmethod")
BUILTINS["Ellipsis"] = Ellipsis
BUILTINS["NotImplemented"] = Unk("NotImplemented")
BUILTINS["__name__"] = "primate"
BUILTINS["__file__"] = "__file__"
BUILTINS["__debug__"] = True
for _n in ("AssertionError", "ValueError", "TypeError", "RuntimeError", "KeyError", "IndexError", "Exception", "BaseException", "AttributeError", "NotImplementedError",
           "ZeroDivisionError", "ArithmeticError", "StopIteration", "ImportError", "ModuleNotFoundError", "LookupError", "FloatingPointError", "OverflowError", "Warning", "UserWarning", "RuntimeWarning", "DeprecationWarning", "MemoryError", "OSError"):
    BUILTINS[_n] = PrimV(_n, lambda I, *a, **k: Unk("exception"))


@b("list")
def _list(I, v=()):
    if isinstance(v, LRef):
        return I.new(ListC(I.heap[v.id].segs), LRef)
    if isinstance(v, ARef) and v.dims and not (v.dims[0].is_const() and v.dims[0].cval() <= I.unroll):
        return I.new(ListC([("rows", v)]), LRef)
    segs = I.iteration(v)
    if all(s[0] == "v" for s in segs):
        return I.mklist([s[1] for s in segs])
    import ast
    I.frame.env["__it"] = v
    r = I.ev(ast.parse("[__x for __x in __it]", mode="eval").body)
    I.frame.env.pop("__it", None)
    return r


@b("tuple")
def _tuple(I, v=()):
    if isinstance(v, tuple):
        return v
    return tuple(I.sequence(v))


@b("dict")
def _dict(I, v=None, **kw):
    r = I.new(DictC({}), DRef)
    if isinstance(v, DRef):
        dict_update(I, r, v)
    elif v is not None:
        for x in I.sequence(v):
            k, y = I.sequence(x, 2)
            dict_set(I, r, k, y)
    for k, x in kw.items():
        dict_set(I, r, k, x)
    return r


@b("set")
def _set(I, v=()):
    return to_set(I, v) if not isinstance(v, Unk) else v


BUILTINS["frozenset"] = PrimV("frozenset", _set)


class SeqM(Model):
    """A lazily described finite sequence: list of ('v', value) | ('sym', N, fn)."""

    def __init__(self, segs):
        self.segs = segs

    def get(self, I, name):
        if name == "__segs__":
            return lambda I: self.segs
        if name == "__len__":
            return lambda I: sc(sum((ONE if s[0] == "v" else s[1] if s[0] == "sym" else phi(s[1], P(len(s[2])), P(len(s[3]))) for s in self.segs), ZERO), "int")
        if name == "__getitem__":
            return lambda I, k: self.item(I, k)
        if name == "__binop__":
            return lambda I, op, o, rev: self.add(I, op, o, rev)
        return MISSING

    def item(self, I, k):
        n = P_of(self.get(I, "__len__")(I))
        if any(s[0] not in ("v", "sym") for s in self.segs):
            raise Undecided("item of an alternative sequence")
        if isinstance(k, SliceV):
            f = lambda x, d: d if x is None else norm_index(P_of(x), n)
            lo, hi = f(k.lo, ZERO), f(k.hi, n)
            if k.step is not None and P_of(k.step) != ONE:
                raise Undecided("stepped slice of a sequence")
            return SeqM([("sym", pmax(pmin(hi, n) - lo, ZERO), lambda j: self.item(I, Sc(lo + j, "int")))])
        q = norm_index(P_of(k), n)
        r, off, first = None, ZERO, True
        parts = []
        for s in self.segs:
            m = ONE if s[0] == "v" else s[1]
            parts.append((off, off + m, s))
            off = off + m
        for lo, hi, s in reversed(parts):
            c = ONE if r is None else gt(hi - q)
            if c.is_const() and not c.cval():
                continue
            x = s[1] if s[0] == "v" else s[2](q - lo)
            r = x if c.is_const() else I.join_val(c, x, r)
        return r if r is not None else Unk("item")

    def add(self, I, op, o, rev):
        if op != "Add":
            raise Undecided(f"operator {op} on a sequence")
        other = I.iteration(o)
        return SeqM(other + list(self.segs) if rev else list(self.segs) + other)


@b("zip")
def _zip(I, *its, strict=False):
    if any(isinstance(x, PhiV) for x in its):
        return I.lift(lambda *xs: _zip(I, *xs, strict=strict), *its)
    cols = [known_steps(I, I.iteration(x)) for x in its]
    if all(all(s[0] == "v" for s in c) for c in cols):
        return SeqM([("v", tuple(s[1] for s in row)) for row in zip(*cols)])
    if all(len(c) == 1 and c[0][0] == "sym" for c in cols):
        N = cols[0][0][1]
        for c in cols[1:]:
            N = pmin(N, c[0][1])
        return SeqM([("sym", N, lambda j: tuple(c[0][2](j) for c in cols))])
    # symbolic against constant-length
    m = min(len(c) for c in cols if all(s[0] == "v" for s in c)) if any(all(s[0] == "v" for s in c) for c in cols) else None
    if m is not None and all(all(s[0] == "v" for s in c) or len(c) == 1 and c[0][0] == "sym" and poly.prove_ge0(c[0][1] - m) for c in cols):
        return SeqM([("v", tuple(c[k][1] if c[k % len(c)][0] == "v" else c[0][2](P(k)) for c in cols)) for k in range(m)])
    raise Undecided("zip of mixed sequences")


def known_steps(I, segs):
    """A repetition whose count is known under the current assumptions is written out."""
    out = []
    for s in segs:
        n = I.norm(s[1]) if s[0] == "sym" else None
        if n is not None and n.is_const() and n.cval() <= 16:
            out.extend(("v", s[2](P(k))) for k in range(int(n.cval())))
        else:
            out.append(s)
    return out


@b("enumerate")
def _enumerate(I, it, start=0):
    if isinstance(it, PhiV):
        return I.lift(lambda x: _enumerate(I, x, start), it)
    out, off = [], P_of(start)
    for s in I.iteration(it):
        if s[0] == "v":
            out.append(("v", (sc(off, "int"), s[1])))
            off = off + 1
        elif s[0] == "alt":
            raise Undecided("enumerate over optional items")
        else:
            out.append(("sym", s[1], lambda j, s=s, off=off: (sc(off + j, "int"), s[2](j))))
            off = off + s[1]
    return SeqM(out)


@b("reversed")
def _reversed(I, it):
    out = []
    for s in reversed(I.iteration(it)):
        if s[0] == "alt":
            raise Undecided("reversed optional items")
        out.append(s if s[0] == "v" else ("sym", s[1], lambda j, s=s: s[2](s[1] - 1 - j)))
    return SeqM(out)


@b("map")
def _map(I, f, *its):
    import ast
    if any(isinstance(x, PhiV) for x in its):
        return I.lift(lambda *xs: _map(I, f, *xs), *its)
    I.frame.env.update({"__f": f, "__it": _zip(I, *its) if len(its) > 1 else its[0]})
    r = I.ev(ast.parse("[__f(*__x) for __x in __it]" if len(its) > 1 else "[__f(__x) for __x in __it]", mode="eval").body)
    for k in ("__f", "__it"):
        I.frame.env.pop(k, None)
    return r


@b("filter")
def _filter(I, f, it):
    import ast
    I.frame.env.update({"__f": f, "__it": it})
    r = I.ev(ast.parse("[__x for __x in __it if (__f(__x) if __f is not None else __x)]", mode="eval").body)
    for k in ("__f", "__it"):
        I.frame.env.pop(k, None)
    return r


@b("sum")
def _sum(I, it, start=0):
    if isinstance(it, ARef):
        r = MODELS["numpy.sum"](I, it, axis=0)
        return r if veq(start, 0) else binop(I, "Add", r, start)
    import ast
    I.frame.env["__it"], I.frame.env["__acc"] = it, start
    for s in ast.parse("for __x in __it:\n    __acc = __acc + __x").body:
        I.exec(s)
    r = I.frame.env.pop("__acc")
    I.frame.env.pop("__it", None)
    I.frame.env.pop("__x", None)
    return r


def anyall(isall):
    def g(I, it):
        if isinstance(it, ARef):
            return MODELS["numpy.all" if isall else "numpy.any"](I, it)
        vals = I.sequence(it)
        r = ONE
        for v in vals:
            t = I.truth(v)
            r = r * (t if isall else ONE - t)
        return sc(r if isall else ONE - r, "bool")
    return g


BUILTINS["any"] = PrimV("any", anyall(False))
BUILTINS["all"] = PrimV("all", anyall(True))


@b("sorted")
def _sorted(I, it, key=None, reverse=False):
    vals = I.sequence(it)
    if key is None and all(isinstance(v, str) for v in vals):
        return I.mklist(sorted(vals, reverse=bool(reverse)))
    if key is None and all(P_of(v) is not None and P_of(v).is_const() for v in vals):
        return I.mklist(sorted(vals, key=lambda v: P_of(v).cval(), reverse=bool(reverse)))
    return Unk("sorted")


class IterM(Model):
    def __init__(self, I, v):
        self.v = v
        self.ref = None

    def get(self, I, name):
        if name == "__segs__":
            return lambda I: I.iteration(self.v)
        return MISSING


@b("iter")
def _iter(I, v, *s):
    if s:
        return Unk("iter")
    return IterM(I, v)


@b("next")
def _next(I, it, *default):
    if isinstance(it, IterM):
        segs = I.iteration(it.v)
        if segs and segs[0][0] == "v":
            it.v = SeqM(segs[1:])
            return segs[0][1]
        if not segs:
            if default:
                return default[0]
            I.exit("raise", "StopIteration")
    return Unk("next")


@b("round")
def _round(I, v, nd=None):
    p = P_of(v)
    if p is None or nd not in (None, 0):
        return Unk("round")
    return sc(fun("round", p), "int" if nd is None else ty_of(v))


@b("pow")
def _pow(I, a, b_, *m):
    return binop(I, "Pow", a, b_)


@b("divmod")
def _divmod(I, a, b_):
    return (binop(I, "FloorDiv", a, b_), binop(I, "Mod", a, b_))


@b("slice")
def _slice(I, *a):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


@b("type")
def _type(I, v, *a):
    if isinstance(v, ORef):
        return I.heap[v.id].cls
    if isinstance(v, str):
        return BUILTINS["str"]
    if isinstance(v, bool):
        return BUILTINS["bool"]
    if isinstance(v, int):
        return BUILTINS["int"]
    if isinstance(v, ARef):
        return ModV("numpy.ndarray")
    if isinstance(v, LRef):
        return BUILTINS["list"]
    if isinstance(v, tuple):
        return BUILTINS["tuple"]
    if P_of(v) is not None and ty_of(v) in ("float", "int", "bool"):
        return BUILTINS[ty_of(v)]
    return Unk("type")


@b("vars")
def _vars(I, v):
    return I.getattr(v, "__dict__")


@b("locals")
def _locals(I):
    return Unk("locals")


@b("delattr")
def _delattr(I, o, n):
    c = I.heap[o.id]
    I.heap[o.id] = ObjC(c.cls, {k: x for k, x in c.fields.items() if k != n})


# ------------------------------------------------------------------------------------------------------------- dataclass
def dataclass(I, cls):
    if not isinstance(cls, ClassV):
        return cls
    fields = []
    for c in reversed(cls.mro()):
        for n, default in getattr(c, "ann", []):
            fields = [f for f in fields if f[0] != n] + [(n, c.ns.get(n, MISSING))]
    cls.dataclass_fields = fields

    def init(I, self_, *args, **kw):
        env = dict(zip([f[0] for f in fields], args))
        if len(args) > len(fields):
            I.exit("raise", "TypeError")
        for k, v in kw.items():
            if k in env or k not in {f[0] for f in fields}:
                I.exit("raise", "TypeError")
            env[k] = v
        for n, d in fields:
            if n in env:
                v = env[n]
            elif isinstance(d, FieldM):
                v = I.call(d.factory, [], {}) if d.factory is not None else d.default
            elif d is MISSING:
                I.exit("raise", "TypeError")
            else:
                v = d
            I.setattr(self_, n, v)
        pi, _ = cls.lookup("__post_init__")
        if pi is not None:
            I.call(I.bind(pi, self_, cls), [], {})
    if "__init__" not in cls.ns:
        cls.ns["__init__"] = PrimV("method", init)
    cls.init_fields = fields
    return cls


class FieldM(Model):
    def __init__(self, factory, default):
        self.factory, self.default = factory, default


@model("dataclasses.field")
def _field(I, default=MISSING, default_factory=None, **k):
    return FieldM(default_factory, default)


@model("dataclasses.dataclass")
def _dataclass(I, cls=None, **k):
    if cls is None:
        return PrimV("dataclass", lambda I, c: dataclass(I, c))
    return dataclass(I, cls)


for _n in ("typing.runtime_checkable", "typing.no_type_check", "typing.cast", "typing.overload"):
    MODELS[_n] = (lambda I, *a: a[-1])
MODELS["typing.TypeVar"] = lambda I, *a, **k: Unk("typevar")
MODELS["staticmethod"] = lambda I, f: PrimV("staticmethod", f)
MODELS["classmethod"] = lambda I, f: PrimV("classmethod", f)
MODELS["importlib.metadata.version"] = lambda I, *a: Unk("str")
MODELS["warnings.warn"] = lambda I, *a, **k: None
MODELS["os.path.join"] = lambda I, *a: Unk("str")
MODELS["os.path.dirname"] = lambda I, *a: Unk("str")
MODELS["numpy.printoptions"] = lambda I, *a, **k: NullCM()
MODELS["numpy.errstate"] = lambda I, *a, **k: NullCM()
MODELS["warnings.catch_warnings"] = lambda I, *a, **k: NullCM()
MODELS["warnings.simplefilter"] = lambda I, *a, **k: None
MODELS["contextlib.nullcontext"] = lambda I, v=None: NullCM(v)
MODELS["contextlib.suppress"] = lambda I, *a: NullCM()
MODELS["numpy.array2string"] = lambda I, *a, **k: StrV(a[:1]) if a and (isinstance(a[0], ARef) or P_of(a[0]) is not None) else Unk("str")
MODELS["numpy.format_float_positional"] = lambda I, *a, **k: Unk("str")


class NullCM(Model):
    def __init__(self, v=None):
        self.v = v

    def get(self, I, name):
        if name == "__enter__":
            return PrimV("enter", lambda I: self.v)
        if name == "__exit__":
            return PrimV("exit", lambda I, *a: None)
        return MISSING


@model("functools.partial", raw=True)
def _partial(I, f, *a, **k):
    return PartialV(f, a, k)


@model("functools.reduce")
def _reduce(I, f, it, *init):
    vals = I.sequence(it)
    if init:
        acc = init[0]
    else:
        acc, vals = vals[0], vals[1:]
    for v in vals:
        acc = I.call(f, [acc, v], {})
    return acc


@model("functools.wraps", "functools.update_wrapper")
def _wraps(I, *a, **k):
    return PrimV("wraps", lambda I, f: f)


@model("copy.copy", "copy.deepcopy")
def _copycopy(I, v, memo=None):
    return deepcopy(I, v, {})


def deepcopy(I, v, memo):
    if isinstance(v, ARef):
        if v.buf not in memo:
            r = copy(I, v)
            memo[v.buf] = r
        return memo[v.buf]
    if isinstance(v, ORef):
        if v.id in memo:
            return memo[v.id]
        c = I.heap[v.id]
        r = I.new(ObjC(c.cls, {}))
        memo[v.id] = r
        I.heap[r.id] = ObjC(c.cls, {k: deepcopy(I, x, memo) for k, x in c.fields.items()})
        return r
    if isinstance(v, LRef):
        out = []
        for s in I.heap[v.id].segs:
            if s[0] == "v":
                out.append(("v", deepcopy(I, s[1], memo)))
            elif s[0] == "rows":
                out.append(("rows", copy(I, s[1])))
            else:
                out.append(s)
        return I.new(ListC(out), LRef)
    if isinstance(v, DRef):
        d = I.heap[v.id]
        return I.new(DictC({k: deepcopy(I, x, memo) for k, x in d.items.items()}, d.kind, d.extra), DRef)
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, PhiV):
        return PhiV(v.c, deepcopy(I, v.a, memo), deepcopy(I, v.b, memo))
    return v


for _n, _op in (("and_", "BitAnd"), ("or_", "BitOr"), ("xor", "BitXor"), ("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("matmul", "MatMult"), ("pow", "Pow"), ("mod", "Mod"), ("floordiv", "FloorDiv")):
    MODELS["operator." + _n] = (lambda op: lambda I, a, b_: I.lift(lambda x, y: binop(I, op, x, y), a, b_))(_op)
for _n, _op in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq"), ("is_", "Is"), ("is_not", "IsNot")):
    MODELS["operator." + _n] = (lambda op: lambda I, a, b_: compare(I, op, a, b_))(_op)
MODELS["operator.not_"] = lambda I, a: sc(ONE - I.truth(a), "bool")
MODELS["operator.not_"].raw = True
MODELS["operator.truth"] = lambda I, a: sc(I.truth(a), "bool")
MODELS["operator.neg"] = lambda I, a: I.unary("USub", a)
MODELS["operator.invert"] = lambda I, a: I.unary("Invert", a)
MODELS["operator.itemgetter"] = lambda I, k: PrimV("itemgetter", lambda I, o: I.getitem(o, k))
MODELS["operator.attrgetter"] = lambda I, k: PrimV("attrgetter", lambda I, o: I.getattr(o, k))


class SigM(Model):
    def __init__(self, params):
        self.params = params

    def get(self, I, name):
        if name == "parameters":
            return I.new(DictC({p: Unk("parameter") for p in self.params}), DRef)
        return MISSING


def params_of(I, f):
    if isinstance(f, BoundV):
        p = params_of(I, f.fn)
        return p[1:] if p else p
    if isinstance(f, ClassV):
        init, _ = f.lookup("__init__")
        if init is None:
            return []
        if isinstance(init, PrimV):
            return [x[0] for x in getattr(f, "init_fields", [])]
        return params_of(I, init)[1:]
    if isinstance(f, PartialV):
        p = params_of(I, f.fn)
        return None if p is None else [x for x in p[len(f.args):]]
    if isinstance(f, FuncV):
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
    if isinstance(f, ORef):
        c = I.heap[f.id].cls.lookup("__call__")[0]
        return params_of(I, c)[1:] if isinstance(c, FuncV) else None
    return None


@model("inspect.signature", raw=True)
def _signature(I, f, **k):
    p = params_of(I, f)
    if p is None:
        return Unk("signature")
    return SigM(p)


MODELS["inspect.getfullargspec"] = lambda I, f: Unk("argspec")
from . import npfun  # noqa: E402,F401  (registers the library models)
