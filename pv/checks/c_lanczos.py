"""The Lanczos driver and matrix functions on top of the native routine (C22, C33)."""
from .. import npm, npfun, poly, witness
from ..chk import prop
from ..lib import *
from ..npfun import Rng
from ..values import *
from .c_quad import tqli_hook, spectrum, tqli_of, lead0, failing


def natives(I):
    return [e for e in I.events if e.kind == "native"]


def run_of(I, A, v, k, rtol, orth, n, ncv=None, early=False, dt="float64"):
    """Specification of one native run from the vector v with clean outputs: (alpha(i), beta(i), basis(i, j), steps)."""
    Q = npm.build(I, (n, k if ncv is None else ncv), lambda iv: ZERO, dt)
    z = lambda *ix: ZERO
    fa, fb, fq, _v, steps = npfun.native_run(I, A, v, N(k), rtol, orth, Q, k + 1, k + 1, (z, z, z), early)
    return (lambda i: fa((P(i),))), (lambda i: fb((P(i),))), (lambda i, j: fq((P(i), P(j)))), steps


def capped(orth, k):
    """Reorthogonalisation depth: everything when negative or deeper than the degree."""
    return phi(gt(-orth), k, phi(gt(orth - k), k, orth))


# -------------------------------------------------------------------------------------------------------------------- C33
@prop("C33", "The Lanczos driver is analysed for symbolic operator size, degree, tolerance and orthogonalisation depth (signs included), start vectors given "
      "(array, list) or drawn, both precisions and every output form, the native routine being an unknown function of exactly what it is handed: the "
      "returned entries must be those of one native run with the requested parameters, the sparse form must be the symmetric tridiagonal "
      "matrix of the same entries, the basis must have as many columns as the degree; Rayleigh-Ritz values are compared with the spectrum of that pair.")
def c33(ck):
    where = "primate.lanczos.lanczos"
    for kind in ("array", "operator"):
        for start in ("given", "float32", "int-seed", "generator", "none"):
            for deg in ("default", "symbolic", "one"):
                for out in ("pair", "sparse", "basis", "sparse+basis"):
                    ck.attempt("native-run", where, lambda: c33_case(ck, where, kind, start, deg, out, "float64", "orth"))
    for dt in ("float64", "float32"):
        for dt2 in (None, "float64", "float32"):
            for out in ("pair", "basis", "sparse"):
                ck.attempt("native-run", where, lambda: c33_case(ck, where, "operator", "given", "symbolic", out, dt, "default", dt2))
    for out in ("pair", "basis", "sparse"):
        ck.attempt("native-run", where, lambda: c33_case(ck, where, "array", "given", "symbolic", out, "float64", "default", None, True))
    ck.attempt("start-length", where, lambda: c33_bad(ck, where))
    where = "primate.lanczos.rayleigh_ritz"
    for deg in ("default", "symbolic"):
        for vectors in (False, True):
            for basis in (False, True):
                for method in (None, "rrr", "RRR", "mrrr", "tqli", "auto", "TQLI"):
                    ck.attempt("ritz-values", where, lambda: c33_ritz(ck, where, deg, vectors, basis, method))
    for bad in ("ql", "", "rr", "gw"):
        def go():
            I = ck.interp()
            f = ck.public(I, "lanczos", "rayleigh_ritz")
            n = isym("n", 2)
            A = operator(I, "operator", n)
            r, ex = I.run(lambda: I.call(f, [A], {"method": bad}))
            rejected(ck, "invalid-method", where, ex, detail=f"method {bad!r}")
        ck.attempt("invalid-method", where, go)


def start_vector(I, start, n):
    """(keyword arguments, entry function or None when drawn)"""
    if start in ("given", "float32"):
        v, e = arr(I, "v0", (n,), "float32" if start == "float32" else "float64")
        return {"v0": v}, e, v
    if start == "int-seed":
        return {"seed": N(isym("seed", 0))}, None, None
    if start == "generator":
        return {"seed": Rng(("caller", fresh_name("gen")))}, None, None
    return {}, None, None


def drawn(ck, I, where, tag, seed):
    """Entries of the uniform start vector on [-1, 1) drawn from the caller's seed."""
    ds = [e for e in I.events if e.kind == "draw" and not poly.is_zero(e.guard)]
    if len(ds) != 1:
        ck.undecided("start-vector", where, f"{tag}: {len(ds)} draws")
        return None
    d = ds[0]
    if isinstance(seed, Rng):
        ck.require("start-vector", where, d.gen is seed, f"{tag}: the start vector is not drawn from the caller's generator")
    ck.require("start-vector", where, d.law == "U01", f"{tag}: the start vector is drawn from {d.law}")
    return lambda i: 2 * el(d.name, (P(i),)) - 1


def c33_case(ck, where, kind, start, deg, out, dt, orthk, dt2=None, works=False):
    tag = f"{kind} operator, {start} start, degree {deg}, {out} output, {dt}" + (f", dtype={dt2}" if dt2 else "") + (", own workspaces" if works else "")
    I = ck.interp()
    f = ck.public(I, "lanczos", "lanczos")
    n = isym("n", 1)
    A = operator(I, kind, n, dtype=dt)
    kw, entry, v0 = start_vector(I, start, n)
    seed = kw.get("seed")
    k = n
    if deg == "symbolic":
        d = isym("deg", 1)
        kw["deg"] = N(d)
        k = phi(gt(n - d), d, n)
    elif deg == "one":
        kw["deg"] = N(ONE)
        k = ONE
    if works:       # the sizes must be known to hand in workspaces
        d = isym("deg", 1)
        kw["deg"], k = N(d), d
    rtol, orth = F(Fr(1, 10 ** 8) * ONE), ZERO
    if orthk == "orth":
        orth = isym("orth", None)
        rt = sym(fresh_name("rtol"), lo=0)
        rtol = F(rt)
        kw["rtol"], kw["orth"] = rtol, N(orth)
    if dt2:
        kw["dtype"] = DtV(dt2)
    basis, sparse = "basis" in out, "sparse" in out
    if basis:
        kw["return_basis"] = True
    if sparse:
        kw["sparse_mat"] = True
    ws = {}
    truths = []
    if works:
        truths = [ge(n - k)]
        ncv = k if basis else phi(gt(k - 2), P(2), k)
        ws = {"alpha": given(I, (k + 1,), lambda i: ZERO, note="workspace"), "beta": given(I, (k + 1,), lambda i: ZERO, note="workspace"), "Q": given(I, (n, ncv), lambda i, j: ZERO, note="workspace", order="F")}
        kw.update(ws)

    def run():
        for t in truths:
            I.assume_true(t)
        return I.call(f, [A], kw)
    r, ex = I.run(run)
    ck.no_raise("accepted", where, ex, tag, truths=truths)
    if r is MISSING:
        return ck.undecided("native-run", where, f"{tag}: no result")
    r = merge(I, r)
    evs = natives(I)
    if not evs:
        return ck.bad("native-run", where, f"{tag}: the native iteration is never run")
    e = evs[-1]
    ck.zero("native-run", where, sum((x.guard for x in evs), ZERO) - ONE, truths=truths, detail=f"{tag}: number of native runs")
    if entry is None:
        entry = drawn(ck, I, where, tag, seed)
        if entry is None:
            return
    want_dt = dt2 or dt
    if dt2 is None and dt != "float64":     # no precision requested: any one precision
        want_dt = e.dts[1]
    ck.require("precision", where, all(x == want_dt for x in e.dts[1:]), f"{tag}: native run on {e.dts}, precision {want_dt} requested")
    v = npm.build(I, (n,), lambda iv: entry(iv[0]), want_dt)
    o = capped(orth, k)
    ck.require("native-run", where, e.A is A or e.A == A, f"{tag}: the native run is on another operator")
    if not all(isinstance(x, ARef) for x in (e.alpha, e.beta, e.Q)):
        return ck.undecided("native-run", where, f"{tag}: outputs {e.alpha!r}")
    ncv = e.Q.dims[1]
    ck.zero("basis-columns", where, ONE - ge(ncv - phi(gt(k - 2), P(2), k)), truths=truths, detail=f"{tag}: fewer columns than the recurrence needs")
    ck.zero("basis-columns", where, ONE - ge(ncv - phi(gt(o - k), k, o)), truths=truths, detail=f"{tag}: fewer columns than vectors to orthogonalise against")
    ck.eq("parameters", where, P_of(e.k), k, truths=truths, detail=f"{tag}: degree")
    ck.eq("parameters", where, P_of(e.rtol), P_of(rtol), truths=truths, detail=f"{tag}: tolerance")
    ck.eq("parameters", where, P_of(e.orth), o, truths=truths, detail=f"{tag}: orthogonalisation depth")
    # entries: those of a clean run with these very parameters
    fa, fb, fq, _s = run_of(I, A, v, P_of(e.k), e.rtol, e.orth, n, ncv, dt=want_dt)
    T = r[0] if basis and isinstance(r, tuple) and len(r) == 2 else r
    if basis:
        if not ck.require("result-form", where, isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], ARef), f"{tag}: pair of coefficients and basis expected, not {r!r}"):
            return
        ck.same("basis", where, I, r[1], npm.build(I, (n, k), lambda iv: fq(*iv)), detail=tag, truths=truths)
    if sparse:
        want = npm.build(I, (k, k), lambda iv: eq(iv[0] - iv[1]) * fa(iv[0]) + eq(iv[0] - iv[1] - 1) * fb(iv[0]) + eq(iv[1] - iv[0] - 1) * fb(iv[1]))
        ck.same("coefficients", where, I, T, want, detail=f"{tag}: sparse matrix", truths=truths)
    else:
        if not ck.require("result-form", where, isinstance(T, tuple) and len(T) == 2, f"{tag}: pair of diagonals expected, not {T!r}"):
            return
        ck.same("coefficients", where, I, T[0], npm.build(I, (k,), lambda iv: fa(iv[0])), detail=f"{tag}: diagonal", truths=truths)
        ck.same("coefficients", where, I, T[1], npm.build(I, (k - 1,), lambda iv: fb(iv[0] + 1)), detail=f"{tag}: off-diagonal", truths=truths)
    if v0 is not None:
        ck.same("argument-unchanged", where, I, v0, npm.build(I, (n,), lambda iv: entry(iv[0])), detail=f"{tag}: start vector", truths=truths)
    for nm, x in ws.items():
        got = getattr(e, nm)
        ck.require("workspaces", where, isinstance(got, ARef) and got.buf == x.buf, f"{tag}: the supplied {nm} is not used")


def c33_bad(ck, where):
    I = ck.interp()
    f = ck.public(I, "lanczos", "lanczos")
    n, m = isym("n", 1), isym("m", 0)
    A = operator(I, "operator", n)
    v, _ = arr(I, "v0", (m,))
    bad = ONE - eq(n - m)

    def run():
        I.assume_true(bad)
        return I.call(f, [A], {"v0": v})
    r, ex = I.run(run)
    g = sum((x.guard for x in raising(ex)), ZERO)
    ck.zero("start-length", where, bad * (ONE - g), truths=[bad], detail="start vector of another length")


def c33_ritz(ck, where, deg, vectors, basis, method):
    tag = f"degree {deg}, method {method or 'default'}" + (", vectors" if vectors else "") + (", basis" if basis else "")
    I = ck.interp()
    log = []
    I.hooks["tqli.tqli"] = tqli_hook(log)
    f = ck.public(I, "lanczos", "rayleigh_ritz")
    n = isym("n", 2)
    A = operator(I, "operator", n)
    v0, entry = arr(I, "v0", (n,))
    orth, rt = isym("orth", None), sym(fresh_name("rtol"), lo=0)
    kw = {"v0": v0, "orth": N(orth), "rtol": F(rt)}
    k = n
    if deg == "symbolic":
        d = isym("deg", 2)
        kw["deg"], k = N(d), phi(gt(n - d), d, n)
    if vectors:
        kw["return_eigenvectors"] = True
    if basis:
        kw["return_basis"] = True
    if method:
        kw["method"] = method
    r, ex = I.run(lambda: I.call(f, [A], kw))
    ck.no_raise("accepted", where, ex, tag)
    if r is MISSING:
        return ck.undecided("ritz-values", where, f"{tag}: no result")
    r = merge(I, r)
    evs = natives(I)
    if not evs:
        return ck.bad("ritz-values", where, f"{tag}: the native iteration is never run")
    e = evs[-1]
    ck.zero("native-run", where, sum((x.guard for x in evs), ZERO) - ONE, detail=f"{tag}: number of native runs")
    ck.require("native-run", where, e.A is A, f"{tag}: the native run is on another operator")
    ck.eq("parameters", where, P_of(e.k), k, detail=f"{tag}: degree")
    ck.eq("parameters", where, P_of(e.rtol), rt, detail=f"{tag}: tolerance")
    ck.eq("parameters", where, P_of(e.orth), capped(orth, k), detail=f"{tag}: orthogonalisation depth")
    ncv = e.Q.dims[1]
    v = npm.build(I, (n,), lambda iv: entry(iv[0]))
    fa, fb, fq, _s = run_of(I, A, v, P_of(e.k), e.rtol, e.orth, n, ncv)
    a = npm.build(I, (k,), lambda iv: fa(iv[0]))
    b = npm.build(I, (k - 1,), lambda iv: fb(iv[0] + 1))
    prim = spectrum(I, a, b, True)
    m = (method or "rrr").lower()
    fail = failing(I, a, b) if m == "auto" else ONE if m == "tqli" else ZERO
    eye = npm.build(I, (k, k), lambda iv: eq(iv[0] - iv[1])) if vectors else npm.build(I, (ZERO, ZERO), lambda iv: ZERO)
    qw, qv = tqli_of(I, a, lead0(I, k, lambda i: fb(i)), eye, N(P(30)))
    mix = lambda x, y: y if not fail.t else npm.build(I, y.dims, lambda iv: phi(fail, npm.elem(I, x, iv), npm.elem(I, y, iv)))
    want = [mix(qw, prim[0])]
    if vectors:
        want.append(mix(qv, prim[1]))
    if basis:
        want.append(npm.build(I, (n, k), lambda iv: fq(*iv)))
    parts = r if isinstance(r, tuple) else (r,)
    if not ck.require("result-form", where, len(parts) == len(want), f"{tag}: {len(want)} results expected, not {r!r}"):
        return
    for x, w, what in zip(parts, want, ["values"] + ["vectors"] * vectors + ["basis"] * basis):
        ck.same("ritz-values", where, I, x, w, detail=f"{tag}: {what}")


# -------------------------------------------------------------------------------------------------------------------- C22
@prop("C22", "Matrix functions are analysed on an operator of symbolic size with symbolic degree and orthogonalisation depth, an unknown spectral function and "
      "the native routine as an unknown function of what it is handed that may end early: products and quadratic forms of a first and a later "
      "application are compared with the Lanczos formulas for a run from a clean basis started at that very vector (up to three columns).")
def c22(ck):
    where = "primate.operators.MatrixFunction"
    for early in (True,):
        for dt in ("float64", "float32"):
            for how in ("matvec", "@", "column", "quad", "quad-column", "quad-2", "quad-3"):
                for order in ("first", "after-product", "after-quad"):
                    if dt == "float32" and (how in ("@", "quad-3") or order == "after-quad"):
                        continue
                    ck.attempt("lanczos-formula", where, lambda: c22_case(ck, where, how, order, early, dt))
    for what in ("degree", "depth", "tolerance", "named", "named-option", "no-function", "function", "function-v"):
        ck.attempt("configured", where, lambda: c22_config(ck, where, what))


def spectral(name="f"):
    return PrimV(name, lambda I, x: npm.ew(I, lambda t: fun("~" + name, t), x))


def mf_spec(I, A, x, n, k, rtol, orth, early, dt, f=None):
    """(product entries, quadratic form) of the Lanczos approximation for the vector with entries x(i)."""
    f = f or (lambda t: fun("~f", t))
    v = npm.build(I, (n,), lambda iv: x(iv[0]), dt)
    fa, fb, fq, steps = run_of(I, A, v, k, rtol, orth, n, k, early, dt)
    W, V = spectrum(I, npm.build(I, (steps,), lambda iv: fa(iv[0]), dt), npm.build(I, (steps - 1,), lambda iv: fb(iv[0] + 1), dt), True)
    w, y = lambda i: npm.elem(I, W, [i]), lambda i, j: npm.elem(I, V, [i, j])
    sq = S(lambda i: x(i) * x(i), n)
    prod = lambda i: power(sq, Fr(1, 2)) * S(lambda a: fq(i, a) * S(lambda b: y(a, b) * f(w(b)) * y(ZERO, b), steps), steps)
    return prod, sq * S(lambda b: f(w(b)) * y(ZERO, b) ** 2, steps)


def c22_case(ck, where, how, order, early, dt):
    tag = f"{how}, {order}, {dt}" + (", early end" if early else "")
    I = ck.interp()
    I.hooks["tqli.tqli"] = tqli_hook([])
    I.early_stop = early
    I.may_raise = lambda *a: None      # the primary eigen-solver is assumed not to fail (its fallback is C24)
    M = ck.public(I, "operators", "MatrixFunction")
    n, d = isym("n", 2), isym("deg", 2)
    truths = [ge(n - d)]
    A = OpM(I, n, dtype=dt)
    orth = isym("orth", 0)
    truths.append(ge(d - orth))
    g = spectral()
    rtol = F(sym(fresh_name("rtol"), lo=0))
    m = {"quad-2": 2, "quad-3": 3}.get(how, 1)
    two_d = how in ("column", "quad-column", "quad-2", "quad-3")
    x, e = arr(I, "x", (n, P(m)) if two_d else (n,))
    z, _ = arr(I, "z", (n,))
    x0 = freeze(I, x)

    def apply(o, how, x):
        if how in ("matvec", "column"):
            return I.call(I.getattr(o, "matvec"), [x], {})
        if how == "@":
            return I.call(I.getattr(o, "__matmul__"), [x], {})
        return I.call(I.getattr(o, "quad"), [x], {})

    def go():
        for t in truths:
            I.assume_true(t)
        o = I.call(M, [A], {"fun": g, "deg": N(d), "orth": N(orth), "dtype": DtV(dt), "rtol": rtol})
        if order == "after-product":
            apply(o, "matvec", z)
        if order == "after-quad":
            apply(o, "quad", z)
        return apply(o, how, x)
    r, ex = I.run(go)
    ck.no_raise("accepted", where, ex, tag, truths=truths)
    if r is MISSING:
        return ck.undecided("lanczos-formula", where, f"{tag}: no result")
    r = merge(I, r)
    evs = natives(I)
    for q in evs:
        ck.require("precision", where, all(t == dt for t in q.dts[1:]), f"{tag}: native run on {q.dts}, precision {dt} requested")
    cols = [(lambda i, c=c: e(i, P(c))) if two_d else (lambda i: e(i)) for c in range(m)]
    fails = []
    specs = [mf_spec(I, A, col, n, d, rtol, N(orth), early, dt) for col in cols]
    tr = truths
    if how.startswith("quad"):
        if not ck.require("result-form", where, isinstance(r, ARef) and len(r.dims) == 1 and r.dims[0] == P(m), f"{tag}: {m} quadratic forms expected, not {r!r}"):
            return
        for c in range(m):
            got = npm.elem(I, r, [P(c)])
            ck.zero("lanczos-formula", where, got - specs[c][1], detail=f"{tag}: form {c}", truths=tr)
    else:
        shape = (n, ONE) if how == "column" else (n,)
        ck.same("lanczos-formula", where, I, r, npm.build(I, shape, lambda iv: specs[0][0](iv[0])), detail=tag, truths=tr)
    ck.same("argument-unchanged", where, I, x, x0, detail=f"{tag}: vector", truths=tr)


def c22_config(ck, where, what):
    I = ck.interp()
    I.may_raise = lambda *a: None
    I.early_stop = True
    I.hooks["tqli.tqli"] = tqli_hook([])
    M = ck.public(I, "operators", "MatrixFunction")
    n = isym("n", 2)
    A = OpM(I, n)
    x, e = arr(I, "x", (n,))
    d, k, orth, rtol = P(20), phi(gt(n - 20), P(20), n), P(3), Fr(1, 10 ** 8) * ONE
    kw, f, truths = {"fun": spectral()}, None, []
    if what == "degree":
        dd = isym("deg", 2)
        kw["deg"], k = N(dd), phi(gt(n - dd), dd, n)
    if what == "depth":
        orth = isym("orth", None)
        kw["orth"] = N(orth)
    if what == "tolerance":
        rtol = sym(fresh_name("rtol"), lo=0)
        kw["rtol"] = F(rtol)
    if what == "named":
        kw["fun"], f = "exp", lambda t: fun("exp", t)
    if what == "named-option":
        t = sym(fresh_name("t"))
        kw.update(fun="exp", t=F(t))
        f = lambda y: fun("exp", t * y)
    if what == "no-function":
        kw, f = {}, lambda t: t
    fn = what.startswith("function")
    if fn:
        F_ = ck.public(I, "operators", "matrix_function")
        dd = isym("deg", 2)
        kw["deg"], k = N(dd), phi(gt(n - dd), dd, n)
    for how in ("quad", "matvec"):
        if what == "function-v" and how == "quad":
            continue
        J = I

        def go():
            if what == "function-v":
                return J.call(F_, [A], dict(kw, v=x))
            o = J.call(F_ if fn else M, [A], dict(kw))
            return J.call(J.getattr(o, how), [x], {})
        mark = len(I.events)
        r, ex = I.run(go)
        ck.no_raise("accepted", where, ex, what)
        evs = [q for q in I.events[mark:] if q.kind == "native"]
        if len(evs) != 1:
            ck.undecided("configured", where, f"{what}, {how}: {len(evs)} native runs")
            continue
        q = evs[0]
        ck.eq("configured", where, P_of(q.k), k, detail=f"{what}, {how}: degree")
        ck.eq("configured", where, P_of(q.rtol), rtol, detail=f"{what}, {how}: tolerance")
        ck.eq("configured", where, P_of(q.orth), capped(orth, k), detail=f"{what}, {how}: orthogonalisation depth")
        ck.require("configured", where, q.A is A, f"{what}, {how}: another operator")
        p, s = mf_spec(I, A, lambda i: e(i), n, P_of(q.k), q.rtol, q.orth, True, "float64", f)
        r = merge(I, r)
        want = npm.build(I, (n,), lambda iv: p(iv[0])) if how == "matvec" else npm.build(I, (ONE,), lambda iv: s)
        ck.same("configured", where, I, r, want, detail=f"{what}, {how}")
