"""What public functions do to the arrays and objects they are given (C21)."""
from .. import npm, poly
from ..chk import prop
from ..lib import *
from ..npfun import Rng
from ..values import *
from .c_quad import tqli_hook, pair
from .c_stats import updated


def inputs(I):
    """The arrays and lists the caller owns, as they are now."""
    return {k: v for k, v in I.heap.items() if isinstance(v, Buf) and v.note == "user" or isinstance(v, ListC)}


def perform(ck, where, tag, build, let_at=None, unroll=None):
    """build(I) sets up the arguments and returns (call, outputs): everything the caller owns but the outputs keeps its contents."""
    I = ck.interp()
    I.may_raise = lambda *a: None
    if unroll:
        I.while_mode = ("unroll", unroll)
    if let_at:
        I.let_at = let_at
    I.hooks["tqli.tqli"] = tqli_hook([])
    call, out, truths = (tuple(build(ck, I)) + ((), ()))[:3]
    save = npm.MODELS["numpy.isclose"]
    if "leading zero" in tag and "no leading" not in tag:       # an entry that passes for zero need not be zero
        npm.MODELS["numpy.isclose"] = lambda I, *a, **k: True
    try:
        return compare(ck, where, tag, I, call, out, truths)
    finally:
        npm.MODELS["numpy.isclose"] = save


def compare(ck, where, tag, I, call, out, truths):
    keep = {o.buf for o in out if isinstance(o, ARef)} | {o.id for o in out if isinstance(o, LRef)}
    before = {k: v for k, v in inputs(I).items() if k not in keep}
    mark = len(I.events)

    def go():
        for t in truths:
            I.assume_true(t)
        return call()
    r, ex = I.run(go)
    if r is MISSING:
        return ck.undecided("unchanged", where, f"{tag}: no path returns")
    if I.incomplete:
        ck.undecided("unchanged", where, f"{tag}: not modelled: {sorted(set(map(str, I.incomplete)))[:2]}")
    stores = {}
    for e in I.events[mark:]:
        if e.kind == "store":
            stores.setdefault(e.view.buf, []).append(e.pos)
    n = 0
    for k, b in before.items():
        n += 1
        a = I.heap.get(k)
        if a is b or isinstance(b, ListC) and isinstance(a, ListC) and a.segs == b.segs:
            ck.ok("unchanged", where, f"{tag}: argument {n}")
            continue
        at = "".join(f", written at {p[0]}:{p[1]}" for p in stores.get(k, [])[:1])
        if isinstance(b, ListC):
            ck.same("unchanged", where, I, r0(I, a), r0(I, b), detail=f"{tag}: list argument {n}{at}")
            continue
        if not ck.require("unchanged", where, tuple(map(I.norm, a.dims)) == tuple(map(I.norm, b.dims)) and a.dtype == b.dtype, f"{tag}: argument {n} changes its shape or dtype{at}"):
            continue
        ix = [fresh_index(d) for d in b.dims]
        f = lambda c: subst(c.body, {aid_of(v): i for v, i in zip(c.ivs, ix)})
        ck.zero("unchanged", where, f(a) - f(b), detail=f"{tag}: argument {n} of shape ({', '.join(map(repr, b.dims))}){at}", truths=truths)
    for e in I.events[mark:]:
        if e.kind == "user-setattr":
            ck.zero("unchanged", where, e.guard, detail=f"{tag}: attribute {e.name} of the caller's {e.obj!r} is set at {e.pos[0]}:{e.pos[1]}")
    return r


def r0(I, c):
    return I.new(c, LRef)


def fn_case(mod, fn, args, kw=None, then=None, **opts):
    """A plain call with freshly built arguments; args(I) -> (positional, keywords, outputs)."""
    def build(ck, I):
        f = ck.public(I, mod, fn)
        a, k, out = (tuple(args(I)) + ((),) * 3)[:3]
        k = dict(k or {})
        k.update(kw or {})

        def call():
            r = I.call(f, list(a), k)
            return then(I, r) if then else r
        return call, out, opts.get("truths", ())
    return build


FUNCTIONS = (("identity", {}), ("exp", {}), ("exp", {"t": None}), ("softsign", {}), ("softsign", {"q": 2}), ("smoothstep", {}), ("smoothstep", {"a": None, "b": None}),
             ("sqrt", {}), ("log", {}), ("inv", {}), ("abs", {}), ("numrank", {}), ("numrank", {"threshold": None}))


def offdiag(I, n, lead, dt="float64"):
    """Diagonal and off-diagonal entries; a leading entry is only known to be negligible."""
    if not lead:
        return pair(I, n, False, dt)[:2]
    return arr(I, "d", (n,), dt)[0], arr(I, "e", (n,), dt)[0]


def cases():
    U = lambda I, name, *dims, dt="float64", **k: arr(I, name, tuple(map(P, dims)), dt, **k)[0]
    sz = lambda name="n", lo=2: isym(name, lo)

    # statistics
    for cls, dims in (("Mean", (1, "d")), ("Covariance", (1, "d"))):
        for d in dims:
            for flat in (False, True) if d == 1 else (False,):
                def build(ck, I, cls=cls, d=d, flat=flat):
                    c = ck.public(I, "stats", cls)
                    n1, n2 = sz("n1"), sz("n2")
                    m = P(d) if d == 1 else sz("d")
                    mk = lambda n: U(I, "X", n) if d == 1 and flat else U(I, "x", m) if flat else U(I, "X", n, m)
                    x, y = mk(n1), mk(n2)

                    def call():
                        o = I.call(c, [], {"dim": N(m)})
                        method(I, o, "update", x)
                        method(I, o, "update", y)
                        method(I, o, "mean")
                        if cls == "Covariance":
                            method(I, o, "covariance")
                    return call, ()
                yield f"primate.stats.{cls}", f"two batches, dimension {d}{', flat' if flat else ''}", build
    for sdist in ("t", "normal"):
        yield "primate.stats.confidence_interval", f"sdist={sdist}", fn_case("stats", "confidence_interval", lambda I: ([U(I, "a", sz())], {"sdist": sdist}))
    # estimators
    for cov in (False, True):
        for rec in (False, True):
            for d in (1, "d"):
                for dt in ("float64", "float32"):
                    def build(ck, I, cov=cov, rec=rec, d=d, dt=dt):
                        c = ck.public(I, "estimators", "MeanEstimator")
                        m = P(1) if d == 1 else sz("d")
                        x, y = U(I, "X", sz("n1"), m, dt=dt), U(I, "Y", sz("n2"), m, dt=dt)

                        def call():
                            o = I.call(c, [], {"dim": N(m), "covariance": cov, "record": rec})
                            method(I, o, "update", x)
                            method(I, o, "update", y)
                            return I.getattr(o, "estimate")
                        return call, ()
                    yield "primate.estimators.MeanEstimator", f"two batches, covariance={cov}, record={rec}, dimension {d}, {dt}", build
    for alpha in (False, True):
        for rec in (False, True):
            def build(ck, I, alpha=alpha, rec=rec):
                c = ck.public(I, "estimators", "ControlVariableEstimator")
                k = sz("c")
                ecv, al = U(I, "ecv", k), U(I, "alpha", k)
                x, y = U(I, "X", sz("n1", 3), k + 1), U(I, "Y", sz("n2"), k + 1)

                def call():
                    o = I.call(c, [ecv], {"record": rec, **({"alpha": al} if alpha else {})})
                    method(I, o, "update", x)
                    method(I, o, "update", y)
                    return I.getattr(o, "estimate")
                return call, ()
            yield "primate.estimators.ControlVariableEstimator", f"two batches, alpha {'given' if alpha else 'estimated'}, record={rec}", build
    # random
    for fn in ("symmetric", "haar"):
        for pd in ((False, True) if fn == "symmetric" else (None,)):
            def args(I, pd=pd):
                n = sz()
                return [N(n)], {"ew": U(I, "ew", n), "seed": Rng(("user",)), **({} if pd is None else {"pd": pd})}
            yield f"primate.random.{fn}", f"given spectrum{'' if pd is None else f', pd={pd}'}", fn_case("random", fn, args)
    # operators
    for row in (False, True):
        for dt in ("float64", "float32"):
            def build(ck, I, row=row, dt=dt):
                T = ck.public(I, "operators", "Toeplitz")
                n = sz()
                c, r = U(I, "c", n), U(I, "r", n)
                xs = [U(I, "x", n, dt=dt), U(I, "x", n, 1, dt=dt)]

                def call():
                    op = I.call(T, [c] + ([r] if row else []), {"dtype": DtV(dt)})
                    for x in xs:
                        I.call(I.getattr(op, "matvec"), [x], {})
                        I.call(I.getattr(op, "matvec"), [x], {})
                return call, ()
            yield "primate.operators.Toeplitz", f"{'column and row' if row else 'column'}, {dt}", build
    for kind in ("array", "operator"):
        for dt in ("float64", "float32"):
            for how in ("matvec", "column", "quad", "quad-matrix", "function", "quad-fortran", "twice"):
                def build(ck, I, kind=kind, dt=dt, how=how):
                    n, d = sz(), isym("deg", 2)
                    A = operator(I, kind, n, dtype=dt)
                    g = PrimV("f", lambda I, x: npm.ew(I, lambda t: poly.fun("~f", t), x))
                    M = ck.public(I, "operators", "MatrixFunction")
                    mf = ck.public(I, "operators", "matrix_function")
                    x = U(I, "x", *((n, 1) if how in ("column", "quad-fortran") else (n, 2) if how == "quad-matrix" else (n,)), dt=dt, order="F" if how == "quad-fortran" else "C")

                    def call():
                        if how == "function":
                            return I.call(mf, [A], {"fun": g, "v": x, "deg": N(d)})
                        o = I.call(M, [A], {"fun": g, "deg": N(d), "dtype": DtV(dt)})
                        for _ in range(2 if how == "twice" else 1):
                            r = I.call(I.getattr(o, "quad" if how.startswith("quad") else "matvec"), [x], {})
                        return r
                    return call, (), [ge(n - d)]
                yield "primate.operators.MatrixFunction", f"{how}, {kind} operator, {dt}", build
    # linear algebra
    for n0 in (0, 1, None):
        for form in ("flat", "column"):
            def args(I, n0=n0, form=form):
                n = isym("n", 1) if n0 is None else P(n0)
                return [U(I, "X", n, n), U(I, "b", *((n + 1,) if form == "flat" else (n + 1, 1)))], {}
            yield "primate.linalg.update_trinv", f"size {n0 if n0 is not None else 'n'}, {form}", fn_case("linalg", "update_trinv", args)
    # tridiagonal solvers and quadrature
    for fn in ("eigh_tridiag", "eigvalsh_tridiag"):
        for meth in ("auto", "mrrr", "tqli"):
            for lead in (True, False):
                for dt in ("float64", "float32"):
                    yield f"primate.tridiag.{fn}", f"method={meth}, {'leading zero' if lead else 'no leading zero'}, {dt}", fn_case("tridiag", fn, lambda I, lead=lead, dt=dt: (offdiag(I, sz(), lead, dt), {}), {"method": meth})
    for quad in ("gw", "fttr"):
        for meth in ("auto", "mrrr", "tqli"):
            for lead in (True, False):
                for deg in (None, 2):
                    for outs in (False, True):
                        def args(I, lead=lead, deg=deg, outs=outs, quad=quad):
                            n = P(3) if quad == "fttr" else isym("n", 3)
                            d, e = offdiag(I, n, lead)
                            out = {x: U(I, x, n if deg is None else deg) for x in ("nodes", "weights")} if outs else {}
                            return [d, e], {**out, **({} if deg is None else {"deg": N(P(deg))})}, tuple(out.values())
                        yield "primate.integrate.quadrature", f"quad={quad}, method={meth}, {'leading zero' if lead else 'no leading zero'}, degree {deg}, {'given outputs' if outs else 'new outputs'}", fn_case("integrate", "quadrature", args, {"quad": quad, "method": meth})
    for n in (1, 2, 3):
        def args(I, n=n):
            w = U(I, "weights", n)
            return [U(I, "theta", n), U(I, "alpha", n), U(I, "beta", n), N(P(n)), w], {}, (w,)
        yield "primate.fttr.fttr", f"{n} nodes", fn_case("fttr", "fttr", args)

        def args(I, n=n):
            z = U(I, "z", n)
            return [F(fsym("x")), F(fsym("mu", 0)), U(I, "a", n), U(I, "b", n), z, N(P(n))], {}, (z,)
        yield "primate.fttr.ortho_poly", f"degree {n}", fn_case("fttr", "ortho_poly", args)
    # Lanczos
    for kind in ("array", "operator"):
        for dt in ("float64", "float32"):
            for out in ({}, {"return_basis": True}, {"sparse_mat": True}, {"return_basis": True, "sparse_mat": True}):
                def args(I, kind=kind, dt=dt, out=out):
                    n = sz()
                    return [operator(I, kind, n, dtype=dt)], {"v0": U(I, "v0", n, dt=dt), "deg": N(isym("deg", 1)), **out}
                yield "primate.lanczos.lanczos", f"{kind} operator, {dt}, {sorted(out)}", fn_case("lanczos", "lanczos", args)
            for vec in (False, True):
                for meth in ("rrr", "tqli"):
                    def args(I, kind=kind, dt=dt, vec=vec, meth=meth):
                        n = sz()
                        return [operator(I, kind, n, dtype=dt)], {"v0": U(I, "v0", n, dt=dt), "deg": N(isym("deg", 1)), "return_eigenvectors": vec, "method": meth}
                    yield "primate.lanczos.rayleigh_ritz", f"{kind} operator, {dt}, vectors={vec}, {meth}", fn_case("lanczos", "rayleigh_ritz", args)
    # estimators of traces and diagonals
    for dt in ("float64", "float32"):
        for full in (False, True):
            for kind in ("array", "operator", "quad"):
                def args(I, dt=dt, full=full, kind=kind):
                    return [operator(I, kind, sz("n", 6), dtype=dt)], {"seed": N(isym("seed", 0)), "full": full, "converge": criterion(I)[0]}
                yield "primate.trace.hutch", f"{kind} operator, {dt}, full={full}", fn_case("trace", "hutch", args)
                yield "primate.diagonal.diag", f"{kind} operator, {dt}, full={full}", fn_case("diagonal", "diag", args)
                for mode in ("reduced", "full"):
                    def args(I, dt=dt, full=full, mode=mode, kind=kind):
                        return [operator(I, kind, sz("n", 6), dtype=dt)], {"seed": N(isym("seed", 0)), "full": full, "mode": mode}
                    yield "primate.trace.hutchpp", f"{kind} operator, {dt}, mode={mode}, full={full}", fn_case("trace", "hutchpp", args)

        def args(I, dt=dt):
            return [operator(I, "array", sz("n", 6), dtype=dt)], {"seed": N(isym("seed", 0))}
        yield "primate.diagonal.xdiag", dt, fn_case("diagonal", "xdiag", args)
    # spectral functions
    for name, kw in FUNCTIONS:
        for shape in ("vector", "matrix"):
            for dt in ("float64", "float32"):
                def build(ck, I, name=name, shape=shape, dt=dt, kw=kw):
                    kw = {k: F(fsym(k)) if v is None else N(P(v)) for k, v in kw.items()}
                    f = ck.public(I, "special", "param_callable")
                    x = U(I, "x", *((sz(),) if shape == "vector" else (sz(), sz("m"))), dt=dt)
                    return (lambda: I.call(I.call(f, [name], kw), [x], {})), ()
                yield "primate.special.param_callable", f"{name}({', '.join(kw)}) of a {dt} {shape}", build
    for fn, kw in FUNCTIONS + (("step", {}), ("step", {"c": None})):
        if fn in ("sqrt", "log", "inv", "abs", "numrank"):
            continue
        for dt in ("float64", "float32"):
            yield f"primate.special.{fn}", f"called with a {dt} array, options {sorted(kw)}", fn_case("special", fn, lambda I, dt=dt, kw=kw: ([U(I, "x", sz(), dt=dt)], {k: F(fsym(k)) if v is None else N(P(v)) for k, v in kw.items()}))


@prop("C21", "Every public function and constructor taking arrays is run on caller-owned symbolic arrays (plain matrices as operators, vectors, batches, "
      "spectra, coefficients, start vectors; both precisions and memory orders; every option that changes the path); after the run the abstract contents of "
      "every caller-owned array that is not a documented output must be what they were, through all views and aliases, and no attribute of a caller's object is set. "
      "Methods of the objects are called afterwards as well, so a write through an array kept from the constructor counts. "
      "The native routine uses its start vector as scratch space, so handing it the caller's own vector counts as well.")
def c21(ck):
    seen = set()
    for where, tag, build in cases():
        if (where, tag) in seen:
            continue
        seen.add((where, tag))
        fn = where.rsplit(".", 1)[-1]
        ck.attempt("unchanged", where, lambda: perform(ck, where, tag, build))
    where = "primate.trace.xtrace"
    for dt in ("float64", "float32"):
        for pdf in ("sphere", "rademacher"):
            def build(ck, I):
                f = ck.public(I, "trace", "xtrace")
                A = operator(I, "array", isym("n", 6), dtype=dt)
                return (lambda: I.call(f, [A], {"seed": N(isym("seed", 0)), "pdf": pdf, "batch": N(P(2))})), ()
            ck.attempt("unchanged", where, lambda: perform(ck, where, f"{dt}, pdf={pdf}", build, let_at=3, unroll=1))
