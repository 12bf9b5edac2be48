"""Tridiagonal eigen-solvers and quadrature rules (C23, C24)."""
from .. import npm, npfun, poly, witness
from ..chk import prop
from ..lib import *
from ..values import *


def tqli_hook(log):
    """The QL kernel as an unknown function of exactly the data it is handed; it overwrites the diagonal, the off-diagonal and the basis."""
    def h(I, f, args, kw):
        env = I.bind_args(f, args, kw)
        names = [p for p in ("d", "e", "Z") if p in env]
        ps = list(env)
        d, e, Z = (env[k] for k in (names if len(names) == 3 else ps[:3]))
        it = env[ps[3]] if len(ps) > 3 else None
        d, e, Z = (merge(I, x) for x in (d, e, Z))
        if not all(isinstance(x, ARef) for x in (d, e, Z)):
            raise Undecided("kernel arguments")
        log.append(I.event("tqli", d=freeze(I, d), e=freeze(I, e), Z=freeze(I, Z), it=it))
        w, V = tqli_of(I, d, e, Z, it)
        npm.store(I, d, w)
        npm.store(I, e, npm.build(I, e.dims, lambda iv: ZERO))
        if V is not None:
            npm.store(I, Z, V)
        return None
    return h


def tqli_of(I, d, e, Z, it):
    kd, ke, ki = npm.akey(I, d), npm.akey(I, e), npm.akey(I, it)
    n = d.dims[0]
    _n, w = npm.afun(I, "qlw", (kd, ke, ki), (n,))
    V = None
    if not any(x.is_const() and not x.cval() for x in Z.dims):
        _n, v = npm.afun(I, "qlv", (kd, ke, npm.akey(I, Z), ki), Z.dims)
        V = npm.build(I, Z.dims, v)
    return npm.build(I, (n,), w), V


def failing(I, d, e):
    return poly.opaque_bool("raises", "LinAlgError", "tri", npm.akey(I, d), npm.akey(I, e))


def spectrum(I, d, e, vectors):
    mark = len(I.events)
    r = npm.MODELS["scipy.linalg.eigh_tridiagonal" if vectors else "scipy.linalg.eigvalsh_tridiagonal"](I, d, e)
    del I.events[mark:]
    return r


def pair(I, n, lead, dt="float64"):
    """Symbolic diagonal and off-diagonal (with or without its leading zero); returns them with their entries a(i), b(i), i >= 1."""
    d, a = arr(I, "d", (n,), dt)
    _e, b = arr(I, "e", (n,))
    if lead:
        e = given(I, (n,), lambda i: phi(eq(i), ZERO, b(i)), dt)
    else:
        e = given(I, (n - 1,), lambda i: b(i + 1), dt)
    return d, e, a, b


def lead0(I, n, b):
    return npm.build(I, (n,), lambda iv: phi(eq(iv[0]), ZERO, b(iv[0])))


# -------------------------------------------------------------------------------------------------------------------- C24
@prop("C24", "Both tridiagonal eigen-solvers are analysed for every method, for off-diagonals with and without leading zero, symbolic length and "
      "iteration limit, with the LAPACK drivers and the QL kernel as unknown functions of the data they are handed: the returned spectrum must be the "
      "requested method's function of the given matrix, the QL kernel's only when the driver fails under the automatic method, with the "
      "identity as initial basis and the caller's iteration limit; arguments keep their contents, invalid lengths and methods are rejected.")
def c24(ck):
    for fn in ("eigh_tridiag", "eigvalsh_tridiag"):
        where = f"primate.tridiag.{fn}"
        for method in ("auto", "mrrr", "tqli", None):
            for lead in (True, False):
                for n in (None, 1, 2, 3):
                    for it in (False, True):
                        ck.attempt("spectrum", where, lambda: c24_case(ck, where, fn, method, lead, n, it))
        for bad in ("rrr", "AUTO", "", "ql", "stemr", "gw"):
            def go():
                I = ck.interp()
                I.hooks["tqli.tqli"] = tqli_hook([])
                f = ck.public(I, "tridiag", fn)
                n = isym("n", 1)
                d, e, _a, _b = pair(I, n, True)
                r, ex = I.run(lambda: I.call(f, [d, e], {"method": bad}))
                rejected(ck, "invalid-method", where, ex, detail=f"method {bad!r}")
            ck.attempt("invalid-method", where, go)
        for method in ("auto", "mrrr", "tqli"):
            for long in (True, False):
                def go():
                    I = ck.interp()
                    I.hooks["tqli.tqli"] = tqli_hook([])
                    f = ck.public(I, "tridiag", fn)
                    j = isym("j", 0)
                    if long:
                        n = isym("n", 1)
                        m = n + 1 + j
                    else:
                        m = isym("m", 0)
                        n = m + 2 + j
                    d, _ = arr(I, "d", (n,))
                    e, _ = arr(I, "e", (m,))
                    r, ex = I.run(lambda: I.call(f, [d, e], {"method": method}))
                    rejected(ck, "invalid-length", where, ex, detail=f"method {method}: off-diagonal {'longer than the diagonal' if long else 'shorter by two or more'}")
                ck.attempt("invalid-length", where, go)


def c24_case(ck, where, fn, method, lead, n, it):
    tag = f"method {method or 'default'}, {'leading zero' if lead else 'no leading zero'}, " + (f"n = {n}" if n else "any n") + (", own limit" if it else "")
    vectors = fn == "eigh_tridiag"
    I = ck.interp()
    log = []
    I.hooks["tqli.tqli"] = tqli_hook(log)
    f = ck.public(I, "tridiag", fn)
    n = P(n) if n else isym("n", 1)
    d, e, a, b = pair(I, n, lead)
    d0, e0 = freeze(I, d), freeze(I, e)
    kw = {} if method is None else {"method": method}
    limit = N(isym("limit", 1)) if it else N(P(30))
    if it:
        kw["maxiter"] = limit
    r, ex = I.run(lambda: I.call(f, [d, e], kw))
    ck.no_raise("accepted", where, ex, tag)
    if r is MISSING:
        return ck.undecided("spectrum", where, f"{tag}: no result")
    r = merge(I, r)
    m = method or "auto"
    es = npm.build(I, (n - 1,), lambda iv: b(iv[0] + 1))
    fail = failing(I, d0, es) if m == "auto" else ONE if m == "tqli" else ZERO
    prim = spectrum(I, d0, es, vectors)
    eye = npm.build(I, (n, n), lambda iv: eq(iv[0] - iv[1])) if vectors else npm.build(I, (ZERO, ZERO), lambda iv: ZERO)
    qw, qv = tqli_of(I, d0, lead0(I, n, b), eye, limit)
    want = (lambda x, y: npm.build(I, y.dims, lambda iv: phi(fail, npm.elem(I, x, iv), npm.elem(I, y, iv))))
    ws = want(qw, prim[0] if vectors else prim)
    parts = r if isinstance(r, tuple) else (r,)
    ok = len(parts) == (2 if vectors else 1) and all(isinstance(x, ARef) for x in parts)
    if any(isinstance(x, (Unk, PhiV)) for x in parts):
        return ck.undecided("spectrum", where, f"{tag}: result {r!r}")
    if not ck.require("result-form", where, ok, f"{tag}: {'eigenvalues and eigenvectors' if vectors else 'eigenvalues'} expected, not {r!r}"):
        return
    ck.same("spectrum", where, I, parts[0], ws, detail=f"{tag}: eigenvalues")
    if vectors:
        ck.same("spectrum", where, I, parts[1], want(qv, prim[1]), detail=f"{tag}: eigenvectors")
    for x in log:
        ck.never("fallback", where, x.guard * (ONE - fail), detail=f"{tag}: QL kernel runs although the driver has not failed")
    ck.same("argument-unchanged", where, I, d, d0, detail=f"{tag}: diagonal")
    ck.same("argument-unchanged", where, I, e, e0, detail=f"{tag}: off-diagonal")
    for x in parts:
        ck.require("fresh-result", where, x.buf not in (d.buf, e.buf), f"{tag}: the result shares memory with an argument")


# -------------------------------------------------------------------------------------------------------------------- C23
@prop("C23", "The quadrature rule is analysed with symbolic length and degree (default, below and above the length), off-diagonal with and without leading "
      "zero, for every method name and with output arrays: nodes and squared first components are compared with those of the leading block "
      "the eigen-solver is handed; the three-term recurrence weights are compared with the reciprocal sums of squared orthonormal polynomials "
      "for blocks of up to 4 (thorough: 5) rows; outputs must hold exactly what is returned, unknown methods and outputs of other lengths are rejected.")
def c23(ck):
    where = "primate.integrate.quadrature"
    for quad in ("gw", "golub_welsch", None):
        for lead in (True, False):
            for deg in ("default", "below", "equal", "above", 1):
                for outs in ("", "both"):
                    ck.attempt("rule", where, lambda: c23_case(ck, where, quad, lead, deg, None, outs))
    top = 4 if ck.tier == "quick" else 5
    for n in range(1, top + 1):
        for lead in (True, False):
            for deg in [None] + list(range(1, n + 2)):
                ck.attempt("rule", where, lambda: c23_case(ck, where, "fttr", lead, deg, n, "both" if n > 1 and deg == n else ""))
    for deg in ("default", "below", "above"):
        ck.attempt("rule", where, lambda: c23_nodes(ck, where, deg))
    for only in ("nodes", "weights"):
        for quad in ("gw", "fttr"):
            ck.attempt("outputs", where, lambda: c23_case(ck, where, quad, True, None, 3, only))
    for lead in (True, False):
        for deg in ("default", "below", "above"):
            for opts in ("none", "tqli", "auto"):
                ck.attempt("solver-options", where, lambda: c23_solver(ck, where, lead, deg, opts))
    ck.attempt("weights-defined", where, lambda: c23_zero(ck, where))
    for bad in ("GW", "golub-welsch", "", "fttrx", "gauss", "rrr"):
        def go():
            I = ck.interp()
            f = ck.public(I, "integrate", "quadrature")
            d, e, _a, _b = pair(I, isym("n", 1), True)
            r, ex = I.run(lambda: I.call(f, [d, e], {"quad": bad}))
            rejected(ck, "unknown-method", where, ex, detail=f"quad={bad!r}")
        ck.attempt("unknown-method", where, go)
    for how in ("longer", "shorter", "leading"):
        for quad in ("gw", "fttr"):
            def go():
                I = ck.interp()
                f = ck.public(I, "integrate", "quadrature")
                n, j = isym("n", 1), isym("j", 0)
                if how == "longer":
                    sizes = (n, n + 1 + j)
                elif how == "shorter":
                    sizes = (n + 1 + j, n - 1)
                else:
                    sizes = (n, n)
                d, _ = arr(I, "d", (sizes[0],))
                e, _ = arr(I, "e", (sizes[1],))
                e0 = e
                e = given(I, (sizes[1],), lambda i: phi(eq(i), P(2) if how == "leading" else ZERO, npm.elem(I, e0, [i])))
                r, ex = I.run(lambda: I.call(f, [d, e], {"quad": quad, "method": "mrrr"}))
                rejected(ck, "invalid-off-diagonal", where, ex, detail=f"{quad}: " + {"longer": "off-diagonal longer than the diagonal", "shorter": "off-diagonal shorter by two or more", "leading": "leading entry not zero"}[how])
            ck.attempt("invalid-off-diagonal", where, go)
    for which in ("nodes", "weights"):
        def go():
            I = ck.interp()
            f = ck.public(I, "integrate", "quadrature")
            n, m = isym("n", 1), isym("m", 0)
            d, e, _a, _b = pair(I, n, True)
            o = {k: arr(I, k, (m if k == which else n,))[0] for k in ("nodes", "weights")}
            o["method"] = "mrrr"
            bad = ONE - eq(n - m)

            def run():
                I.assume_true(bad)
                return I.call(f, [d, e], o)
            r, ex = I.run(run)
            g = sum((x.guard for x in raising(ex)), ZERO)
            ck.zero("output-length", where, bad * (ONE - g), truths=[bad], detail=f"{which} output of another length")
        ck.attempt("output-length", where, go)


def sizes(deg, n):
    """(length, requested degree or None, expected number of nodes, facts)"""
    if n is not None:
        return P(n), None if deg is None else P(deg), P(n) if deg is None else P(min(n, deg)), []
    n = isym("n", 1)
    if deg == "default":
        return n, None, n, []
    if deg == "equal":
        return n, n, n, []
    if deg == 1:
        return n, ONE, ONE, []
    k = isym("k", 1)
    if deg == "below":
        return n, k, k, [gt(n - k)]
    return n, k, n, [gt(k - n)]


def c23_nodes(ck, where, deg):
    """Nodes of the recurrence method for any size (its weights: bounded sizes)."""
    I = ck.interp()
    f = ck.public(I, "integrate", "quadrature")
    calls = []

    def h(I, f, args, kw):
        env = I.bind_args(f, args, kw)
        calls.append(env)
        npm.store(I, env["weights"], npm.build(I, env["weights"].dims, lambda iv: ONE))
        return None
    I.hooks["fttr.fttr"] = h
    n, k, kk, truths = sizes(deg, None)
    d, e, a, b = pair(I, n, True)

    def run():
        for t in truths:
            I.assume_true(t)
        return I.call(f, [d, e], dict({"quad": "fttr", "method": "mrrr"}, **({} if k is None else {"deg": N(k)})))
    r, ex = I.run(run)
    tag = f"fttr, degree {deg}, any n"
    ck.no_raise("accepted", where, ex, tag, truths=truths)
    if not (isinstance(r, tuple) and len(r) == 2):
        return ck.undecided("rule", where, f"{tag}: result {r!r}")
    ck.same("rule", where, I, merge(I, r[0]), want_nodes(I, kk, a, b)[0], detail=f"{tag}: nodes", truths=truths)


def c23_solver(ck, where, lead, deg, opts):
    """The options of the eigen-solver are the caller's."""
    I = ck.interp()
    I.hooks["tqli.tqli"] = tqli_hook([])
    f = ck.public(I, "integrate", "quadrature")
    n, k, kk, truths = sizes(deg, None)
    d, e, a, b = pair(I, n, lead)
    limit = N(isym("limit", 1)) if opts != "none" else N(P(30))
    kw = {} if opts == "none" else {"method": opts, "maxiter": limit}

    def run():
        for t in truths:
            I.assume_true(t)
        return I.call(f, [d, e], dict(kw, **({} if k is None else {"deg": N(k)})))
    r, ex = I.run(run)
    tag = f"solver options {opts}, degree {deg}"
    ck.no_raise("accepted", where, ex, tag, truths=truths)
    r = merge(I, r)
    if not (isinstance(r, tuple) and len(r) == 2):
        return ck.undecided("solver-options", where, f"{tag}: result {r!r}")
    dk = npm.build(I, (kk,), lambda iv: a(iv[0]))
    ek = npm.build(I, (kk - 1,), lambda iv: b(iv[0] + 1))
    W, V = spectrum(I, dk, ek, True)
    qw, qv = tqli_of(I, dk, lead0(I, kk, b), npm.build(I, (kk, kk), lambda iv: eq(iv[0] - iv[1])), limit)
    fail = ONE if opts == "tqli" else failing(I, dk, ek)
    ck.same("solver-options", where, I, r[0], npm.build(I, (kk,), lambda iv: phi(fail, npm.elem(I, qw, iv), npm.elem(I, W, iv))), detail=f"{tag}: nodes", truths=truths)
    ck.same("solver-options", where, I, r[1], npm.build(I, (kk,), lambda iv: power(phi(fail, npm.elem(I, qv, [ZERO, iv[0]]), npm.elem(I, V, [ZERO, iv[0]])), 2)),
            detail=f"{tag}: weights", truths=truths)


def c23_zero(ck, where):
    """The degree-one rule of the zero matrix: node 0 with weight 1."""
    I = ck.interp()
    f = ck.public(I, "integrate", "quadrature")
    zero = given(I, (ONE,), lambda i: ZERO)
    save = {m: npm.MODELS[m] for m in ("scipy.linalg.eigh_tridiagonal", "scipy.linalg.eigvalsh_tridiagonal")}
    try:
        npm.MODELS["scipy.linalg.eigvalsh_tridiagonal"] = lambda I, d, e, **kw: npm.build(I, (ONE,), lambda iv: npm.elem(I, d, iv))
        npm.MODELS["scipy.linalg.eigh_tridiagonal"] = lambda I, d, e, **kw: (npm.build(I, (ONE,), lambda iv: npm.elem(I, d, iv)), npm.build(I, (ONE, ONE), lambda iv: ONE))
        for quad in ("gw", "fttr"):
            r, ex = I.run(lambda: I.call(f, [zero, zero], {"quad": quad, "method": "mrrr"}))
            ck.no_raise("accepted", where, ex, quad)
            ck.same("weights-defined", where, I, merge(I, r), (given(I, (ONE,), lambda i: ZERO), given(I, (ONE,), lambda i: ONE)), detail=f"{quad} rule of the 1-by-1 zero matrix")
    finally:
        npm.MODELS.update(save)


def want_nodes(I, kk, a, b):
    dk = npm.build(I, (kk,), lambda iv: a(iv[0]))
    ek = npm.build(I, (kk - 1,), lambda iv: b(iv[0] + 1))
    return spectrum(I, dk, ek, True)


def c23_case(ck, where, quad, lead, deg, n0, outs):
    tag = f"quad={quad}, {'leading zero' if lead else 'no leading zero'}, degree {deg}, " + (f"n = {n0}" if n0 else "any n") + (f", {outs} output" if outs else "")
    I = ck.interp()
    f = ck.public(I, "integrate", "quadrature")
    n, k, kk, truths = sizes(deg, n0)
    d, e, a, b = pair(I, n, lead)
    d0, e0 = freeze(I, d), freeze(I, e)
    kw = {"method": "mrrr"}
    if quad is not None:
        kw["quad"] = quad
    if k is not None:
        kw["deg"] = N(k)
    out = {x: arr(I, x, (kk,))[0] for x in ("nodes", "weights") if outs in (x, "both")}
    kw.update(out)

    def run():
        for t in truths:
            I.assume_true(t)
        return I.call(f, [d, e], kw)
    r, ex = I.run(run)
    ck.no_raise("accepted", where, ex, tag, truths=truths)
    if r is MISSING:
        return ck.undecided("rule", where, f"{tag}: no result")
    r = merge(I, r)
    if not ck.require("result-form", where, isinstance(r, tuple) and len(r) == 2, f"{tag}: nodes and weights expected, not {r!r}"):
        return
    W, V = want_nodes(I, kk, a, b)
    if quad == "fttr":
        def weight(i):
            x = npm.elem(I, W, [i])
            p, q, s = ZERO, ONE, ZERO
            for j in range(int(kk.cval())):
                if j:
                    nxt = (x - a(P(j - 1))) * q - (b(P(j - 1)) * p if j > 1 else ZERO)
                    p, q = q, nxt * power(b(P(j)), -1)
                s = s + q * q
            return power(s, -1)
        tau = npm.build(I, (kk,), lambda iv: sum((eq(iv[0] - i) * weight(P(i)) for i in range(int(kk.cval()))), ZERO))
    else:
        tau = npm.build(I, (kk,), lambda iv: power(npm.elem(I, V, [ZERO, iv[0]]), 2))
    ck.same("rule", where, I, r[0], W, detail=f"{tag}: nodes", truths=truths)
    if quad == "fttr":
        for i in range(int(kk.cval())):
            if isinstance(r[1], ARef) and r[1].dims == (kk,):
                ck.zero("rule", where, npm.elem(I, r[1], [P(i)]) - weight(P(i)), detail=f"{tag}: weight {i}", truths=truths)
            else:
                ck.same("rule", where, I, r[1], tau, detail=f"{tag}: weights", truths=truths)
    else:
        ck.same("rule", where, I, r[1], tau, detail=f"{tag}: weights", truths=truths)
    for x, o in out.items():
        ck.same("outputs", where, I, o, r[0] if x == "nodes" else r[1], detail=f"{tag}: {x}", truths=truths)
    ck.same("argument-unchanged", where, I, d, d0, detail=f"{tag}: diagonal", truths=truths)
    ck.same("argument-unchanged", where, I, e, e0, detail=f"{tag}: off-diagonal", truths=truths)
