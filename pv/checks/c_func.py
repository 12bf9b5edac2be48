"""Spectral functions, structured operators and small factorisation updates (C26, C27, C28)."""
from .. import npm, poly, witness
from ..chk import prop
from ..lib import *
from ..values import *


def pclip(x, lo, hi):
    return pmin(pmax(x, lo), hi)


def step_up(x, a, b):
    y = pclip((x - a) * power(b - a, -1), ZERO, ONE)
    return 3 * y * y - 2 * y * y * y


def softsign_of(x, q):
    x = pclip(x, P(-1), ONE)
    out, c, w = ZERO, ONE, ONE
    for j in range(q + 1):
        if j:
            c = c * P(Fr(2 * j - 1, 2 * j))
            w = w * (1 - x * x)
        out = out + c * w * x
    return out


def num(name, lo=None):
    return F(sym(fresh_name(name), lo=lo))


# -------------------------------------------------------------------------------------------------------------------- C26
@prop("C26", "Every built-in spectral function is obtained by name, with default and with symbolic options, applied to an array of symbolic length with "
      "unknown entries, and its entries are compared with the documented function of the entry; the direct and the curried calls of each function "
      "are compared with each other; callables must come back unchanged and other names must raise.")
def c26(ck):
    where = "primate.special.param_callable"
    t, a, b, c = sym("t~p"), sym("a~p"), sym("b~p"), sym("c~p", lo=0)
    I0 = None

    def eps(I):
        return P_of(user(I, "import numpy as np\nr = np.finfo(np.float64).eps")["r"])
    ab = [gt(b - a)]
    cases = [
        ("identity", {}, lambda I, x: x, ()), (None, {}, lambda I, x: x, ()), ("abs", {}, lambda I, x: fun("abs", x), ()),
        ("sqrt", {}, lambda I, x: power(x, Fr(1, 2)), ()), ("log", {}, lambda I, x: fun("log", pmax(x, eps(I))), ()),
        ("inv", {}, lambda I, x: power(x, -1), ()), ("exp", {}, lambda I, x: fun("exp", x), ()),
        ("exp", {"t": F(t)}, lambda I, x: fun("exp", t * x), ()), ("exp", {"t": F(ZERO)}, lambda I, x: ONE, ()),
        ("smoothstep", {}, lambda I, x: step_up(x, ZERO, ONE), ()),
        ("smoothstep", {"a": F(a), "b": F(b)}, lambda I, x: step_up(x, a, b), ab),
        ("smoothstep", {"a": F(a)}, lambda I, x: step_up(x, a, ONE), [gt(1 - a)]),
        ("smoothstep", {"b": F(b)}, lambda I, x: step_up(x, ZERO, b), [gt(b)]),
        ("smoothstep", {"a": F(P(-1)), "b": F(ZERO)}, lambda I, x: step_up(x, P(-1), ZERO), ()),
        ("softsign", {}, lambda I, x: softsign_of(x, 10), ()),
        ("numrank", {}, lambda I, x: ge(fun("abs", x) - Fr(1, 10 ** 6)), ()),
        ("numrank", {"threshold": F(c)}, lambda I, x: ge(fun("abs", x) - c), ()),
        ("numrank", {"threshold": F(ZERO)}, lambda I, x: ONE, ()),
    ] + [("softsign", {"q": N(P(q))}, lambda I, x, q=q: softsign_of(x, q), ()) for q in (0, 1, 2, 3, 5, 7)]
    for name, kw, spec, tr in cases:
        for shape in ("array", "empty", "one"):
            tag = f"{name}({', '.join(kw)}) of {shape}"
            ck.attempt("named-function", where, lambda: c26_named(ck, where, name, kw, spec, tr, shape, tag))
    for bad in ("Identity", "cos", "", "exp ", "heat", "sign", "step", "smooth_step"):
        def go():
            I = ck.interp()
            f = ck.public(I, "special", "param_callable")
            r, ex = I.run(lambda: I.call(f, [bad], {}))
            rejected(ck, "unknown-name", where, ex, detail=repr(bad))
        ck.attempt("unknown-name", where, go)

    def through():
        I = ck.interp()
        f = ck.public(I, "special", "param_callable")
        g = PrimV("g", lambda I, x: x)
        for kw in ({}, {"t": F(t)}):
            r, ex = I.run(lambda: I.call(f, [g], dict(kw)))
            ck.no_raise("callable-passes", where, ex, "callable")
            ck.require("callable-passes", where, r is g, f"callable comes back as {r!r}")
    ck.attempt("callable-passes", where, through)
    # direct calls against curried ones and against the definition
    direct = [("exp", [("t", t, 1)], lambda I, x, t: fun("exp", t * x), ()), ("smoothstep", [("a", a, 0), ("b", b, 1)], lambda I, x, a, b: step_up(x, a, b), ab),
              ("step", [("c", c, 0)], lambda I, x, c: ge(x - c), ())]
    for fn, ps, spec, tr in direct:
        for given_ in range(1 << len(ps)):
            vals = [v if given_ >> k & 1 else P(d) for k, (_n, v, d) in enumerate(ps)]
            kw = {n: F(v) for k, (n, v, _d) in enumerate(ps) if given_ >> k & 1}
            trs = [x for x in ([gt(vals[1] - vals[0])] if fn == "smoothstep" else []) if not x.is_const()]
            ck.attempt("direct-call", f"primate.special.{fn}", lambda: c26_direct(ck, fn, kw, lambda I, x: spec(I, x, *vals), trs))
    ck.attempt("direct-call", "primate.special.step", lambda: c26_direct(ck, "step", {"c": F(c), "nonnegative": True}, lambda I, x: ge(fun("abs", x) - c), ()))
    for q in (0, 1, 2, 3, 6):
        ck.attempt("direct-call", "primate.special.softsign", lambda: c26_direct(ck, "softsign", {"q": N(P(q))}, lambda I, x: softsign_of(x, q), ()))
    ck.attempt("direct-call", "primate.special.softsign", lambda: c26_direct(ck, "softsign", {}, lambda I, x: softsign_of(x, 1), ()))


def data(I, shape):
    n = isym("n", 1) if shape == "array" else P(0 if shape == "empty" else 1)
    x, e = arr(I, "x", (n,))
    return n, x, e


def c26_named(ck, where, name, kw, spec, tr, shape, tag):
    I = ck.interp()
    f = ck.public(I, "special", "param_callable")
    n, x, e = data(I, shape)

    def go():
        for t in tr:
            I.assume_true(t)
        return I.call(I.call(f, [name], dict(kw)), [x], {})
    r, ex = I.run(go)
    ck.no_raise("accepted", where, ex, tag, truths=tr)
    want = npm.build(I, (n,), lambda iv: spec(I, e(iv[0])))
    ck.same("named-function", where, I, merge(I, r) if r is not MISSING else Unk("no result"), want, detail=tag, truths=tr)
    ck.same("argument-unchanged", where, I, x, npm.build(I, (n,), lambda iv: e(iv[0])), detail=tag, truths=tr)


def c26_direct(ck, fn, kw, spec, tr):
    where = f"primate.special.{fn}"
    tag = f"{fn}({', '.join(kw)})"
    for shape in ("array", "empty", "one"):
        I = ck.interp()
        f = ck.public(I, "special", fn)
        n, x, e = data(I, shape)

        def go():
            for t in tr:
                I.assume_true(t)
            return (I.call(f, [x], dict(kw)), I.call(I.call(f, [], dict(kw)), [x], {}))
        r, ex = I.run(go)
        ck.no_raise("accepted", where, ex, tag, truths=tr)
        if r is MISSING:
            continue
        want = npm.build(I, (n,), lambda iv: spec(I, e(iv[0])))
        for v, how in zip(r, ("called with data", "curried")):
            ck.same("direct-call", where, I, merge(I, v), want, detail=f"{tag} {how} on {shape}", truths=tr)


# -------------------------------------------------------------------------------------------------------------------- C27
@prop("C27", "The Toeplitz operator is built from a symbolic first column (and row) of symbolic length; the entries of its product with an unknown "
      "vector, computed through the discrete convolution theorem, are compared with the Toeplitz matrix-vector product, for a first, a second and a "
      "third product on the same object; results must be new arrays, arguments and the column and row must stay as they are, other lengths raise.")
def c27(ck):
    where = "primate.operators.Toeplitz"
    for row in (False, True):
        for form in ("flat", "column", "list"):
            for dt in ("float64", "float32"):
                for n in (None, 1, 2):
                    tag = f"{'column and row' if row else 'column only'}, {form} vector, {dt}" + (f", length {n}" if n else "")
                    ck.attempt("toeplitz-product", where, lambda: c27_case(ck, where, row, form, dt, n, tag))
        ck.attempt("wrong-length", where, lambda: c27_bad(ck, where, row))


def c27_case(ck, where, row, form, dt, n, tag):
    I = ck.interp()
    T = ck.public(I, "operators", "Toeplitz")
    n = P(n) if n else isym("n", 1)
    c, ec = arr(I, "c", (n,))
    r, er = arr(I, "r", (n,))
    xs = []
    for k in range(3):
        x, e = arr(I, "x", (n, ONE) if form == "column" else (n,), dt)
        xs.append((x, (lambda j, e=e: e(j, ZERO)) if form == "column" else e))
    if form == "list" and not n.is_const():
        return

    def go():
        op = I.call(T, [c] + ([r] if row else []), {} if dt == "float64" else {"dtype": dt})
        out = []
        for x, e in xs:
            y = I.call(I.getattr(op, "matvec" if form != "flat" else "__matmul__"), [x], {})
            out.append((y, snapshot(I, y)))
        return out
    res, ex = I.run(go)
    ck.no_raise("accepted", where, ex, tag)
    if res is MISSING:
        return ck.undecided("toeplitz-product", where, f"{tag}: no result")
    first = er if row else ec

    def entry(i, j):
        return phi(ge(i - j), ec(i - j), first(j - i))
    bufs = {v.buf for v in (c, r) if isinstance(v, ARef)}
    for k, ((y, snap), (x, e)) in enumerate(zip(res, xs)):
        y = merge(I, y)
        if not isinstance(y, ARef):
            ck.undecided("toeplitz-product", where, f"{tag}: product {y!r}")
            continue
        want = lambda i: S(lambda j: entry(i, j) * e(j), n)
        shape = (n, ONE) if form == "column" else (n,)
        w = npm.build(I, shape, lambda iv: want(iv[0]))
        ck.same("toeplitz-product", where, I, snap, w, detail=f"{tag}: product {k + 1}")
        ck.require("fresh-result", where, y.buf not in bufs and y.buf != x.buf, f"{tag}: product {k + 1} shares memory with an argument or an earlier product")
        bufs |= {y.buf}
        ck.same("later-products", where, I, y, snap, detail=f"{tag}: product {k + 1} after the later ones")
        ck.same("argument-unchanged", where, I, x, npm.build(I, shape, lambda iv: e(iv[0])), detail=f"{tag}: vector {k + 1}")
    ck.same("argument-unchanged", where, I, c, npm.build(I, (n,), lambda iv: ec(iv[0])), detail=f"{tag}: column")
    ck.same("argument-unchanged", where, I, r, npm.build(I, (n,), lambda iv: er(iv[0])), detail=f"{tag}: row")


def snapshot(I, y):
    y = merge(I, y)
    if not isinstance(y, ARef):
        return y
    e = content(I, y)
    return npm.build(I, y.dims, lambda iv: e(*iv))


def c27_bad(ck, where, row):
    I = ck.interp()
    T = ck.public(I, "operators", "Toeplitz")
    n, m = isym("n", 1), isym("m", 1)
    c, _ = arr(I, "c", (n,))
    r, _ = arr(I, "r", (n,))
    x, _ = arr(I, "x", (m,))
    neq = ONE - eq(n - m)
    for how in ("_matvec", "matvec"):
        def go():
            I.assume_true(neq)
            return I.call(I.getattr(I.call(T, [c] + ([r] if row else []), {}), how), [x], {})
        _r, ex = I.run(go)
        g = sum((e.guard for e in ex if e.kind == "raise"), ZERO)
        ck.zero("wrong-length", where, neq * (ONE - g), truths=[neq], detail=f"{how} with a vector of another length")


# -------------------------------------------------------------------------------------------------------------------- C28
@prop("C28", "The triangular inverse update is analysed with a symbolic inverse of symbolic size (and the empty one) and a symbolic new column, flat or as "
      "a matrix: the returned entries are compared with the closed form of the inverse of the bordered matrix; arguments must keep their "
      "contents and mismatched sizes must raise.")
def c28(ck):
    where = "primate.linalg.update_trinv"
    for n in (None, 0, 1, 2, 3):
        for form in ("flat", "column", "row"):
            for dt in ("float64",):
                tag = f"{form} column, " + (f"size {n}" if n is not None else "symbolic size")
                ck.attempt("bordered-inverse", where, lambda: c28_case(ck, where, n, form, dt, tag))
    ck.attempt("size-mismatch", where, lambda: c28_bad(ck, where))


def c28_case(ck, where, n, form, dt, tag):
    I = ck.interp()
    f = ck.public(I, "linalg", "update_trinv")
    n = P(n) if n is not None else isym("n", 1)
    X, ex_ = arr(I, "Binv", (n, n), dt)
    tri = lambda i, j: phi(ge(j - i), ex_(i, j), ZERO)
    X = given(I, (n, n), tri, dt)
    m = n + 1
    b, eb = arr(I, "b", (m,) if form == "flat" else (m, ONE) if form == "column" else (ONE, m), dt)
    col = eb if form == "flat" else (lambda i: eb(i, ZERO)) if form == "column" else (lambda i: eb(ZERO, i))
    if form == "row":
        return
    r, ex = I.run(lambda: I.call(f, [X, b], {}))
    ck.no_raise("accepted", where, ex, tag)

    def want(iv):
        i, j = iv
        d = power(col(n), -1)
        side = -d * S(lambda k: tri(i, k) * col(k), n)
        return phi(ge(n - 1 - j), phi(ge(n - 1 - i), tri(i, j), ZERO), phi(ge(n - 1 - i), side, d))
    w = npm.build(I, (m, m), want)
    ck.same("bordered-inverse", where, I, merge(I, r) if r is not MISSING else Unk("no result"), w, detail=tag)
    ck.same("argument-unchanged", where, I, X, npm.build(I, (n, n), lambda iv: tri(*iv)), detail=f"{tag}: inverse")
    ck.same("argument-unchanged", where, I, b, npm.build(I, b.dims, lambda iv: eb(*iv)), detail=f"{tag}: column")


def c28_bad(ck, where):
    I = ck.interp()
    f = ck.public(I, "linalg", "update_trinv")
    n, m, k = isym("n", 0), isym("m", 0), isym("k", 0)
    X, _ = arr(I, "Binv", (n, m))
    b, _ = arr(I, "b", (k,))
    bad = ONE - eq(n - m) * eq(k - n - 1)

    def go():
        I.assume_true(bad)
        return I.call(f, [X, b], {})
    _r, ex = I.run(go)
    g = sum((e.guard for e in ex if e.kind == "raise"), ZERO)
    ck.zero("size-mismatch", where, bad * (ONE - g), truths=[bad], detail="inverse that is not square, or column of another length")
