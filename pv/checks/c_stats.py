"""C01-C04: running statistics and mean estimators."""
from ..chk import prop, Anchor
from .. import witness
from ..lib import *


def batches(I, dim, sizes, flat=False, name="Z"):
    """Consecutive blocks of one tensor of observations; dim None means one-dimensional observations given flat."""
    nm = fresh_name(name)
    d = ONE if dim is None else P(dim)
    tensor(nm, (None, d))
    out, off = [], ZERO
    for n in sizes:
        o = off
        if dim is None:
            out.append(given(I, (n,), lambda i, o=o: el(nm, (i + o, ZERO))))
        else:
            out.append(given(I, (n, d), lambda i, k, o=o: el(nm, (i + o, k))))
        off = off + n
    total = off

    def pooled():
        if dim is None:
            return given(I, (total,), lambda i: el(nm, (i, ZERO)))
        return given(I, (total, d), lambda i, k: el(nm, (i, k)))
    z = lambda b, k: el(nm, (P(b), P(k)))
    mean = lambda k, m=None: S(lambda b: z(b, k), total if m is None else m) / (total if m is None else m)
    cov = lambda k, l, m=None: S(lambda b: (z(b, k) - mean(k, m)) * (z(b, l) - mean(l, m)), total if m is None else m)
    return out, pooled, total, z, mean, cov


DIMS = (("1-d flat", None), ("1-d column", 1), ("m-d", "d"))


def dimval(tag, d):
    return (isym("d", 2) if d == "d" else d)


def spec_scalar_or(I, tag, dim, f):
    """A float for dimension one, an array otherwise."""
    if dim is None or (isinstance(dim, int) and dim == 1):
        return F(f(ZERO))
    return npm.build(I, (P(dim),), lambda iv: f(iv[0]))


def spec_cov(I, dim, f):
    if dim is None or (isinstance(dim, int) and dim == 1):
        return F(f(ZERO, ZERO))
    return npm.build(I, (P(dim), P(dim)), lambda iv: f(iv[0], iv[1]))


def updated(I, mk, xs):
    def go():
        o = mk()
        for x in xs:
            method(I, o, "update", x)
        return o
    return I.run(go)


@prop("C01", "Welford identity over an arbitrary batching: the state after two consecutive batches (symbolic sizes, dimension and "
      "contents) equals the state after their concatenation, field by field, and the outputs of one pooled batch equal the pooled "
      "mean and centred outer-product sum over N - ddof; by induction this covers every sequence of batches.")
def c01(ck):
    for cname, has_cov in (("Mean", False), ("Covariance", True)):
        for tag, d in DIMS:
            where = f"primate.stats.{cname}.update"
            ck.attempt("batching", where, lambda: c01_case(ck, cname, has_cov, tag, d, where))
            ck.attempt("before-data", where, lambda: c01_empty(ck, cname, has_cov, tag, d))
            for kind in ("wider", "narrower", "flat"):
                ck.attempt("other-dimension", where, lambda: c01_shape(ck, cname, tag, d, where, kind))


def new_stat(ck, I, cname, dim):
    cls = ck.public(I, "stats", cname)
    return I.call(cls, [], {} if dim is None else {"dim": N(P(dim))})


def c01_empty(ck, cname, has_cov, tag, d):
    """Before any observation the mean is undefined; the covariance is infinite until there are more observations than ddof."""
    con = f"primate.stats.{cname}"
    I = ck.interp()
    dim = dimval(tag, d)
    nan, inf = npm.CONSTS["numpy.nan"], npm.CONSTS["numpy.inf"]
    ddof = isym("ddof", 0)

    def infinite(got, t, facts=()):
        w = inf if dim is None or dim == 1 else npm.build(I, (P(dim), P(dim)), lambda iv: P_of(inf))
        with_facts(list(facts), lambda: ck.same("covariance-before-data", con + ".covariance", I, merge(I, got), w, detail=f"{tag}, {t}"))
    r, ex = I.run(lambda: (lambda o: (method(I, o, "mean"), method(I, o, "covariance", N(ddof)) if has_cov else I.call(o, [], {}), I.call(o, [], {})))(new_stat(ck, I, cname, dim)))
    ck.no_raise("before-data", con, ex, tag)
    if r is MISSING:
        return ck.bad("before-data", con, f"{tag}: reading raises")
    ck.same("mean-before-data", con + ".mean", I, r[0], nan, detail=tag)
    if not has_cov:
        return ck.same("mean-before-data", con + ".__call__", I, r[1], nan, detail=tag)
    infinite(r[1], "no observation, any ddof")
    infinite(r[2], "no observation, default ddof")
    n, j = isym("n", 1), isym("j", 0)
    for t, size, dd in (("any n <= ddof", n, n + j), ("one observation, default ddof", ONE, None)):
        def go():
            o = new_stat(ck, I, cname, dim)
            (x,), *_ = batches(I, dim, [size])
            method(I, o, "update", x)
            return method(I, o, "covariance", N(dd)) if dd is not None else I.call(o, [], {})
        r, ex = I.run(go)
        ck.no_raise("before-data", con, ex, f"{tag}, {t}")
        if r is not MISSING:
            infinite(r, t)


def c01_shape(ck, cname, tag, d, where, kind):
    """Observations of another dimension are rejected and leave the statistic as it was."""
    I = ck.interp()
    dim = dimval(tag, d)
    n, j = isym("n", 1), isym("j", 0)
    if kind == "wider":
        x, _ = arr(I, "X", (n, P(1 if dim is None else dim) + 1 + j))
    elif dim is None or dim == 1:
        return
    else:
        k = isym("k", 1)
        dim = k + 1 + j
        x, _ = arr(I, "X", (n, k)) if kind == "narrower" else arr(I, "X", (n,))
    _r, ex = I.run(lambda: method(I, new_stat(ck, I, cname, dim), "update", x))
    rejected(ck, "other-dimension", where, ex, detail=f"{tag}: {kind} observations")


def outputs(I, o, has_cov, ddof):
    out = {}
    if has_cov:
        out["mean()"] = method(I, o, "mean")
        out["covariance(ddof)"] = method(I, o, "covariance", ddof)
        out["()"] = I.call(o, [], {})
    else:
        out["()"] = I.call(o, [], {})
        out["mean()"] = method(I, o, "mean")
    out["n"] = I.getattr(o, "n")
    return out


def c01_case(ck, cname, has_cov, tag, d, where):
    I = ck.interp()
    cls = ck.public(I, "stats", cname)
    dim = dimval(tag, d)
    n1, n2, n3 = isym("n1"), isym("n2"), isym("n3")
    dd = 1 if dim is None else dim
    mk = lambda: I.call(cls, [], {"dim": N(dd)}) if not (dim is None) else I.call(cls, [], {})
    (X, Y, W), _, total3, z3, mean3, cov3 = batches(I, dim, [n1, n2, n3])
    (X, Y), pooled, total, z, mean, cov = batches(I, dim, [n1, n2])
    base = dict(I.heap)
    a, ex = updated(I, mk, [X, Y])
    ck.no_raise("accepts-batches", where, ex, tag)
    if a is MISSING:
        return ck.bad("accepts-batches", where, f"{tag}: every update raises")
    ha = dict(I.heap)
    I.heap = base
    b, ex = updated(I, mk, [pooled()])
    ck.no_raise("accepts-batches", where, ex, tag)
    I.heap.update({k: v for k, v in ha.items() if k not in I.heap})
    fa, fb = I.heap[a.id].fields, I.heap[b.id].fields
    inductive = fa.keys() == fb.keys()
    trial = type(ck)(ck.pid, ck.tier, ck.seed)
    for f in fb if inductive else ():
        try:
            inductive = trial.same("state", where, I, fa[f], fb[f]) and inductive
        except Exception:
            inductive = False
    ddof = sym(fresh_name("ddof"), integer=True, lo=0)
    facts = [total - ddof - 1]
    if inductive:
        ck.ok("batching-induction", where, f"{tag}: state after two batches = state after the pooled batch ({', '.join(fb)})")
    else:
        # some field depends on the batching: compare what can be observed instead
        check_outputs(ck, I, a, where, tag + ", two batches", has_cov, ddof, facts, dim, mean, cov, total)
        c, ex = updated(I, mk, batches3 := [*batches_of(I, dim, [n1, n2, n3], z3)])
        check_outputs(ck, I, c, where, tag + ", three batches", has_cov, ddof, [total3 - ddof - 1], dim, mean3, cov3, total3)
    check_outputs(ck, I, b, where, tag + ", pooled", has_cov, ddof, facts, dim, mean, cov, total)
    if d is None and cname:
        # a single scalar observation
        x = fsym("x")
        y = fsym("y")
        s, ex = updated(I, mk, [F(x), F(y)])
        ck.no_raise("accepts-batches", where, ex, "scalar observation")
        if s is not MISSING:
            ck.same("pooled-mean", f"primate.stats.{cname}.__call__" if not has_cov else "primate.stats.Covariance.mean", I,
                    I.call(s, [], {}) if not has_cov else method(I, s, "mean"), F((x + y).scale(Fr(1, 2))), detail="two scalar observations")


def batches_of(I, dim, sizes, z):
    off = ZERO
    for n in sizes:
        o = off
        if dim is None:
            yield given(I, (n,), lambda i, o=o: z(i + o, ZERO))
        else:
            yield given(I, (n, P(dim)), lambda i, k, o=o: z(i + o, k))
        off = off + n


def check_outputs(ck, I, o, where, tag, has_cov, ddof, facts, dim, mean, cov, total):
    cname = where.split(".")[-2]
    with_facts(facts, lambda: _outputs(ck, I, o, where, tag, has_cov, ddof, facts, dim, mean, cov, total, cname))


def _outputs(ck, I, o, where, tag, has_cov, ddof, facts, dim, mean, cov, total, cname):
    I.assume, I.truths = dict(I.assume), list(I.truths)

    def go():
        return outputs(I, o, has_cov, N(ddof))
    out, ex = I.run(go)
    if out is MISSING:
        return ck.bad("pooled-output", where, f"{tag}: reading the statistics raises")
    ck.no_raise("pooled-output", f"primate.stats.{cname}", ex, tag)
    m = spec_scalar_or(I, tag, dim, mean)
    ck.same("pooled-count", where, I, out["n"], N(total), detail=tag)
    ck.same("pooled-mean", f"primate.stats.{cname}.mean", I, out["mean()"], m, detail=tag)
    if has_cov:
        ck.same("pooled-covariance", f"primate.stats.{cname}.covariance", I, out["covariance(ddof)"], spec_cov(I, dim, lambda k, l: cov(k, l) / (total - ddof)), detail=tag + ", any ddof < n")
        n2 = [total - 2]
        with_facts(n2, lambda: ck.same("pooled-covariance", f"primate.stats.{cname}.__call__", I, out["()"], spec_cov(I, dim, lambda k, l: cov(k, l) / (total - 1)), detail=tag + ", default ddof"))
    else:
        ck.same("pooled-mean", f"primate.stats.{cname}.__call__", I, out["()"], m, detail=tag)


# -------------------------------------------------------------------------------------------------------------------- C02
def new_mean_est(ck, I, dim, cov, rec):
    cls = ck.public(I, "estimators", "MeanEstimator")
    kw = {"covariance": cov, "record": rec}
    if dim is not None:
        kw["dim"] = N(dim)
    return I.call(cls, [], kw)


@prop("C02", "After an arbitrary batch followed by a second arbitrary batch (symbolic sizes, dimension and contents; with and without "
      "covariance tracking and recording) length, delta, estimate and recorded rows equal their specification; the first batch stands "
      "for any history because the statistics only depend on the pooled observations (C01).")
def c02(ck):
    for cov in (False, True):
        for rec in (False, True):
            for tag, d in DIMS:
                where = "primate.estimators.MeanEstimator.update"
                ck.attempt("bookkeeping", where, lambda: c02_case(ck, cov, rec, tag, d, where))


def c02_case(ck, cov, rec, tag, d, where):
    I = ck.interp()
    dim = dimval(tag, d)
    tag = f"{tag}, covariance={cov}, record={rec}"
    ns = [isym("n1"), isym("n2"), isym("n3")]
    xs, pooled, total, z, mean, _ = batches(I, dim, ns)
    mk = lambda: new_mean_est(ck, I, dim, cov, rec)
    o, ex = I.run(mk)
    ck.no_raise("accepts", where, ex, tag)
    if rec:
        pass
    done = ZERO
    for k, x in enumerate(xs):
        prev = done
        _, ex = I.run(lambda: method(I, o, "update", x))
        ck.no_raise("accepts", where, ex, tag)
        done = done + ns[k]

        def read():
            return (I.call(npm.BUILTINS["len"], [o], {}), I.getattr(o, "n_samples"), I.getattr(o, "estimate"), I.getattr(o, "mean"), I.getattr(o, "delta"), I.getattr(o, "values"))
        r, ex = I.run(read)
        ck.no_raise("readable", where, ex, tag)
        if r is MISSING:
            return ck.bad("readable", where, tag)
        ln, ns_, est, mu, delta, vals = r
        t = f"{tag}, update {k + 1}"
        ck.same("length", "primate.estimators.MeanEstimator.__len__", I, ln, N(done), detail=t)
        ck.same("length", "primate.estimators.MeanEstimator.n_samples", I, ns_, N(done), detail=t)
        want = spec_scalar_or(I, tag, dim, lambda j: mean(j, done))
        ck.same("estimate", "primate.estimators.MeanEstimator.estimate", I, est, want, detail=t)
        ck.same("estimate", "primate.estimators.MeanEstimator.mean", I, mu, want, detail=t)
        if True:
            wd = npm.build(I, (ONE if dim is None else P(dim),), lambda iv: mean(iv[0], done) - (mean(iv[0], prev) if k else ZERO))
            ck.same("last-change", where, I, delta, wd, detail=t)
        if rec:
            if isinstance(vals, LRef):
                got = I.npm.asarr(I, vals)
                ck.same("recorded", where, I, got, npm.build(I, (done, ONE if dim is None else P(dim)), lambda iv: z(iv[0], iv[1])), detail=t)
            else:
                ck.same("recorded", where, I, vals, LRef(-1), detail=t + " values is not a list")
        else:
            none = vals is None or (isinstance(vals, LRef) and not I.heap[vals.id].segs)
            ck.require("recorded", where, none, f"{t}: values {vals!r} although recording is disabled")


# -------------------------------------------------------------------------------------------------------------------- C03
def kinds(ck, I, dim):
    """(name, constructor, observation width, readable outputs) of every running statistic and estimator."""
    d = 1 if dim is None else dim
    one = dim is None or dim == 1

    def ctor(mod, name, **kw):
        cls = ck.public(I, mod, name)
        return lambda: I.call(cls, [], dict(kw))
    out = [("primate.stats.Mean", ctor("stats", "Mean", dim=N(d)), d, ("()", "mean")),
           ("primate.stats.Covariance", ctor("stats", "Covariance", dim=N(d)), d, ("()", "mean", "covariance"))]
    for cov in (False, True):
        for rec in (False, True):
            outs = ("estimate", "mean", "delta", "len") + (("values",) if rec else ()) + (("cov",) if cov else ())
            out.append((f"primate.estimators.MeanEstimator(covariance={cov}, record={rec})",
                        ctor("estimators", "MeanEstimator", dim=N(d), covariance=cov, record=rec), d, outs))
    return out


def read_outputs(I, o, names):
    r = {}
    for n in names:
        if n == "()":
            r[n] = I.call(o, [], {})
        elif n in ("mean", "covariance"):
            f = I.getattr(o, n)
            r[n] = I.call(f, [], {}) if isinstance(f, (BoundV, FuncV, PrimV)) else f
        elif n == "len":
            r[n] = I.call(npm.BUILTINS["len"], [o], {})
        elif n == "cov":
            r[n] = I.call(I.getattr(I.getattr(o, "_cov"), "covariance"), [], {})
        else:
            r[n] = I.getattr(o, n)
    return r


def same_outputs(ck, rule, where, I, a, b, tag, skip=()):
    for n in a:
        if n not in skip:
            ck.same(rule, where, I, as_rows(I, a[n]), as_rows(I, b[n]), detail=f"{tag}: {n}")


def as_rows(I, v):
    if isinstance(v, LRef):
        if not I.heap[v.id].segs:
            return ()
        return I.npm.asarr(I, v)
    return v


@prop("C03", "Aliasing by overwriting: after each update the caller's batch, and every array handed out, is overwritten with fresh unknown "
      "contents and all later outputs are compared with an undisturbed run; values handed out are compared before and after a later "
      "update; two instances are updated independently. Symbolic sizes, dimension and contents.")
def c03(ck):
    for tag, d in (("1-d", 1), ("m-d", "d")):
        I0 = ck.interp()
        names = [k[0] for k in ck.attempt("construct", "primate.estimators.MeanEstimator", lambda: kinds(ck, I0, dimval(tag, d))) or []]
        for i, name in enumerate(names):
            ck.attempt("snapshots", name, lambda: c03_case(ck, tag, d, i, name))
    for alpha in (False, True):
        for rec in (False, True):
            ck.attempt("snapshots", "primate.estimators.ControlVariableEstimator", lambda: c03_cv(ck, alpha, rec))


def disturb(ck, I, where, tag, mk, batches_, outs, extra=()):
    """Runs the undisturbed and the disturbed history and compares."""
    X, Y, W = batches_
    base = dict(I.heap)

    def history(hooks):
        o = mk()
        log = []
        for k, x in enumerate((X, Y, W)):
            before = content(I, x)
            method(I, o, "update", x)
            after = content(I, x)
            log.append((x, before, after))
            if hooks == "input":
                scramble(I, x)
            if hooks == "output":
                for n, v in read_outputs(I, o, [n for n in outs if n not in ("delta", "len", "values")]).items():
                    scramble(I, v)
            if hooks == "values" and "values" in outs:
                pass
        return o, log, read_outputs(I, o, outs)
    r, ex = I.run(lambda: history(None))
    ck.no_raise("runs", where, ex, tag)
    if r is MISSING:
        return ck.bad("runs", where, f"{tag}: updates always raise")
    o, log, plain = r
    plain = {n: freeze(I, as_rows(I, v)) for n, v in plain.items()}
    keep = dict(I.heap)
    for x, b, a in log:
        ix = [fresh_index(d) for d in x.dims]
        ck.zero("input-unchanged", where, b(*ix) - a(*ix), detail=f"{tag}: update writes to the caller's array")
    for mode, rule in (("input", "no-reference-to-input"), ("output", "outputs-detached")):
        I.heap = dict(base)
        r2, ex = I.run(lambda: history(mode))
        if r2 is MISSING:
            ck.bad(rule, where, f"{tag}: raises")
            continue
        o2, _, got = r2
        I.heap.update({k: v for k, v in keep.items() if k not in I.heap})
        for n in outs:
            ck.same(rule, where, I, as_rows(I, got[n]), plain[n], detail=f"{tag}: {n} after overwriting the caller's {'batches' if mode == 'input' else 'copies of the outputs'}")
    # handed-out values do not change afterwards
    I.heap = dict(base)

    def later():
        o = mk()
        method(I, o, "update", X)
        first = read_outputs(I, o, [n for n in outs if n != "values"])
        frozen = {n: freeze(I, v) for n, v in first.items()}
        method(I, o, "update", Y)
        return first, frozen
    r3, ex = I.run(later)
    if r3 is MISSING:
        return
    first, frozen = r3
    I.heap.update({k: v for k, v in keep.items() if k not in I.heap})
    for n in first:
        ck.same("snapshot", where, I, first[n], frozen[n], detail=f"{tag}: {n} handed out before an update")
    # independence of instances
    I.heap = dict(base)

    def two():
        a, b_ = mk(), mk()
        method(I, a, "update", X)
        method(I, b_, "update", Y)
        method(I, b_, "update", W)
        ra = read_outputs(I, a, outs)
        ra = {n: freeze(I, as_rows(I, v)) for n, v in ra.items()}
        c = mk()
        method(I, c, "update", X)
        rc = read_outputs(I, c, outs)
        return ra, rc
    r4, ex = I.run(two)
    if r4 is not MISSING:
        I.heap.update({k: v for k, v in keep.items() if k not in I.heap})
        same_outputs(ck, "instances-independent", where, I, r4[0], r4[1], tag)


def c03_case(ck, tag, d, i, name):
    I = ck.interp()
    dim = dimval(tag, d)
    kname, mk, width, outs = kinds(ck, I, dim)[i]
    n1, n2, n3 = isym("n1", 2), isym("n2"), isym("n3")
    xs = [arr(I, nm, (n, P(width)))[0] for nm, n in (("X", n1), ("Y", n2), ("W", n3))]
    disturb(ck, I, name, tag, mk, xs, outs)
    if d == 1:
        xs = [arr(I, nm, (n,))[0] for nm, n in (("X", n1), ("Y", n2), ("W", n3))]
        disturb(ck, I, name, tag + " flat", mk, xs, outs)


def c03_cv(ck, alpha, rec):
    I = ck.interp()
    cls = ck.public(I, "estimators", "ControlVariableEstimator")
    c = isym("c", 2)
    where = f"primate.estimators.ControlVariableEstimator(alpha={'given' if alpha else 'estimated'}, record={rec})"
    n1, n2, n3 = isym("n1", 3), isym("n2"), isym("n3")
    ecv, _ = arr(I, "ecv", (c,))
    al, _ = arr(I, "alpha", (c,))
    kw = {"record": rec}
    if alpha:
        kw["alpha"] = al
    mk = lambda: I.call(cls, [ecv], dict(kw))
    xs = [arr(I, nm, (n, c + 1))[0] for nm, n in (("X", n1), ("Y", n2), ("W", n3))]
    outs = ("estimate", "delta", "len") + (("values",) if rec else ())
    disturb(ck, I, where, "m controls", mk, xs, outs)
    # the expectations and coefficients given to the constructor
    base = dict(I.heap)

    def hist(over):
        o = mk()
        for x in xs:
            if over:
                scramble(I, ecv)
                scramble(I, al)
            method(I, o, "update", x)
        return I.getattr(o, "estimate")
    a, _ = I.run(lambda: hist(False))
    I.heap = base
    b, _ = I.run(lambda: hist(True))
    ck.same("no-reference-to-constructor-arguments", where, I, a, b, detail="estimate after overwriting the arrays given to the constructor")


# -------------------------------------------------------------------------------------------------------------------- C04
@prop("C04", "Estimates after one and after two arbitrary batches (symbolic sizes, number of controls and contents) equal the primary mean "
      "minus the coefficients applied to the control errors; coefficients are the caller's, or the solution of the sample covariance "
      "system (a ratio for one control), compared as normal forms.")
def c04(ck):
    for c in (1, 2, "c"):
        for alpha in (True, False):
            where = "primate.estimators.ControlVariableEstimator.estimate"
            ck.attempt("control-variate", where, lambda: c04_case(ck, c, alpha, where))
    ck.attempt("few-samples", where, lambda: c04_few(ck, where))


def c04_few(ck, where):
    """Estimated coefficient from two samples (given at once or one by one); a single sample leaves the plain mean."""
    for sizes in ((1,), (2,), (1, 1), (1, 2)):
        I = ck.interp()
        cls = ck.public(I, "estimators", "ControlVariableEstimator")
        xs, _pooled, total, z, mean, cov = batches(I, 2, [P(k) for k in sizes])
        ecv, E = arr(I, "ecv", (ONE,))
        tag = "1 control, batches of " + ", ".join(map(str, sizes))

        def go():
            o = I.call(cls, [ecv], {})
            for x in xs:
                method(I, o, "update", x)
            return I.getattr(o, "estimate"), I.call(npm.BUILTINS["len"], [o], {})
        r, ex = I.run(go)
        ck.no_raise("accepts", where, ex, tag)
        if r is MISSING:
            return ck.bad("accepts", where, tag)
        k = P(sum(sizes))
        coef = cov(ZERO, ONE, k) / cov(ONE, ONE, k) if sum(sizes) > 1 else ZERO
        ck.same("few-samples", where, I, r[0], F(mean(ZERO, k) - coef * (mean(ONE, k) - E(ZERO))), detail=tag)
        ck.same("length", "primate.estimators.ControlVariableEstimator.__len__", I, r[1], N(k), detail=tag)


def c04_case(ck, c, alpha, where):
    I = ck.interp()
    cls = ck.public(I, "estimators", "ControlVariableEstimator")
    cc = isym("c", 2) if c == "c" else P(c)
    tag = f"{c} control(s), alpha {'given' if alpha else 'estimated'}"
    n1, n2 = isym("n1", 3), isym("n2")
    xs, pooled, total, z, mean, cov = batches(I, cc + 1, [n1, n2])
    ecv, E = arr(I, "ecv", (cc,))
    al, A = arr(I, "alpha", (cc,))
    kw = {"alpha": al} if alpha else {}
    o, ex = I.run(lambda: I.call(cls, [ecv], kw))
    ck.no_raise("accepts", where, ex, tag)
    if o is MISSING:
        return
    done = ZERO
    prev = None
    for x, n in zip(xs, (n1, n2)):
        _, ex = I.run(lambda: method(I, o, "update", x))
        ck.no_raise("accepts", where, ex, tag)
        done = done + n
        t = f"{tag}, {done} samples"
        if alpha:
            coef = A
        elif c == 1:
            coef = lambda k: cov(ZERO, ONE, done) / cov(ONE, ONE, done)
        else:
            C11 = npm.build(I, (cc, cc), lambda iv: cov(iv[0] + 1, iv[1] + 1, done) / (done - 1))
            C01 = npm.build(I, (cc,), lambda iv: cov(iv[0] + 1, ZERO, done) / (done - 1))
            sol = I.call(ModV("numpy.linalg.solve"), [C11, C01], {})
            coef = lambda k: npm.elem(I, sol, [k])
        want = mean(ZERO, done) - S(lambda k: coef(k) * (mean(k + 1, done) - E(k)), cc)
        (est, ln, a_), ex = I.run(lambda: (I.getattr(o, "estimate"), I.call(npm.BUILTINS["len"], [o], {}), I.getattr(o, "alpha")))
        ck.no_raise("readable", where, ex, t)
        ck.same("estimate", where, I, est, F(want), detail=t)
        ck.same("length", "primate.estimators.ControlVariableEstimator.__len__", I, ln, N(done), detail=t)
        if alpha:
            ck.same("coefficients-unchanged", where, I, a_, npm.build(I, (cc,), lambda iv: A(iv[0])), detail=t)
        elif c == 1 and not (isinstance(a_, ARef) and a_.dims):
            ck.same("regression-coefficients", where, I, a_, F(coef(ZERO)), detail=t)
        else:
            ck.same("regression-coefficients", where, I, a_, npm.build(I, (cc,), lambda iv: coef(iv[0])), detail=t)
        if prev is not None:
            (dl,), ex = I.run(lambda: (I.getattr(o, "delta"),))
            ck.same("last-change", "primate.estimators.ControlVariableEstimator.update", I, dl, npm.build(I, (ONE,), lambda iv: want - prev), detail=t)
        prev = want
    # scalar expectation / coefficient
    if c == 1:
        I2 = ck.interp()
        cls = ck.public(I2, "estimators", "ControlVariableEstimator")
        e, a = fsym("ecv"), fsym("alpha")
        (x,), pooled, total, z, mean, cov = batches(I2, 2, [n1])
        o, ex = I2.run(lambda: I2.call(cls, [F(e)], {"alpha": F(a)} if alpha else {}))
        ck.no_raise("accepts", where, ex, tag + " scalar expectation")
        I2.run(lambda: method(I2, o, "update", x))
        coef = a if alpha else cov(ZERO, ONE) / cov(ONE, ONE)
        (est,), ex = I2.run(lambda: (I2.getattr(o, "estimate"),))
        ck.same("estimate", where, I2, est, F(mean(ZERO) - coef * (mean(ONE) - e)), detail=tag + ", scalar expectation")


# -------------------------------------------------------------------------------------------------------------------- C05
USER_CRIT = """
class UserCriterion(Base):
    def __init__(self, op):
        self.op = op
    def __call__(self, est):
        return self.op(est)
"""


@prop("C05", "Compositions of opaque criteria (each part an arbitrary function of the estimator returning an arbitrary truth value, and a "
      "user-defined subclass overriding evaluation) are evaluated on an opaque estimator; the resulting truth value is compared with the "
      "boolean polynomial of the parts for nested compositions, the argument of every part must be that estimator, and parts are "
      "evaluated again afterwards.")
def c05(ck):
    where = "primate.estimators.ConvergenceCriterion"
    ck.attempt("composition", where, lambda: c05_case(ck, where))


def c05_case(ck, where):
    exprs = {
        "a | b": lambda a, b, c: a + b - a * b,
        "a & b": lambda a, b, c: a * b,
        "~a": lambda a, b, c: ONE - a,
        "~~a": lambda a, b, c: a,
        "(a | b) & c": lambda a, b, c: (a + b - a * b) * c,
        "(a & b) | c": lambda a, b, c: a * b + c - a * b * c,
        "~(a | b)": lambda a, b, c: (ONE - a) * (ONE - b),
        "~(a & b) | ~c": lambda a, b, c: ONE - a * b * c,
        "~a & ~b": lambda a, b, c: (ONE - a) * (ONE - b),
        "(~a | b) & (a | ~c)": lambda a, b, c: (ONE - a + a * b) * (ONE - c + a * c),
        "a | a": lambda a, b, c: a,
        "a & ~a": lambda a, b, c: ZERO,
        "(a | b) | (c & a)": lambda a, b, c: ONE - (ONE - a) * (ONE - b) * (ONE - c * a),
    }
    for how in ("generic", "subclass", "mixed"):
        for ex, spec in exprs.items():
            I = ck.interp()
            base = ck.public(I, "estimators", "ConvergenceCriterion")
            log = []
            prims, bs = zip(*[opaque_test(n, log) for n in "abc"])
            env = user(I, USER_CRIT, Base=base)
            U = env["UserCriterion"]
            mk = []
            for k in range(3):
                cls = base if how == "generic" or (how == "mixed" and k % 2) else U
                o, exi = I.run(lambda: I.call(cls, [prims[k]], {}))
                mk.append(o)
            a, b, c = mk
            est = ObjM("estimator")
            tag = f"{how}: {ex}"
            env = {}

            def go():
                e = user(I, f"r = {ex}", a=a, b=b, c=c)
                return e["r"]
            r, exi = I.run(go)
            op = {"|": "__or__", "&": "__and__", "~": "__invert__"}
            con = where + "." + "/".join(v for k, v in op.items() if k in ex)
            ck.no_raise("composable", con, exi, tag)
            if r is MISSING:
                ck.bad("composable", con, tag)
                continue
            ck.require("is-criterion", con, npm.isinst(I, r, base) == ONE, tag + ": the composition is not a criterion")
            cells = [I.heap[x.id].fields for x in (a, b, c) if isinstance(x, ORef)]
            before = [dict(x) for x in cells]
            log.clear()
            v, exi = I.run(lambda: I.call(r, [est], {}))
            ck.no_raise("evaluates", con, exi, tag)
            if v is MISSING:
                ck.bad("evaluates", con, tag)
                continue
            ck.zero("boolean-combination", con, I.truth(v) - spec(*bs), detail=tag)
            ck.require("same-estimator", con, all(len(x[1]) == 1 and x[1][0] is est for x in log), f"{tag}: a part was evaluated on {[x[1] for x in log]}")
            ck.require("estimator-untouched", con, not [e for e in I.events if e.kind == "user-setattr"], tag)
            for k, x in enumerate((a, b, c)):
                w, exi = I.run(lambda: I.call(x, [est], {}))
                ck.zero("parts-unchanged", con, (I.truth(w) - bs[k]) if w is not MISSING else ONE, detail=f"{tag}: part {'abc'[k]} afterwards")
            v2, exi = I.run(lambda: I.call(r, [est], {}))
            ck.zero("boolean-combination", con, (I.truth(v2) - spec(*bs)) if v2 is not MISSING else ONE, detail=tag + ", evaluated again")
    # built-in criteria compose through the same operators
    I = ck.interp()
    Count = ck.public(I, "estimators", "CountCriterion")
    base = ck.public(I, "estimators", "ConvergenceCriterion")
    k, n = isym("k", 0), isym("n", 0)
    log = []
    pr, B = opaque_test("q", log)
    est = ObjM("estimator", __len__=PrimV("len", lambda I: N(n)), n_samples=N(n), estimate=F(fsym("m")), delta=F(fsym("dl")))
    for ex, spec in (("a | b", lambda A, B: A + B - A * B), ("b | a", lambda A, B: A + B - A * B), ("a & b", lambda A, B: A * B), ("b & a", lambda A, B: A * B), ("~a", lambda A, B: ONE - A)):
        v, exi = I.run(lambda: I.call(user(I, f"r = {ex}", a=I.call(Count, [N(k)], {}), b=I.call(base, [pr], {}))["r"], [est], {}))
        ck.no_raise("evaluates", where, exi, f"count criterion: {ex}")
        ck.zero("boolean-combination", where, (I.truth(v) - spec(ge(n - k), B)) if v is not MISSING else ONE, detail=f"count criterion: {ex}")


# -------------------------------------------------------------------------------------------------------------------- C06
def len_est(n, **kw):
    return ObjM("estimator", __len__=PrimV("len", lambda I: N(n)), n_samples=N(n), **kw)


@prop("C06", "The count and tolerance criteria are evaluated on an opaque estimator state (symbolic count, last change, estimate of any "
      "dimension, tolerances) and the resulting indicator is compared with the documented threshold; writes to the estimator are events.")
def c06(ck):
    ck.attempt("count", "primate.estimators.CountCriterion.__call__", lambda: c06_count(ck))
    for shape in ("scalar", "0-d delta", "vector", "mean-estimator"):
        for o in (2, 1, "inf", None, "sym"):
            ck.attempt("tolerance", "primate.estimators.ToleranceCriterion.__call__", lambda: c06_tol(ck, shape, o))


def c06_count(ck):
    I = ck.interp()
    where = "primate.estimators.CountCriterion.__call__"
    cls = ck.public(I, "estimators", "CountCriterion")
    k, n = isym("count", 0), isym("n", 0)
    for kw in (False, True):
        v, ex = I.run(lambda: I.call(I.call(cls, [] if kw else [N(k)], {"count": N(k)} if kw else {}), [len_est(n, estimate=F(fsym("m")), delta=F(fsym("dl")), values=None)], {}))
        ck.no_raise("evaluates", where, ex)
        ck.zero("count-threshold", where, (I.truth(v) - ge(n - k)) if v is not MISSING else ONE, detail="holds iff samples >= count")
    ck.require("estimator-untouched", where, not [e for e in I.events if e.kind == "user-setattr"], "")
    # a real estimator with any history
    n1, n2 = isym("n1"), isym("n2")
    est, X, Y = new_mean_est(ck, I, None, False, False), arr(I, "X", (n1,))[0], arr(I, "Y", (n2,))[0]
    def go():
        method(I, est, "update", X)
        method(I, est, "update", Y)
        return I.call(I.call(cls, [N(k)], {}), [est], {})
    v, ex = I.run(go)
    ck.no_raise("evaluates", where, ex)
    ck.zero("count-threshold", where, (I.truth(v) - ge(n1 + n2 - k)) if v is not MISSING else ONE, detail="mean estimator with two batches")


def norm_spec(I, v, o):
    return P_of(I.call(ModV("numpy.linalg.norm"), [v], {"ord": o}))


def c06_tol(ck, shape, o):
    I = ck.interp()
    where = "primate.estimators.ToleranceCriterion.__call__"
    cls = ck.public(I, "estimators", "ToleranceCriterion")
    rtol, atol = fsym("rtol"), fsym("atol")
    od = {"inf": Sc(npm.INF, "float"), "sym": Sc(fsym("ord"), "float")}.get(o, o)
    if isinstance(o, int):
        od = Sc(P(o), "float")
    tag = f"{shape}, ord={o}"
    n = isym("n", 0)
    if shape == "mean-estimator":
        est = new_mean_est(ck, I, None, False, False)
        n1, n2 = isym("n1"), isym("n2")
        X, x = arr(I, "X", (n1,))
        Y, y = arr(I, "Y", (n2,))
        I.run(lambda: (method(I, est, "update", X), method(I, est, "update", Y)))
        m1 = S(x, n1) / n1
        m = (S(x, n1) + S(y, n2)) / (n1 + n2)
        dl = npm.build(I, (ONE,), lambda iv: m - m1)
        ev = npm.build(I, (ONE,), lambda iv: m)
    elif shape == "scalar":
        d0, e0 = fsym("delta"), fsym("est")
        dl, ev = npm.build(I, (ONE,), lambda iv: d0), npm.build(I, (ONE,), lambda iv: e0)
        est = len_est(n, delta=dl, estimate=F(e0))
    elif shape == "0-d delta":
        d0, e0 = fsym("delta"), fsym("est")
        dl, ev = npm.build(I, (ONE,), lambda iv: d0), npm.build(I, (ONE,), lambda iv: e0)
        if o == "sym" or o == 1:
            return
        est = len_est(n, delta=npm.build(I, (ONE,), lambda iv: d0), estimate=npm.build(I, (), lambda iv: e0))
    else:
        k = isym("dim", 2)
        dl, _ = arr(I, "delta", (k,))
        ev, _ = arr(I, "est", (k,))
        est = len_est(n, delta=dl, estimate=ev)
    before = dict(I.heap)
    v, ex = I.run(lambda: I.call(I.call(cls, [], {"rtol": F(rtol), "atol": F(atol), "ord": od}), [est], {}))
    ck.no_raise("evaluates", where, ex, tag)
    if v is MISSING:
        return ck.bad("evaluates", where, tag)
    err, nrm = norm_spec(I, dl, od), norm_spec(I, ev, od)
    A, B = gt(atol - err), gt(rtol * nrm - err)
    ck.zero("tolerance-threshold", where, I.truth(v) - (A + B - A * B), detail=tag + ": holds iff |delta| < atol or |delta| < rtol |estimate|")
    ck.require("estimator-untouched", where, not [e for e in I.events if e.kind == "user-setattr"] and all(I.heap[r.buf].body == before[r.buf].body for r in (dl, ev)), tag)
    if isinstance(est, ORef):
        ck.require("estimator-untouched", where, all(veq(I.heap[est.id].fields.get(f), x) for f, x in before[est.id].fields.items()), tag)


# -------------------------------------------------------------------------------------------------------------------- C07
@prop("C07", "The confidence criterion is evaluated on a mean estimator holding an arbitrary batch (symbolic size and contents) with symbolic "
      "confidence and tolerances; its indicator is compared with margin <= atol or relative standard error <= rtol, with the Student "
      "quantile at n-1 degrees of freedom below 30 samples and the normal quantile from 30 on.")
def c07(ck):
    where = "primate.estimators.ConfidenceCriterion.__call__"
    for rng in ((3, 29), (30, None), (0, 0), (1, 1), (2, 2)):
        ck.attempt("confidence", where, lambda: c07_case(ck, rng, where))
    ck.attempt("level-rejected", where, lambda: c07_level(ck))


def c07_level(ck):
    where = "primate.estimators.ConfidenceCriterion.__init__"
    for what in ("below", "above", ZERO, ONE, P(Fr(-1, 2)), P(Fr(3, 2)), P(95)):
        I = ck.interp()
        cls = ck.public(I, "estimators", "ConfidenceCriterion")
        off = sym(fresh_name("off"), lo=0)
        c = {"below": -off, "above": off + 1}[what] if isinstance(what, str) else what
        r, ex = I.run(lambda: I.call(cls, [], {"confidence": F(c)}))
        t = f"confidence {what} the unit interval" if isinstance(what, str) else f"confidence {what}"
        ck.require("level-rejected", where, r is MISSING and bool(raising(ex)), f"{t} is accepted")


def c07_case(ck, rng, where):
    I = ck.interp()
    cls = ck.public(I, "estimators", "ConfidenceCriterion")
    conf, atol, rtol = sym(fresh_name("conf"), lo=0), fsym("atol"), fsym("rtol")
    lo, hi = rng
    n = P(lo) if lo == hi else isym("n", lo)
    facts = [ONE - conf] + ([P(hi) - n] if hi is not None and lo != hi else []) + [npm.INF - atol - 1, npm.INF - rtol - 1]
    tag = f"{lo} samples" if lo == hi else (f"{lo}..{hi} samples" if hi else f">= {lo} samples")
    truths = [gt(conf), gt(ONE - conf)]

    def go():
        I.assume_true(gt(conf))
        I.assume_true(gt(ONE - conf))
        est = new_mean_est(ck, I, None, True, False)
        if lo:
            X, x = arr(I, "X", (n,))
            method(I, est, "update", X)
        else:
            x = None
        crit = I.call(cls, [], {"confidence": F(conf), "atol": F(atol), "rtol": F(rtol)})
        before = {f: freeze(I, v) for f, v in I.heap[est.id].fields.items()}
        return x, I.call(crit, [est], {}), est, before

    def all_():
        r, ex = I.run(go)
        ck.no_raise("evaluates", where, ex, tag, truths=truths)
        if r is MISSING:
            return ck.bad("evaluates", where, tag)
        x, v, est, before = r
        got = I.truth(v)
        if lo < 3 and lo == hi:
            return ck.zero("needs-three-samples", where, got, detail=f"{tag}, finite tolerances", truths=truths)
        mean = S(x, n) / n
        var = S(lambda b: (x(b) - mean) * (x(b) - mean), n) / (n - 1)
        se = power(var, Fr(1, 2)) / power(n, Fr(1, 2))
        q = (conf + 1).scale(Fr(1, 2))
        quant = fun("tppf", q, n - 1) if hi else fun("normppf", q)
        A = ge(atol - quant * se)
        B = ge(rtol - se / fun("abs", mean))
        ck.zero("confidence-threshold", where, got - (A + B - A * B), detail=tag, truths=truths)
    with_facts(facts, all_)


# -------------------------------------------------------------------------------------------------------------------- C34
@prop("C34", "The knee criterion is evaluated on a recording mean estimator holding two arbitrary batches (symbolic sizes and contents, and three to five single "
      "samples) with a symbolic sensitivity; its indicator is compared with that of the kneedle rule on the normalised cumulative absolute changes of the running "
      "mean. With fewer than three recorded samples or without recording it must never hold; the estimator must be left as it was.")
def c34(ck):
    where = "primate.estimators.KneeCriterion.__call__"
    for S_ in ("symbol", "default"):
        for sizes in ((None,), (None, None), (3,), (4,), (5,), (1, 2), (2, 2)):
            ck.attempt("knee-rule", where, lambda: c34_case(ck, where, S_, sizes))
    for sizes in ((), (1,), (2,), (1, 1)):
        ck.attempt("needs-three-samples", where, lambda: c34_never(ck, where, sizes, True))
    for sizes in ((), (2,), (None,), (5,)):
        ck.attempt("needs-recording", where, lambda: c34_never(ck, where, sizes, False))


def c34_setup(ck, sizes, record, S_):
    I = ck.interp()
    cls = ck.public(I, "estimators", "KneeCriterion")
    ns = [isym(f"n{k}", 3 if k == 0 else 1) if x is None else P(x) for k, x in enumerate(sizes)]
    xs, _pooled, total, z, _m, _c = batches(I, None, ns) if ns else ([], None, ZERO, None, None, None)
    S0 = fsym("S") if S_ == "symbol" else ONE

    def go():
        est = new_mean_est(ck, I, None, False, record)
        for x in xs:
            method(I, est, "update", x)
        crit = I.call(cls, [], {"S": F(S0)} if S_ == "symbol" else {})
        before = c34_state(I, est)
        v = I.call(crit, [est], {})
        return est, v, before, c34_state(I, est)
    r, ex = I.run(go)
    return I, r, ex, total, z, S0


def c34_state(I, o):
    """The contents of an estimator's fields: recorded lists by their segments, nested objects by their own fields."""
    out = {}
    for f, v in I.heap[o.id].fields.items():
        if isinstance(v, LRef):
            out[f] = ("list", v, tuple((s[0],) + tuple(freeze(I, x) if isinstance(x, ARef) else x for x in s[1:]) for s in I.heap[v.id].segs))
        elif isinstance(v, ORef):
            out[f] = ("object", v, c34_state(I, v))
        else:
            out[f] = ("value", freeze(I, v))
    return out


def c34_same(I, a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(c34_same(I, a[k], b[k]) for k in a)
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(c34_same(I, x, y) for x, y in zip(a, b))
    if isinstance(a, ARef):
        return isinstance(b, ARef) and npm.akey(I, a) == npm.akey(I, b)
    return type(a) is type(b) and (a == b or veq(a, b))


def c34_case(ck, where, S_, sizes):
    tag = f"S {S_}, batches of " + ", ".join("any size" if x is None else str(x) for x in sizes)
    I, r, ex, n, z, S0 = c34_setup(ck, sizes, True, S_)
    ck.no_raise("evaluates", where, ex, tag)
    if r is MISSING:
        return ck.bad("evaluates", where, tag)
    est, v, before, after = r
    mean = lambda k: S(lambda j: z(j, ZERO), k) / k               # running mean after k samples
    y = npm.build(I, (n - 1,), lambda iv: S(lambda t: fun("abs", mean(t + 2) - mean(t + 1)), iv[0] + 1))
    top, low = P_of(user(I, "import numpy as np\nr = np.max(y)", y=y)["r"]), P_of(user(I, "import numpy as np\nr = np.min(y)", y=y)["r"])
    curve = npm.build(I, (n - 1,), lambda iv: (npm.elem(I, y, iv) - low) / (top - low) - iv[0] / (n - 2))
    peak = P_of(user(I, "import numpy as np\nr = np.max(u)", u=curve)["r"])
    off = S0 / (n - 2)
    last = npm.elem(I, curve, [n - 2])
    ck.zero("knee-rule", where, I.truth(v) - gt(off) * gt(peak - off - last), detail=tag)
    ck.require("estimator-untouched", where, c34_same(I, before, after), tag)


def c34_never(ck, where, sizes, record):
    tag = f"recording {record}, batches of " + ", ".join("any size" if x is None else str(x) for x in sizes)
    I, r, ex, n, z, S0 = c34_setup(ck, sizes, record, "symbol")
    ck.no_raise("evaluates", where, ex, tag)
    if r is MISSING:
        return ck.bad("evaluates", where, tag)
    ck.zero("needs-three-samples" if record else "needs-recording", where, I.truth(r[1]), detail=tag)


# -------------------------------------------------------------------------------------------------------------------- C35
@prop("C35", "The stop message of every built-in criterion, with symbolic thresholds, is produced for mean estimators (scalar, vector of fixed and of symbolic dimension) and "
      "control variate estimators before any data, after one, two and arbitrarily many samples. No exception may be possible, the estimator and the criterion must be "
      "left as they were, and the values formatted into the text must include the sample count and what the criterion decides by.")
def c35(ck):
    for cname in ("CountCriterion", "ToleranceCriterion", "ConfidenceCriterion", "KneeCriterion"):
        where = f"primate.estimators.{cname}.message"
        for dim in (None, 2, 3, 5, "d", "cv1", "cv2"):
            if cname == "ConfidenceCriterion" and dim is not None:
                continue        # it needs the covariance of a scalar mean
            for sizes in ((), (1,), (2,), (None,), (1, 1)) + (((1, None),) if ck.tier == "thorough" else ()):
                ck.attempt("message", where, lambda: c35_case(ck, cname, where, dim, sizes))
                if cname == "ToleranceCriterion" and dim in (None, 3) and len(sizes) == 2:
                    for o in ("1", "inf"):
                        ck.attempt("message", where, lambda: c35_case(ck, cname, where, dim, sizes, o))
    ck.attempt("message", "primate.estimators.ConvergenceCriterion.message", lambda: c35_composite(ck))


def c35_case(ck, cname, where, dim, sizes, o="2"):
    I = ck.interp()
    cls = ck.public(I, "estimators", cname)
    cv = dim in ("cv1", "cv2")
    d = {"d": None, "cv1": 2, "cv2": 3}.get(dim, dim)
    d = isym("d", 2) if dim == "d" else d
    ns = [isym(f"n{k}", 30) if x is None else P(x) for k, x in enumerate(sizes)]
    xs, _p, total, z, mean, cov = batches(I, d, ns) if ns else ([], None, ZERO, None, None, None)
    tag = f"{'control variates' if cv else 'mean of dimension ' + str(dim or 1)}, batches of " + (", ".join("any size" if x is None else str(x) for x in sizes) or "nothing")
    conf, od = sym(fresh_name("conf"), lo=0), {"2": F(P(2)), "1": F(ONE), "inf": F(npm.INF)}[o]
    names = {"CountCriterion": ("count",), "ToleranceCriterion": ("rtol", "atol"), "ConfidenceCriterion": ("confidence", "atol", "rtol"), "KneeCriterion": ("S",)}[cname]
    opts = {k: isym(k, 0) if k == "count" else conf if k == "confidence" else fsym(k) for k in names}
    truths = [gt(conf), gt(ONE - conf)]

    def go():
        for t in truths:
            I.assume_true(t)
        if cv:
            est = I.call(ck.public(I, "estimators", "ControlVariableEstimator"), [arr(I, "ecv", (P(d - 1),))[0]], {"record": True})
        else:
            est = new_mean_est(ck, I, d, dim is None, True)
        for x in xs:
            method(I, est, "update", x)
        crit = I.call(cls, [], {**{k: N(v) if k == "count" else F(v) for k, v in opts.items()}, **({"ord": od} if cname == "ToleranceCriterion" else {})})
        before = c34_state(I, est), c34_state(I, crit)
        upd = len(I.events)
        m = method(I, crit, "message", est)
        return est, m, before, (c34_state(I, est), c34_state(I, crit)), upd
    mark = []

    def run():
        r, ex = I.run(go)
        mark.append((r, ex))
    with_facts([ONE - conf], run)
    r, ex = mark[0]
    ex = [e for e in ex if e.kind != "raise" or not str(e.value) == "LinAlgError"]
    ck.no_raise("can-be-produced", where, ex, tag, truths=truths)
    if r is MISSING:
        return ck.bad("can-be-produced", where, tag)
    est, m, before, after, _u = r
    ck.require("is-text", where, isinstance(m, (str, Unk)), f"{tag}: {type(m).__name__}")
    ck.require("estimator-untouched", where, c34_same(I, before[0], after[0]), tag)
    ck.require("criterion-untouched", where, c34_same(I, before[1], after[1]), tag)
    want = {"the sample count": total}
    if cname == "KneeCriterion":
        want["the sensitivity"] = opts["S"]
    if cname == "ToleranceCriterion":
        want["the absolute tolerance"], want["the relative tolerance"] = opts["atol"], opts["rtol"]
    if dim is None and ns:
        want["the estimate"] = mean(ZERO)
    elif cv and ns:
        e, _x = I.run(lambda: I.getattr(est, "estimate"))
        want["the estimate"] = P_of(e)
    elif ns and dim in (2, 3):
        arrs = [p for p in (m.parts if isinstance(m, StrV) else ()) if isinstance(p, ARef) and p.dims == (P(dim),)]
        if not arrs:
            ck.undecided("reports", where, f"{tag}: the estimate may be in a part of the text that is not modelled")
        elif not any(all(is_zero(npm.elem(I, a, [P(k)]) - mean(P(k))) for k in range(dim)) for a in arrs):
            for k in range(dim):
                ck.zero("reports", where, npm.elem(I, arrs[0], [P(k)]) - mean(P(k)), detail=f"{tag}: component {k} of the estimate")
        else:
            ck.ok("reports", where, f"{tag}: the estimate")
    if cname == "ConfidenceCriterion":
        want["the confidence in percent"] = conf.scale(100)
        if None in sizes:
            var = S(lambda b: (z(b, ZERO) - mean(ZERO)) * (z(b, ZERO) - mean(ZERO)), total) / (total - 1)
            want["the margin of error"] = power(var, Fr(1, 2)) / power(total, Fr(1, 2)) * fun("normppf", (conf + 1).scale(Fr(1, 2)))
    if cname == "ToleranceCriterion" and ns and not cv:
        ev = npm.build(I, (ONE if d is None else P(d),), lambda iv: mean(iv[0]))
        want["the norm of the estimate"] = norm_spec(I, ev, od)
        if len(ns) == 2:
            dl = npm.build(I, (ONE if d is None else P(d),), lambda iv: mean(iv[0]) - mean(iv[0], ns[0]))
            want["the norm of the last change"] = norm_spec(I, dl, od)
    with_facts([ONE - conf], lambda: c35_parts(ck, where, tag, want, m, truths))


def c35_parts(ck, where, tag, want, m, truths):
    parts = m.parts if isinstance(m, StrV) else (m,)
    vals = [P_of(p) for p in parts if P_of(p) is not None]
    known = [v for v in vals if not witness.tainted(v)]
    hidden = len(known) < len(vals) or any(P_of(p) is None and not isinstance(p, (str, ARef)) for p in parts)
    for what, w in want.items():
        t = f"{tag}: {what}"
        if any(is_zero(v - w) for v in known):
            ck.ok("reports", where, t)
            continue
        agree = [v for v in known if v.free() == w.free()]
        agree = [v for v in agree if witness.refute(v - w, want=3, seed=ck.seed, truths=truths)[0] is None]
        agree = [v for v in agree if witness.refute(v - w, seed=ck.seed, truths=truths)[0] is None]
        if agree:
            ck.zero("reports", where, agree[0] - w, detail=t, truths=truths)
        elif hidden:
            ck.undecided("reports", where, f"{t} may be in a part of the text that is not modelled")
        else:
            ck.bad("reports", where, f"{t} is not among the values in the text")


def c35_composite(ck):
    where = "primate.estimators.ConvergenceCriterion.message"
    I = ck.interp()
    C, T = ck.public(I, "estimators", "CountCriterion"), ck.public(I, "estimators", "ToleranceCriterion")
    for op in ("a | b", "a & b", "~a", "(a | b) & ~b"):
        def go():
            a, b = I.call(C, [N(isym("count", 0))], {}), I.call(T, [], {})
            est = new_mean_est(ck, I, None, False, False)
            method(I, est, "update", arr(I, "X", (isym("n", 1),))[0])
            return user(I, f"r = ({op}).message(est)", a=a, b=b, est=est)["r"]
        r, ex = I.run(go)
        ck.no_raise("can-be-produced", where, ex, op)
        ck.require("is-text", where, isinstance(r, (str, Unk)), f"{op}: {type(r).__name__}")


# -------------------------------------------------------------------------------------------------------------------- C08
CRIT_OPTS = {
    "count": ("CountCriterion", {"count": None}),
    "tolerance": ("ToleranceCriterion", {"rtol": Fr(1, 100), "atol": None, "ord": Fr(2)}),
    "confidence": ("ConfidenceCriterion", {"confidence": Fr(95, 100), "atol": Fr(0), "rtol": Fr(1, 100)}),
    "knee": ("KneeCriterion", {"S": Fr(1)}),
}
CRIT_OPTS["tolerance"][1]["atol"] = P(1.49e-08).cval()


def crit_state(ck, I, name):
    n = isym("n", 3)
    if name == "confidence":
        est = new_mean_est(ck, I, None, True, False)
        X, _ = arr(I, "X", (n,))
        method(I, est, "update", X)
        return est
    if name == "knee":
        return len_est(P(5), values=I.mklist([F(fsym(f"v{k}")) for k in range(5)]), estimate=F(fsym("m")), delta=F(fsym("dl")))
    return len_est(n, delta=npm.build(I, (ONE,), lambda iv, d=fsym("dl"): d), estimate=F(fsym("m")), values=None)


@prop("C08", "Every documented name, letter case and subset of options (with an irrelevant extra one) is requested with symbolic option "
      "values; the criterion obtained must decide every symbolic estimator state exactly as the documented class constructed directly "
      "with those options and the documented defaults. Objects pass through unchanged, other names always raise.")
def c08(ck):
    where = "primate.estimators.convergence_criterion"
    for name in CRIT_OPTS:
        ck.attempt("by-name", where, lambda: c08_name(ck, name, where))
    ck.attempt("pass-through", where, lambda: c08_rest(ck, where))


def c08_name(ck, name, where):
    cname, opts = CRIT_OPTS[name]
    keys = list(opts)
    subsets = [[k for i, k in enumerate(keys) if m >> i & 1] for m in range(2 ** len(keys))]
    for sub in subsets:
        if name == "count" and not sub:
            continue
        for spelled in (name, name.upper(), name.title()):
            if spelled != name and len(sub) not in (0, len(keys)):
                continue
            I = ck.interp()
            f = ck.public(I, "estimators", "convergence_criterion")
            cls = ck.public(I, "estimators", cname)
            vals, full = {}, {}
            conf = None
            for k in keys:
                if k in sub:
                    s = isym(k, 0) if k == "count" else (sym(fresh_name(k), lo=0) if k == "confidence" else fsym(k))
                    if k == "confidence":
                        conf = s
                    vals[k] = full[k] = N(s) if k == "count" else F(s)
                    if k == "ord":
                        vals[k] = full[k] = F(P(1))
                else:
                    full[k] = F(P(opts[k]))
            extra = {"unrelated_option": N(7)}
            other = {"S": F(fsym("S"))} if name != "knee" else {"count": N(3)}
            tag = f"{spelled}({', '.join(sub)})"

            def go(spell, kw, direct):
                if conf is not None:
                    I.assume_true(gt(conf))
                    I.assume_true(gt(ONE - conf))
                return I.call(cls, [], kw) if direct else I.call(f, [spell], kw)
            want, ex1 = I.run(lambda: go(None, full, True))
            for ext in ({}, extra, other):
                got, ex2 = I.run(lambda: go(spelled, {**vals, **ext}, False))
                t = tag + (f" with irrelevant {', '.join(ext)}" if ext else "")
                tr = [gt(conf), gt(ONE - conf)] if conf is not None else []
                ck.no_raise("accepted", where, ex2, t, truths=tr)
                if got is MISSING or want is MISSING:
                    ck.bad("accepted", where, t)
                    continue
                st = crit_state(ck, I, name)
                a, _ = I.run(lambda: I.call(got, [st], {}))
                b, _ = I.run(lambda: I.call(want, [st], {}))
                if a is MISSING or b is MISSING:
                    ck.undecided("configured", where, t)
                    continue
                ck.zero("configured", where, I.truth(a) - I.truth(b), detail=f"{t}: decides like {cname} with these options and documented defaults", truths=tr)


def c08_rest(ck, where):
    I = ck.interp()
    f = ck.public(I, "estimators", "convergence_criterion")
    base = ck.public(I, "estimators", "ConvergenceCriterion")
    pr, b = opaque_test("a", [])
    for cname in ("ConvergenceCriterion", "CountCriterion", "ToleranceCriterion", "ConfidenceCriterion", "KneeCriterion"):
        cls = ck.public(I, "estimators", cname)
        o, _ = I.run(lambda: I.call(cls, [pr] if cname == "ConvergenceCriterion" else ([N(3)] if cname == "CountCriterion" else []), {}))
        flds = dict(I.heap[o.id].fields)
        for kw in ({}, {"atol": F(fsym("a")), "count": N(9)}):
            r, ex = I.run(lambda: I.call(f, [o], kw))
            ck.no_raise("pass-through", where, ex, cname)
            ck.require("pass-through", where, r == o and all(veq(I.heap[o.id].fields.get(k), v) for k, v in flds.items()), f"{cname} object is not returned unchanged")
    for bad in ("", "counts", "unknown", "tol", "convergence", N(5), None):
        r, ex = I.run(lambda: I.call(f, [bad], {}))
        ck.require("unknown-rejected", where, r is MISSING and bool(raising(ex)), f"name {bad!r} is accepted")


# -------------------------------------------------------------------------------------------------------------------- C29
@prop("C29", "The interval of an arbitrary sample (symbolic size, contents and confidence) is compared, limit by limit, with mean -+ quantile "
      "times standard error as normal forms; invalid confidence levels and distributions must raise on every path.")
def c29(ck):
    where = "primate.stats.confidence_interval"
    for dist in ("t", "normal", None):
        ck.attempt("interval", where, lambda: c29_case(ck, dist, where))
    ck.attempt("interval", where, lambda: c29_bad(ck, where))


def c29_case(ck, dist, where):
    for how in ("array", "float32 array", "list"):
        I = ck.interp()
        f = ck.public(I, "stats", "confidence_interval")
        n = isym("n", 2) if how != "list" else P(3)
        conf = sym(fresh_name("conf"), lo=0)
        a, x = arr(I, "a", (n,), dtype="float32" if "32" in how else "float64")
        if how == "list":
            a = I.mklist([F(x(k)) for k in range(3)])
        kw = {} if dist is None else {"sdist": dist}
        tag = f"sdist={dist or 'default'}, {how}"

        def go():
            r, ex = I.run(lambda: I.call(f, [a, F(conf)], kw))
            ck.no_raise("accepted", where, ex, tag)
            if r is MISSING:
                return ck.bad("accepted", where, tag)
            mean = S(x, n) / n
            se = power(S(lambda b: (x(b) - mean) * (x(b) - mean), n) / (n - 1), Fr(1, 2)) / power(n, Fr(1, 2))
            q = (conf + 1).scale(Fr(1, 2))
            h = (fun("normppf", q) if dist == "normal" else fun("tppf", q, n - 1)) * se
            if not (isinstance(r, tuple) and len(r) == 2):
                r = tuple(I.sequence(r, 2))
            ck.same("lower-limit", where, I, r[0], F(mean - h), detail=tag)
            ck.same("upper-limit", where, I, r[1], F(mean + h), detail=tag)
        with_facts([ONE - conf], go)
    # default confidence
    I = ck.interp()
    f = ck.public(I, "stats", "confidence_interval")
    n = isym("n", 2)
    a, x = arr(I, "a", (n,))
    r, ex = I.run(lambda: (I.call(f, [a], {} if dist is None else {"sdist": dist}), I.call(f, [a, F(P(Fr(95, 100)))], {} if dist is None else {"sdist": dist})))
    if r is not MISSING:
        ck.same("default-confidence", where, I, r[0], r[1], detail=f"sdist={dist}")


def c29_bad(ck, where):
    def case(rule, tag, conf, kw, facts=()):
        I = ck.interp()
        f = ck.public(I, "stats", "confidence_interval")
        n = isym("n", 2)
        a, x = arr(I, "a", (n,))
        _, ex = with_facts(list(facts), lambda: I.run(lambda: I.call(f, [a, conf], kw)))
        rejected(ck, rule, where, ex, tag, facts)
    for d in ("t", "normal"):
        c = sym(fresh_name("c"), lo=0)
        case("confidence-rejected", f"confidence above one with sdist={d}", F(c), {"sdist": d}, [c - 2])
        c = fsym("c")
        case("confidence-rejected", f"negative confidence with sdist={d}", F(c), {"sdist": d}, [-c - 1])
    for bad in ("uniform", "", "T "):
        case("distribution-rejected", f"sdist={bad!r}", F(P(Fr(1, 2))), {"sdist": bad})
    case("confidence-rejected", "a string confidence", "0.5", {})
