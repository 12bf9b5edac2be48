"""Estimation loops: sampling, stopping, results, callbacks (C13, C16 first half, C17, C18)."""
from .. import npm, poly, witness
from ..chk import prop
from ..interp import Exit
from ..lib import *
from ..values import *
from ..npfun import Rng
from ..loops import ONE_

CRITS = ("CountCriterion", "ToleranceCriterion", "ConfidenceCriterion", "KneeCriterion")


class Scene:
    """One analysed run of an iterative estimator.

    The mean estimator is replaced by an abstract one (its own correctness is C01/C02): it counts the samples and the
    updates it receives, and its estimate after k updates is an unknown function of k.  Elementary criteria are unknown
    functions of their configuration and of the estimator's history, isotropic samplers record what they are asked for."""

    def __init__(self, ck, unroll=None, lets=None, concrete=()):
        self.ck, self.spec, self.current = ck, None, None
        self.I = I = ck.interp()
        if unroll is not None:
            I.while_mode = ("unroll", unroll)
        if lets:
            I.let_at = lets
        self.est_cls = ck.public(I, "estimators", "MeanEstimator")
        for m in ("__init__", "update", "estimate"):
            ck.member(self.est_cls, m)
        q = "estimators.MeanEstimator"
        I.hooks[q + ".__init__"] = self.h_init
        I.hooks[q + ".update"] = self.h_update
        I.hooks[q + ".estimate"] = self.h_estimate
        I.hooks[q + ".mean"] = self.h_estimate
        for c in CRITS:
            if c in concrete:
                continue
            I.hooks[f"estimators.{c}.__call__"] = self.h_crit
        I.hooks["random.isotropic"] = self.h_iso
        ck.public(I, "random", "isotropic")
        ck.public(I, "estimators", "convergence_criterion")

    # ------------------------------------------------------------------------------------------------------ abstract parts
    def h_init(self, I, f, args, kw):
        env = I.bind_args(f, args, kw)
        o = env["self"]
        dim = P_of(env.get("dim", 1))
        nm = fresh_name("estimate")
        tensor(nm, (None,) if dim == ONE else (None, dim))
        dl = fresh_name("lastchange")
        tensor(dl, (None, None))
        rec = env.get("record")
        I.heap[o.id] = ObjC(I.heap[o.id].cls, {
            "%name": nm, "%delta": dl, "%updates": N(ZERO), "%dim": N(dim), "%cov": env.get("covariance"), "%record": rec,
            "n_samples": N(ZERO), "values": Unk("recorded values"), "delta": Unk("last change")})
        cov = I.truth(env.get("covariance", False))
        if isinstance(cov, Poly) and cov.is_const() and cov.cval():
            self.fields(o)["_cov"] = self.covariance(o, dim)
        if self.current is None:
            self.current = o
        I.event("estimator", obj=o, dim=dim, covariance=env.get("covariance"), record=rec)
        return None

    def fields(self, o):
        return self.I.heap[o.id].fields

    def covariance(self, o, dim):
        """The running covariance of an estimator: an unknown function of its history."""
        cv, mu = fresh_name("covariance"), fresh_name("covmean")
        tensor(cv, (None,) if dim == ONE else (None, dim, dim))
        tensor(mu, (None,) if dim == ONE else (None, dim))

        def k():
            return P_of(self.fields(o)["%updates"])

        def cov(I, *a, **kw):
            return Sc(el(cv, (k(),)), "np") if dim == ONE else npm.build(I, (dim, dim), lambda iv: el(cv, (k(), *iv)))

        def mean(I, *a, **kw):
            return self.estimate(I, mu, dim, k())
        return ObjM("covariance", covariance=PrimV("covariance", cov), mean=PrimV("mean", mean))

    def h_update(self, I, f, args, kw):
        env = I.bind_args(f, args, kw)
        if not (isinstance(env["self"], ORef) and "%name" in self.fields(env["self"])):
            return NotImplemented
        return I.lift(lambda x: self.one_update(I, env["self"], x), merge(I, env["x"]))

    def one_update(self, I, o, x):
        fs = dict(self.fields(o))
        dim = fs["%dim"]
        rows, samples = self.samples(I, x, P_of(dim))
        k = P_of(fs["%updates"])
        held = self.holds(self.current if self.current is not None else o)
        self.current = o
        I.event("update", est=o, x=freeze(I, x), rows=rows, samples=samples, k=k, est_name=fs["%name"], dim=P_of(dim), held=held)
        fs["%updates"] = N(k + 1)
        fs["n_samples"] = N(P_of(fs["n_samples"]) + rows) if rows is not None else Unk("samples of unknown shape")
        I.heap[o.id] = ObjC(I.heap[o.id].cls, fs)
        return None

    def holds(self, est):
        """The configured criterion on the estimator's present state."""
        if self.spec is None or est is None:
            return None
        I = self.I
        mark, seq = len(I.events), I.seq
        v = I.truth(I.call(self.spec, [est], {}))
        del I.events[mark:]
        return I.norm(v)

    def samples(self, I, x, dim):
        """(number of samples, sample(c, d)) of what is handed to the estimator, under its documented conventions."""
        x = merge(I, x)
        p = P_of(x)
        if p is not None:
            return ONE, (lambda c, d: p) if dim == ONE else None
        if isinstance(x, (tuple, LRef)):
            try:
                x = npm.asarr(I, x)
            except Undecided:
                return None, None
        if not isinstance(x, ARef):
            return None, None
        e = content(I, x)
        if len(x.dims) == 0:
            return ONE, lambda c, d: e()
        if len(x.dims) == 1:
            return x.dims[0], (lambda c, d: e(c)) if dim == ONE else None
        if len(x.dims) == 2 and (x.dims[1] == dim or poly.is_zero(x.dims[1] - dim)):
            return x.dims[0], lambda c, d: e(c, d)
        return None, None

    def h_estimate(self, I, f, args, kw):
        o = args[0]
        fs = self.fields(o)
        if "%name" not in fs:
            return NotImplemented
        k, dim, nm = P_of(fs["%updates"]), P_of(fs["%dim"]), fs["%name"]
        return self.estimate(I, nm, dim, k)

    def estimate(self, I, nm, dim, k):
        if dim == ONE:
            return Sc(el(nm, (k,)), "np")
        return npm.build(I, (dim,), lambda iv: el(nm, (k, iv[0])))

    def h_crit(self, I, f, args, kw):
        crit, est = args[0], args[1]
        if not (isinstance(est, ORef) and isinstance(crit, ORef) and "%name" in self.fields(est)):
            return NotImplemented
        cf = self.fields(crit)
        key = tuple((k, npm.akey(I, cf[k])) for k in sorted(cf))
        fs = self.fields(est)
        b = poly.opaque_bool("verdict", I.heap[crit.id].cls.name if hasattr(I.heap[crit.id].cls, "name") else I.heap[crit.id].cls.qual,
                             key, fs["%name"], P_of(fs["%updates"]))
        I.event("criterion", est=est, k=P_of(fs["%updates"]), name=I.heap[crit.id].cls.qual, crit=crit)
        return Sc(b, "bool")

    def h_iso(self, I, f, args, kw):
        env = I.bind_args(f, args, kw)
        pdf, seed = env.get("pdf"), env.get("seed")
        I.event("isotropic", pdf=pdf, seed=seed)
        if env.get("out") is not None:
            return NotImplemented
        s = self.sampler(pdf, seed, rng=seed if isinstance(seed, Rng) else npm.MODELS["numpy.random.default_rng"](I, seed))
        if env.get("size") is None:
            return s
        return I.call(s, [env["size"]], {})

    def sampler(self, pdf, seed, user=False, rng=None):
        def f(I, size):
            if isinstance(size, (tuple, LRef)):
                dims = tuple(npm.shape_of(I, tuple(I.sequence(size))))
            else:
                dims = tuple(npm.shape_of(I, size)) + (() if user else (ONE,))
            nm, e = I.fresh("probe", dims, info=(pdf, seed))
            if pdf == "sphere" and not user:
                poly.TENSORS[nm].sq = dims[0]
            a = npm.build(I, dims, lambda iv: e(iv))
            I.event("probe", pdf=pdf, seed=seed, dims=dims, e=e, user=user, name=nm, rng=rng)
            return a
        return PrimV("sampler", f)

    # ------------------------------------------------------------------------------------------------------------ user side
    def user_criterion(self):
        """A caller's own criterion: an unknown function of the estimator's history; returns (object, verdict of (name, k))."""
        nm = fresh_name("stop")

        def f(I, est):
            if not (isinstance(est, ORef) and "%name" in self.fields(est)):
                I.event("criterion", est=est, k=None, name=nm, crit=None)
                return Sc(poly.opaque_bool("unk", fresh_name("verdict on something else")), "bool")
            fs = self.fields(est)
            k = P_of(fs["%updates"])
            I.event("criterion", est=est, k=k, name=nm, crit=None)
            return Sc(poly.opaque_bool("verdict", nm, fs["%name"], k), "bool")
        env = user(self.I, "from primate.estimators import ConvergenceCriterion\nclass Stop(ConvergenceCriterion):\n\tdef __init__(self):\n\t\tpass\n"
                   "\tdef __call__(self, est):\n\t\treturn oracle(est)\n\tdef message(self, est):\n\t\treturn 'the stop message'\nc = Stop()\n", oracle=PrimV("oracle", f))
        return env["c"]

    def callback(self):
        def f(I, result):
            fs = {k: (freeze(I, v) if isinstance(v, (ARef, tuple)) else v) for k, v in I.heap[result.id].fields.items()} if isinstance(result, ORef) else None
            I.event("callback", result=result, fields=fs)
            return None
        return PrimV("callback", f)

    def at(self, state, fn):
        """Evaluates fn in a recorded state."""
        I = self.I
        saved, g = I.take(), I.guard
        I.put(state)
        try:
            return fn()
        finally:
            I.put(saved)
            I.guard = g




def lead(e, n):
    """The innermost n loop counters of an event."""
    return tuple(l[0] for l in e.loops[:n])


class Run:
    """The observations one analysed run leaves behind."""


def observe(ck, mod, fn, op, n, *, crit="user", full=True, cb=False, unroll=None, lets=None, pdf=None, opts=(), spec=None, attrs=None, truths=(), concrete=(), same_quad=False):
    """Analyses one call of an estimator; crit: 'user' (opaque object), None (default), or a (name, options) pair."""
    sc = Scene(ck, unroll, lets, concrete)
    I = sc.I
    f = ck.public(I, mod, fn)
    o = Run()
    o.sc, o.I, o.n = sc, I, n
    kw = dict(opts)
    o.A = operator(I, op, n, **(attrs or {}))
    if same_quad and op == "quad":
        o.A.q = o.A.nm
    if pdf == "user":
        kw["pdf"] = sc.sampler("user", None, user=True)
    elif pdf is not None:
        kw["pdf"] = pdf
    o.seed = N(isym("seed", 0))
    kw["seed"] = o.seed

    def go():
        if crit == "user":
            kw["converge"] = sc.user_criterion()
            sc.spec = kw["converge"]
        elif crit is not None:
            kw["converge"] = crit[0]
            kw.update(crit[1])
        if spec is not None:
            sc.spec = spec(sc, kw.get("converge"))
        if cb:
            kw["callback"] = sc.callback()
        if full is not None:
            kw["full"] = full
        sc.current = None
        for t in truths:
            I.assume_true(t)
        r = I.call(f, [o.A], kw)
        o.guard = I.full_guard()
        o.final = sc.holds(sc.current)
        o.state = I.take()
        return r
    o.kw = kw
    o.r, o.ex = I.run(go)
    o.updates = [e for e in I.events if e.kind == "update"]
    o.probes = [e for e in I.events if e.kind == "probe"]
    o.calls = [e for e in I.events if e.kind == "callback"]
    o.recs = I.loop_records
    o.guard = getattr(o, "guard", ONE)
    for rec in o.recs:
        if rec.N is not None and rec.cond is not None and all(ATOMS[a].kind == "bl" and ATOMS[a].args[0] == "verdict" for a in poly.indicators(rec.cond)):
            for a in poly.atoms_of(rec.N):
                if ATOMS[a].kind == "sym" and ATOMS[a].args[0].startswith("iters"):
                    witness.ALLOWED.add(ATOMS[a].args[0])
    return o


def quad_form(o, op, col):
    """The quadratic form the operator defines at the vector col(i)."""
    n = o.n
    if op == "quad":
        m = lambda i, j: el(o.A.q, (i, j))
        tensor(o.A.q, (n, n))
    elif op == "array":
        e = content(o.I, o.A)
        m = lambda i, j: e(i, j)
    else:
        m = o.A.el
    return S(lambda i: S(lambda j: col(i) * m(i, j) * col(j), n), n)


def row_form(o, op, col, d):
    n = o.n
    if op == "array":
        e = content(o.I, o.A)
    else:
        e = o.A.el
    return S(lambda j: e(d, j) * col(j), n)


def probe_of(ck, o, u, rule, where, tag):
    """The one probe block drawn for the iteration of an update."""
    base = lambda e: tuple(l[2] for l in e.loops)
    prev = max([v.seq for v in o.updates if v.seq < u.seq and base(v)[:1] == base(u)[:1] and not exclusive(v, u)], default=0)
    ps = [p for p in o.probes if p.seq < u.seq and p.seq > prev and not exclusive(p, u)]
    if len(ps) != 1:
        if not ps:
            # the probe may have been drawn before the loop: then it is not fresh
            if o.probes and all(len(p.loops) < len(u.loops) and p.seq < u.seq for p in o.probes) and u.loops:
                ck.bad(rule, where, f"{tag}: the probes used at {u.pos[0]}:{u.pos[1]} are drawn once, outside the sampling loop (at {o.probes[0].pos[0]}:{o.probes[0].pos[1]})")
                return None
        ck.undecided(rule, where, f"{tag}: {len(ps)} probe blocks for the update at {u.pos[0]}:{u.pos[1]}")
        return None
    p = ps[0]
    if base(p) != base(u)[:len(base(p))]:
        ck.undecided(rule, where, f"{tag}: probes drawn in an inner loop")
        return None
    if u.loops and not p.loops:
        ck.bad(rule, where, f"{tag}: the probes used at {u.pos[0]}:{u.pos[1]} are drawn once, outside the sampling loop")
        return None
    return p


def exclusive(a, b):
    """Two events on alternative paths."""
    try:
        return not (a.guard * b.guard).t
    except poly.TooBig:
        return False


def alternatives(o):
    """Updates grouped into steps: the alternatives of one step exclude each other."""
    out = []
    for u in o.updates:
        if out and all(exclusive(u, v) for v in out[-1]):
            out[-1].append(u)
        else:
            out.append([u])
    return out


def same_iteration(ck, o, us, p, rule, where, tag):
    """An update and a probe block happen under the same condition."""
    ck.zero(rule, where, sum((u.guard for u in us), ZERO) - p.guard, detail=f"{tag}: probes are drawn and used in the same iterations")


def name_of_pdf(x):
    return x if isinstance(x, str) else repr(x)


ALIASES = {"signs": "rademacher", "gaussian": "normal"}


def check_streams(ck, o, p, where, tag):
    """No two probe blocks are drawn from generators seeded alike."""
    if not isinstance(p.rng, Rng) or p.rng.key[0] != "seed":
        return
    own = [l[2] for l in p.loops]
    inner = [r for r in p.rng.born if r in own]
    if inner:
        return ck.bad("fresh-probe", where, f"{tag}: the generator of the probes drawn at {p.pos[0]}:{p.pos[1]} is seeded alike in every iteration")
    for q in o.probes if o is not None else ():
        if q.seq < p.seq and isinstance(q.rng, Rng) and q.rng is not p.rng and q.rng.key == p.rng.key and not exclusive(p, q):
            return ck.bad("fresh-probe", where, f"{tag}: the probes drawn at {p.pos[0]}:{p.pos[1]} and {q.pos[0]}:{q.pos[1]} come from generators seeded alike")
    ck.ok("fresh-probe", where, f"{tag}: generator of the probes")


def check_probe(ck, o, p, pdf, where, tag, default):
    check_streams(ck, o, p, where, tag)
    want = pdf if pdf is not None else default
    if want == "user":
        ck.require("probe-law", where, p.user, f"{tag}: probes come from {name_of_pdf(p.pdf)}, not from the caller's sampler")
    elif p.user or not isinstance(p.pdf, str):
        ck.undecided("probe-law", where, f"{tag}: sampler {p.pdf!r}")
    else:
        ck.require("probe-law", where, ALIASES.get(p.pdf, p.pdf) == ALIASES.get(want, want), f"{tag}: probes are {p.pdf}, not {want}")


# -------------------------------------------------------------------------------------------------------------------- C13
def hutch_cases():
    for op in ("array", "operator", "quad"):
        for full, cb in ((False, False), (True, False), (False, True), (True, True)):
            for pdf in (None, "rademacher", "normal", "sphere", "user"):
                if pdf in ("normal", "sphere") and (cb or op == "operator"):
                    continue
                yield op, full, cb, pdf


@prop("C13", "The Hutchinson estimator is analysed with a symbolic dimension, operator and batch size and an arbitrary number of iterations "
      "(loop summary from an unknown loop-head state): every sample handed to the mean estimator must be, entrywise, the bilinear form of the operator "
      "(or the operator's own quadratic form) at the column of the probe block drawn in that iteration, as many samples as columns, "
      "the probes must come from the requested law, and the returned value must be the estimate of that estimator after the last update.")
def c13(ck):
    where = "primate.trace.hutch"
    for op, full, cb, pdf in hutch_cases():
        ck.attempt("samples", where, lambda: c13_case(ck, where, op, full, cb, pdf))
    for op in ("array", "operator", "quad"):
        for full in (False, True):
            ck.attempt("samples", where, lambda: c13_case(ck, where, op, full, False, None, K=2))
            if op != "quad":
                ck.attempt("samples", where, lambda: c13_case(ck, where, op, full, False, "user", attrs={"dtype": "float32"}))
                ck.attempt("samples", where, lambda: c13_case(ck, where, op, full, False, "normal", record=True))
            ck.attempt("empty-operator", where, lambda: c13_empty(ck, where, op, full))


def ret_estimate(o, r=MISSING):
    r = o.r if r is MISSING else r
    return r[0] if isinstance(r, tuple) else r


def c13_case(ck, where, op, full, cb, pdf, K=None, attrs=None, record=False):
    n, b = isym("n"), isym("batch")
    tag = f"{op}, full={full}, callback={cb}, pdf={pdf or 'default'}" + (f", {K} iterations" if K else "") + (f", {attrs['dtype']}" if attrs else "") + (", recording" if record else "")
    o = observe(ck, "trace", "hutch", op, n, full=full, cb=cb, pdf=pdf, opts={"batch": N(b), **({"record": True} if record else {})}.items(), unroll=K, attrs=attrs)
    I = o.I
    ck.no_raise("accepted", where, o.ex, tag)
    if o.r is MISSING:
        return ck.bad("accepted", where, f"{tag}: no result")
    steps = alternatives(o)
    if not steps or (K is None and (len(steps) != 1 or not all(u.loops for u in steps[0]))):
        return ck.undecided("samples", where, f"{tag}: {len(o.updates)} updates")
    for us in steps:
        ps = [probe_of(ck, o, u, "fresh-probe", where, tag) for u in us]
        for u, p in zip(us, ps):
            if p is None:
                return
            check_probe(ck, o, p, pdf, where, tag, "rademacher")
            check_samples(ck, o, u, p, where, tag, lambda e, c: quad_form(o, op, lambda i: e((i, c) if len(p.dims) == 2 else (i,))))
        for p in {id(p): p for p in ps}.values():
            same_iteration(ck, o, [u for u, q in zip(us, ps) if q is p], p, "fresh-probe", where, tag)
    ret = ret_estimate(o)
    u = steps[-1][-1]
    p = ps[-1]
    kf = P_of(o.state.heap[u.est.id].fields["%updates"])
    ck.same("mean-of-all-samples", where, I, merge(I, ret), o.sc.estimate(I, u.est_name, ONE, kf), guard=o.guard, detail=f"{tag}: returned estimate")
    inner = len(u.loops) - len(p.loops)
    total = (P(K) if K is not None else u.loops[0][1]) * (u.loops[-1][1] if inner else ONE)
    ck.zero("mean-of-all-samples", where, o.guard * (kf - total), detail=f"{tag}: updates received by the estimator that is returned")


def check_samples(ck, o, u, p, where, tag, form, fresh=True):
    if u.rows is None or u.samples is None:
        return ck.undecided("samples", where, f"{tag}: samples of shape {getattr(u.x, 'dims', u.x)}")
    ck.eq("samples", where, p.dims[0], o.n, detail=f"{tag}: probe length")
    cols = p.dims[1] if len(p.dims) == 2 else ONE
    extra = u.loops[len(p.loops):]
    if not extra:
        c = fresh_index(cols)
        ck.zero("one-sample-per-probe", where, u.guard * (u.rows - cols), detail=f"{tag}: samples against probes drawn")
        ck.zero("samples", where, u.samples(c, ZERO) - form(p.e, c), detail=f"{tag}: sample against the quadratic form at its probe")
    elif len(extra) == 1 and u.rows == ONE:
        ck.zero("one-sample-per-probe", where, u.guard * (extra[0][1] - cols), detail=f"{tag}: samples against probes drawn")
        ck.zero("samples", where, u.samples(ZERO, ZERO) - form(p.e, extra[0][0]), detail=f"{tag}: sample against the quadratic form at its probe")
    else:
        ck.undecided("samples", where, f"{tag}: nested sampling loops")


def c13_empty(ck, where, op, full):
    o = observe(ck, "trace", "hutch", op, ZERO, full=full)
    tag = f"{op}, full={full}, empty operator"
    ck.no_raise("empty-operator", where, o.ex, tag)
    r = ret_estimate(o)
    ck.same("empty-operator", where, o.I, r if r is not MISSING else Unk("none"), F(ZERO), detail=tag)


# -------------------------------------------------------------------------------------------------------------------- C17
def build_crit(name, **kw):
    return lambda sc, _c: user(sc.I, f"from primate.estimators import {name.split('(')[0]}\nr = {name}")["r"]


HUTCH_DEFAULT = "from primate.estimators import CountCriterion, ConfidenceCriterion\nr = CountCriterion(200) | ConfidenceCriterion(confidence=0.95, atol=1.0, rtol=0.0)"


def named_spec(name, opts):
    def f(sc, _c):
        c = sc.ck.public(sc.I, "estimators", "convergence_criterion")
        return sc.I.call(c, [name], dict(opts))
    return f


def crit_cases(fn):
    yield "user criterion", "user", None, ()
    for name, opts in (("count", ("count",)), ("tolerance", ()), ("tolerance", ("rtol", "atol")), ("tolerance", ("ord",)), ("confidence", ()),
                       ("confidence", ("confidence",)), ("confidence", ("atol", "rtol")), ("knee", ("S",))):
        ov = {k: (N(isym(k, 1)) if k == "count" else F(sym(fresh_name(k), lo=0))) for k in opts}
        tr = [t for k in opts if k == "confidence" for t in (gt(P_of(ov[k])), gt(ONE - P_of(ov[k])))]
        yield f"{name}({', '.join(opts)})", (name, ov), named_spec(name, ov), tr
    if fn == "hutch":
        yield "default", None, lambda sc, _c: user(sc.I, HUTCH_DEFAULT)["r"], ()
    elif fn == "diag":
        yield "default", None, named_spec("tolerance", {}), ()


@prop("C17", "The stopping condition of every sampling loop is computed from an arbitrary iteration (loop summaries for Hutchinson and the diagonal "
      "estimator, bounded unrolling for XTrace) with elementary criteria as unknown functions of their configuration and of the estimator's "
      "history: the condition under which an update happens must exclude the configured criterion holding before it, and the criterion must "
      "hold in the state in which the estimator returns. User objects, every named criterion with caller options, and the documented defaults.")
def c17(ck):
    for mod, fn in (("trace", "hutch"), ("diagonal", "diag")):
        where = f"primate.{mod}.{fn}"
        for op in ("array", "operator") + (("quad",) if fn == "hutch" else ()):
            for full, cb in ((False, False), (True, False), (False, True), (True, True)):
                for what, crit, spec, tr in crit_cases(fn):
                    if op != "array" and what not in ("user criterion", "default"):
                        continue
                    ck.attempt("stops-exactly", where, lambda: c17_case(ck, where, mod, fn, op, full, cb, what, crit, spec, tr))
                    if what == "user criterion" and op != "quad":
                        ck.attempt("stops-exactly", where, lambda: c17_case(ck, where, mod, fn, op, full, cb, what, crit, spec, tr, K=2, record=True))
                        ck.attempt("stops-exactly", where, lambda: c17_case(ck, where, mod, fn, op, full, cb, what, crit, spec, tr, attrs={"dtype": "float32"}, record=True))
    where = "primate.trace.xtrace"
    for full, cb in ((False, False), (True, True)):
        for what, crit, spec, tr in crit_cases("xtrace"):
            for b in (1, 2):
                if b == 2 and what != "user criterion":
                    continue
                ck.attempt("stops-exactly", where, lambda: c17_xtrace(ck, where, full, cb, what, crit, spec, b, tr))
                if what == "user criterion":
                    ck.attempt("stops-exactly", where, lambda: c17_xtrace(ck, where, full, cb, what, crit, spec, b, tr, record=True))


def c17_case(ck, where, mod, fn, op, full, cb, what, crit, spec, tr, K=None, attrs=None, record=False):
    n = isym("n")
    tag = f"{op}, full={full}, callback={cb}, {what}" + (f", {K} iterations" if K else "") + (f", {attrs['dtype']}" if attrs else "") + (", recording" if record else "")
    o = observe(ck, mod, fn, op, n, crit=crit, full=full, cb=cb, spec=spec, truths=tr, unroll=K, attrs=attrs, opts={"record": True}.items() if record else ())
    # (a vector-valued estimator keeps no covariance: see KNOWN_FINDINGS)
    ck.no_raise("accepted", where + (" with converge='confidence'" if what.startswith("confidence") else ""), o.ex, tag, truths=tr)
    if o.r is MISSING or not o.updates:
        return ck.undecided("stops-exactly", where, f"{tag}: no update seen")
    stop_obligations(ck, o, where, tag, truths=tr)
    est = [e for e in o.I.events if e.kind == "estimator"]
    for u in o.updates:
        ck.require("same-estimator", where, any(e.obj is u.est or veq(e.obj, u.est) for e in est), f"{tag}: updated estimator")


def stop_obligations(ck, o, where, tag, truths=()):
    I = o.I
    for u in o.updates:
        ck.zero("no-update-after-it-holds", where, u.guard * u.held, truths=truths, detail=f"{tag}: update at {u.pos[0]}:{u.pos[1]} while the criterion holds")
    for rec in o.recs:
        if not any(l[2] is rec for u in o.updates for l in u.loops):
            continue
        for g, st in rec.breaks + rec.returns:
            v = o.sc.at(st, lambda: o.sc.holds(o.sc.current))
            ck.zero("holds-when-leaving", where, g * (ONE - v), truths=truths, detail=f"{tag}: leaving the loop at {rec.pos[0]}:{rec.pos[1]}")
    if o.final is None:
        return ck.undecided("holds-when-leaving", where, f"{tag}: final state")
    ck.zero("holds-when-leaving", where, o.guard * (ONE - o.final), truths=truths, detail=f"{tag}: criterion in the returned state")


def c17_xtrace(ck, where, full, cb, what, crit, spec, b, tr, record=False):
    n = isym("n", 7)
    tag = f"full={full}, callback={cb}, {what}, batch {b}" + (", recording" if record else "")
    opts = {"batch": b, **({"record": True} if record else {})}.items()

    def sp(sc, c):
        inner = c if crit == "user" else spec(sc, c)
        return user(sc.I, "from primate.estimators import CountCriterion\nr = CountCriterion(n) | c", n=N(n), c=inner)["r"]
    for K in (1, 2, 3):
        o = observe(ck, "trace", "xtrace", "array", n, crit=crit, full=full, cb=cb, spec=sp, unroll=K, lets=3, opts=opts, truths=tr)
        t = f"{tag}, stopping after {K} batches"
        ck.no_raise("accepted", where, o.ex, t, truths=tr)
        if o.r is MISSING or not o.updates:
            ck.undecided("stops-exactly", where, f"{t}: no update seen")
            break
        stop_obligations(ck, o, where, t, truths=tr)
        if what != "user criterion":
            break
    # all of the columns have been used: the loop ends whatever the criterion says
    def sp0(sc, c):
        inner = c if crit == "user" else spec(sc, c)
        return user(sc.I, "from primate.estimators import CountCriterion\nr = CountCriterion(2) | c", c=inner)["r"]
    if what in ("user criterion", "tolerance()"):
        o = observe(ck, "trace", "xtrace", "array", P(2), crit=crit, full=full, cb=cb, spec=sp0, unroll=4, lets=3, opts=opts, concrete=("CountCriterion",))
        ck.no_raise("accepted", where, o.ex, tag + ", 2 columns")
        if o.r is MISSING or not o.updates:
            return ck.undecided("stops-exactly", where, f"{tag}, 2 columns: no update seen")
        stop_obligations(ck, o, where, tag + ", 2 columns")
        ck.require("at-most-all-columns", where, len(o.updates) == 2 // b, f"{tag}: {len(o.updates)} batches of {b} for 2 columns")


# -------------------------------------------------------------------------------------------------------------------- C18
@prop("C18", "Every estimator is analysed with full output and with a callback: the fields of the result object handed to the callback are compared, "
      "in an arbitrary iteration, with the estimator's estimate right after that iteration's update; the number of callback invocations per "
      "update must be one; the fields of the returned result are compared with the returned estimate, the number of updates, the estimator that "
      "was updated and the criterion that was tested.")
def c18(ck):
    for mod, fn in (("trace", "hutch"), ("diagonal", "diag"), ("trace", "xtrace")):
        where = f"primate.{mod}.{fn}"
        for op in ("array", "operator") + (("quad",) if fn == "hutch" else ()):
            for full, cb in ((True, False), (True, True), (False, True), (None, True)):
                for crit in ("user", None):
                    ck.attempt("result", where, lambda: c18_case(ck, where, mod, fn, op, full, cb, crit))
                if op != "quad":
                    ck.attempt("result", where, lambda: c18_one(ck, where, mod, fn, op, full, cb, "user", 2, record=True))
                    ck.attempt("result", where, lambda: c18_one(ck, where, mod, fn, op, full, cb, "user", 2, attrs={"dtype": "float32"}))
            if fn != "xtrace":
                ck.attempt("empty-operator", where, lambda: c18_empty(ck, where, mod, fn, op))


def c18_empty(ck, where, mod, fn, op):
    """Full output for the empty operator: nothing iterated, and the result carries what is returned."""
    o = observe(ck, mod, fn, op, ZERO, crit="user", full=True)
    tag = f"{op}, empty operator"
    ck.no_raise("empty-operator", where, o.ex, tag)
    if not (isinstance(o.r, tuple) and len(o.r) == 2 and isinstance(o.r[1], ORef)):
        return ck.undecided("empty-operator", where, f"{tag}: {o.r!r}")
    fs = o.state.heap[o.r[1].id].fields
    ck.same("empty-operator", where, o.I, merge(o.I, fs.get("estimate", Unk("missing"))), merge(o.I, o.r[0]), guard=o.guard, detail=f"{tag}: result.estimate")
    ck.same("empty-operator", where, o.I, merge(o.I, fs.get("nit", Unk("missing"))), N(ZERO), guard=o.guard, detail=f"{tag}: iterations reported")


def c18_case(ck, where, mod, fn, op, full, cb, crit):
    if fn == "xtrace":
        for K in (1, 2):
            c18_one(ck, where, mod, fn, op, full, cb, crit, K)
    else:
        c18_one(ck, where, mod, fn, op, full, cb, crit, None)


def c18_one(ck, where, mod, fn, op, full, cb, crit, K, record=False, attrs=None):
    n = isym("n", 5)
    tag = f"{op}, full={full}, callback={cb}, converge={crit or 'default'}" + (f", {K} iterations" if K else "") + (f", {attrs['dtype']}" if attrs else "") + (", recording" if record else "")
    o = observe(ck, mod, fn, op, n, crit=crit, full=full, cb=cb, unroll=K, lets=3 if K and fn == "xtrace" else None, attrs=attrs,
                opts={**({"batch": 2} if fn == "xtrace" else {}), **({"record": True} if record else {})}.items())
    G = o.guard
    I = o.I
    ck.no_raise("accepted", where, o.ex, tag)
    if o.r is MISSING or not o.updates:
        return ck.undecided("result", where, f"{tag}: no update seen")
    dim = o.updates[0].dim
    # callbacks
    if cb:
        todo = list(o.calls)
        for u in o.updates:
            nxt = min([v.seq for v in o.updates if v.seq > u.seq], default=10 ** 9)
            mine = [c for c in todo if u.seq < c.seq < nxt and [l[2] for l in c.loops] == [l[2] for l in u.loops]]
            todo = [c for c in todo if c not in mine]
            times = sum((c.guard for c in mine), ZERO)
            ck.zero("one-callback-per-iteration", where, times - u.guard, detail=f"{tag}: callback invocations after the update at {u.pos[0]}:{u.pos[1]}")
            for c in mine:
                if c.fields is None or "estimate" not in c.fields:
                    ck.undecided("callback-estimate", where, f"{tag}: callback argument {c.result!r}")
                    continue
                ck.same("callback-estimate", where, I, merge(I, c.fields["estimate"]), o.sc.estimate(I, u.est_name, dim, u.k + 1), guard=c.guard, detail=f"{tag}: estimate seen by the callback")
        for c in todo:
            ck.zero("one-callback-per-iteration", where, c.guard, detail=f"{tag}: callback at {c.pos[0]}:{c.pos[1]} without an update before it")
    # the returned value
    last = o.updates[-1]
    heap = o.state.heap
    ret = merge(I, ret_estimate(o))
    if last.loops:
        kf = P_of(heap[last.est.id].fields["%updates"])
        passes = last.loops[0][1]
    else:
        kf, passes = last.k + 1, P(len(o.updates))
        if len(o.updates) != K:
            return ck.undecided("result", where, f"{tag}: {len(o.updates)} updates in {K} iterations")
    ck.same("returned-estimate", where, I, ret, o.sc.estimate(I, last.est_name, dim, kf), guard=G, detail=f"{tag}: returned value")
    if not full:
        return
    if not (isinstance(o.r, tuple) and len(o.r) == 2):
        return ck.bad("result", where, f"{tag}: full output is {o.r!r}")
    res = o.r[1]
    if not isinstance(res, ORef):
        return ck.undecided("result", where, f"{tag}: result {o.r[1]!r}")
    fs = heap[res.id].fields
    get = lambda k: merge(I, fs.get(k, Unk("missing")))
    ck.same("result-estimate", where, I, get("estimate"), ret, guard=G, detail=f"{tag}: result.estimate against the returned estimate")
    ck.same("result-iterations", where, I, get("nit"), N(passes), guard=G, detail=f"{tag}: iterations")
    ck.same("result-estimator", where, I, get("estimator"), last.est, guard=G, detail=f"{tag}: estimator")
    if crit == "user" and fn != "xtrace":
        ck.same("result-criterion", where, I, get("criterion"), o.kw["converge"], guard=G, detail=f"{tag}: criterion")
        if not isinstance(get("message"), Unk):
            ck.same("result-message", where, I, get("message"), "the stop message", guard=G, detail=f"{tag}: message")
