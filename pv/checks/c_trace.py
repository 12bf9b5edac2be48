"""Deflated and exchangeable estimators (C14, C15, C16)."""
from .. import npm, poly, witness
from ..chk import prop
from ..lib import *
from ..values import *
from .c_est import Scene, observe, probe_of, check_probe, alternatives, exclusive, name_of_pdf, ALIASES, row_form, ret_estimate

XTRACE = """import numpy as np
def sample(A, W, i, sphere):
	n, m = W.shape
	w = W[:, i]
	if m == 1:
		r, t = w, 0.0
	else:
		Q = np.linalg.qr(A @ np.c_[W[:, :i], W[:, i + 1:]])[0]
		r = w - Q @ (Q.T @ w)
		t = np.trace(Q.T @ (A @ Q))
	s = (n - m + 1) / (r @ r) if sphere else 1.0
	return t + s * (r @ (A @ r))
"""


@prop("C15", "XTrace is analysed for every number of batches up to the unrolling bound with symbolic dimension, operator and probes (and for exhausted "
      "operators with as many probes as columns): each sample handed to the mean estimator is compared with the leave-one-out formula "
      "computed from the QR decomposition of the operator's image of the other probes; terms are compared by evaluation.")
def c15(ck):
    where = "primate.trace.xtrace"
    runs = [(1, 1), (2, 1), (1, 2), (3, 1), (2, 2)] + ([(4, 1), (3, 2), (1, 3), (2, 3)] if ck.tier == "thorough" else [])
    for pdf in ("sphere", "rademacher", "user", None):
        for K, b in runs:
            if pdf == "user" and K * b > 2 or pdf is None and K * b > 2:
                continue
            ck.attempt("leave-one-out", where, lambda: c15_case(ck, where, "array", pdf, K, b, isym("n", K * b + 1)))
        if pdf in ("sphere", "rademacher"):
            for n, K, b in ((1, 1, 1), (2, 2, 1), (2, 1, 2), (3, 2, 2), (2, 1, 5)):
                ck.attempt("leave-one-out", where, lambda: c15_case(ck, where, "array", pdf, K, b, P(n)))
    ck.attempt("leave-one-out", where, lambda: c15_case(ck, where, "operator", "sphere", 2, 1, isym("n", 3)))
    ck.attempt("leave-one-out", where, lambda: c15_case(ck, where, "operator", "normal", 1, 2, isym("n", 3)))


def c15_case(ck, where, op, pdf, K, b, n):
    tag = f"{op}, pdf={pdf or 'default'}, {K} batches of {b}" + (f", {n} columns" if n.is_const() else "")
    o = observe(ck, "trace", "xtrace", op, n, pdf=pdf, unroll=K + (1 if n.is_const() else 0), lets=3, opts={"batch": b}.items(), full=True,
                crit="user" if not n.is_const() else None, concrete=("CountCriterion",) if n.is_const() else ())
    I = o.I
    ck.no_raise("accepted", where, o.ex, tag)
    if o.r is MISSING or not o.updates:
        return ck.undecided("leave-one-out", where, f"{tag}: no update seen")
    steps = alternatives(o)
    if len(steps) != K or any(len(s) != 1 for s in steps):
        if n.is_const():
            return ck.require("at-most-all-columns", where, len(steps) == K, f"{tag}: {len(steps)} batches")
        return ck.undecided("leave-one-out", where, f"{tag}: {len(o.updates)} updates")
    cols = []
    env = user(I, XTRACE)
    A = o.A if op == "array" else o.A.matrix(I)
    for s in steps:
        u = s[0]
        p = probe_of(ck, o, u, "fresh-probe", where, tag)
        if p is None:
            return
        check_probe(ck, o, p, pdf, where, tag, "sphere")
        if not p.dims[-1].is_const():
            return ck.undecided("leave-one-out", where, f"{tag}: {p.dims[-1]} probes")
        ck.eq("leave-one-out", where, p.dims[0], n, detail=f"{tag}: probe length")
        new = int(p.dims[-1].cval())
        cols += [(lambda i, p=p, c=c: p.e((i, P(c)))) for c in range(new)]
        m = len(cols)
        ck.require("at-most-all-columns", where, not n.is_const() or m <= n.cval(), f"{tag}: {m} probes drawn")
        if u.rows is None:
            return ck.undecided("leave-one-out", where, f"{tag}: samples of shape {getattr(u.x, 'dims', u.x)}")
        ck.zero("one-sample-per-probe", where, u.guard * (u.rows - m), detail=f"{tag}: samples for {m} probes")
        if u is not steps[-1][0] and ck.tier != "thorough" and len(steps) > 2:
            continue
        sel = lambda iv: sum((phi(poly.eq(iv[1] - c), f(iv[0]), ZERO) for c, f in enumerate(cols)), ZERO)
        for i in range(m):
            def want():
                W = npm.build(I, (n, P(m)), sel)
                return I.call(env["sample"], [A, W, i, (pdf or "sphere") == "sphere"], {})
            w, ex = I.run(want)
            ck.zero("leave-one-out", where, u.guard * (u.samples(P(i), ZERO) - P_of(w)), detail=f"{tag}: sample {i} of {m}")


# -------------------------------------------------------------------------------------------------------------------- C16
@prop("C16", "The Girard-Hutchinson diagonal estimator is analysed with symbolic dimension and operator for an arbitrary iteration (loop summary) and "
      "unrolled: every sample handed to the vector estimator must be, entrywise, the ratio of the running sums over the probes drawn so far; "
      "the exchangeable estimator is compared, for every number of probes up to the bound, with the average of the leave-one-out formulas "
      "computed from the QR decomposition of the operator's image of the other probes.")
def c16(ck):
    where = "primate.diagonal.diag"
    for op in ("array", "operator"):
        for full, cb in ((False, False), (True, False), (False, True), (True, True)):
            for pdf in (None, "normal", "sphere", "user"):
                if pdf == "sphere" and cb:
                    continue
                ck.attempt("running-ratio", where, lambda: c16_diag(ck, where, op, full, cb, pdf))
            ck.attempt("running-ratio", where, lambda: c16_diag(ck, where, op, full, cb, "normal", K=3))
            ck.attempt("running-ratio", where, lambda: c16_diag(ck, where, op, full, cb, None, attrs={"dtype": "float32"}))
            ck.attempt("running-ratio", where, lambda: c16_diag(ck, where, op, full, cb, None, record=True))
    where = "primate.diagonal.xdiag"
    for m, n in ((1, None), (2, None), (3, None), (4, None), (None, 1), (None, 2), (9, 2)) + (((6, None), (5, None), (None, 3)) if ck.tier == "thorough" else ()):
        for pdf in (None, "rademacher"):
            ck.attempt("leave-one-out", where, lambda: c16_xdiag(ck, where, m, n, pdf))


def c16_diag(ck, where, op, full, cb, pdf, K=None, attrs=None, record=False):
    n = isym("n", 1)
    tag = f"{op}, full={full}, callback={cb}, pdf={pdf or 'default'}" + (f", {K} iterations" if K else "") + (f", {attrs['dtype']}" if attrs else "") + (", recording" if record else "")
    o = observe(ck, "diagonal", "diag", op, n, full=full, cb=cb, pdf=pdf, unroll=K, attrs=attrs, opts={"record": True}.items() if record else ())
    I = o.I
    ck.no_raise("accepted", where, o.ex, tag)
    steps = alternatives(o)
    if o.r is MISSING or not steps or any(len(s) != 1 for s in steps) or (len(steps) != K if K else len(steps) != 1 or len(steps[0][0].loops) != 1):
        return ck.undecided("running-ratio", where, f"{tag}: {len(o.updates)} updates")
    drawn = []
    for (u,) in steps:
        p = probe_of(ck, o, u, "fresh-probe", where, tag)
        if p is None:
            return
        check_probe(ck, o, p, pdf, where, tag, "rademacher")
        ck.zero("fresh-probe", where, u.guard - p.guard, detail=f"{tag}: probes are drawn and used in the same iterations")
        drawn.append(p)
        if len(p.dims) == 2 and p.dims[1] != ONE or len(p.dims) > 2:
            return ck.undecided("running-ratio", where, f"{tag}: probe block of shape {p.dims}")
        ck.eq("running-ratio", where, p.dims[0], n, detail=f"{tag}: probe length")
        ck.require("vector-estimator", where, poly.is_zero(u.dim - n), f"{tag}: estimator of dimension {u.dim}")
        if u.rows is None or u.samples is None:
            return ck.undecided("running-ratio", where, f"{tag}: samples of shape {getattr(u.x, 'dims', u.x)}")
        ck.zero("one-sample-per-probe", where, u.guard * (u.rows - 1), detail=f"{tag}: samples per iteration")
        d = fresh_index(n)
        col = lambda q: (lambda i: q.e((i, ZERO) if len(q.dims) == 2 else (i,)))

        def total(f):
            if K is not None:
                return sum((f(col(q)) for q in drawn), ZERO)
            j = u.loops[0][0]
            s = aid_of(j)
            return S(lambda t: subst(f(col(p)), {s: t}), j + 1)
        num = total(lambda v: v(d) * row_form(o, op, v, d))
        den = total(lambda v: v(d) * v(d))
        ck.zero("running-ratio", where, u.guard * (u.samples(ZERO, d) - num * power(den, -1)), detail=f"{tag}: sample against the ratio of the running sums")
    ret = ret_estimate(o)
    u = steps[-1][-1]
    kf = P_of(o.state.heap[u.est.id].fields["%updates"])
    ck.same("returned-estimate", where, I, merge(I, ret), o.sc.estimate(I, u.est_name, n, kf), guard=o.guard, detail=f"{tag}: returned estimate")


XDIAG = """import numpy as np
def diagonal(A, W):
	n, m = W.shape
	d = np.zeros(n)
	for i in range(m):
		g = W[:, i]
		if m == 1:
			d += g * (A @ g)
		else:
			Q = np.linalg.qr(A @ np.c_[W[:, :i], W[:, i + 1:]])[0]
			d += np.sum(Q * (A.T @ Q), axis=1) + g * (A @ g - Q @ (Q.T @ (A @ g)))
	return d / m
"""


def c16_xdiag(ck, where, m, n, pdf):
    n_ = P(n) if n is not None else isym("n", (m + 1) // 2 + 1)
    tag = f"m={m or 'default'}, pdf={pdf or 'default'}" + (f", {n} columns" if n else "")
    sc = Scene(ck, lets=3)
    I = sc.I
    f = ck.public(I, "diagonal", "xdiag")
    A = operator(I, "array", n_)
    kw = {"seed": N(isym("seed", 0))}
    if m is not None:
        kw["m"] = N(P(m))
    if pdf is not None:
        kw["pdf"] = pdf
    r, ex = I.run(lambda: I.call(f, [A], kw))
    ck.no_raise("accepted", where, ex, tag)
    ps = [e for e in I.events if e.kind == "probe"]
    if len(ps) != 1 or not isinstance(r, ARef):
        return ck.undecided("leave-one-out", where, f"{tag}: {len(ps)} probe blocks, result {r!r}")
    p = ps[0]
    check_probe(ck, None, p, pdf, where, tag, "sphere")
    cnt = (m + 1) // 2 if m is not None else n
    if n is not None:
        cnt = min(cnt, n)
    ck.eq("probes-used", where, p.dims[1] if len(p.dims) == 2 else ONE, P(cnt), detail=f"{tag}: probes drawn")
    if len(p.dims) != 2 or not p.dims[1].is_const():
        return ck.undecided("leave-one-out", where, f"{tag}: probes of shape {p.dims}")
    env = user(I, XDIAG)
    w, _ = I.run(lambda: I.call(env["diagonal"], [A, npm.build(I, p.dims, lambda iv: p.e(tuple(iv)))], {}))
    ck.same("leave-one-out", where, I, r, w, detail=f"{tag}: returned diagonal")


# -------------------------------------------------------------------------------------------------------------------- C14
HUTCHPP = """import numpy as np
def estimate(A, W, G):
	Q = np.linalg.qr(A @ W)[0]
	R = G - Q @ (Q.T @ G)
	return np.trace(Q.T @ (A @ Q)) + np.sum(R * (A @ R)) / G.shape[1]
"""


@prop("C14", "Hutch++ is analysed with symbolic dimension, operator, probes and sketch size, in both modes and output forms: the returned estimate is compared "
      "with the exact trace of the compression to a QR basis of the sketch plus the mean quadratic form at the projected second block, which "
      "must be a different, independently drawn block; the reported count with the probes drawn.")
def c14(ck):
    where = "primate.trace.hutchpp"
    for op in ("array", "operator", "quad"):
        for mode in (None, "full", "reduced"):
            for full in (False, True):
                for m in (None, "m", 1, 2, 3, 4) if op != "quad" and not full else ("m", 2):
                    for pdf in ((None, "sphere", "user") if m == 2 else (None, "normal") if m == "m" and op == "array" else (None,)):
                        ck.attempt("estimate", where, lambda: c14_case(ck, where, op, mode, full, m, pdf))
        for full in (False, True):
            ck.attempt("empty-operator", where, lambda: c14_empty(ck, where, op, full))
    ck.attempt("estimate", where, lambda: c14_case(ck, where, "array", None, True, 2, None, attrs={"dtype": "float32"}))


def c14_case(ck, where, op, mode, full, m, pdf, attrs=None):
    n = isym("n", 1 + (m if isinstance(m, int) else 0) * 3)
    tag = f"{op}, mode={mode or 'default'}, full={full}, m={m or 'default'}, pdf={pdf or 'default'}" + (f", {attrs['dtype']}" if attrs else "")
    kw = {}
    if mode:
        kw["mode"] = mode
    if m is not None:
        kw["m"] = N(isym("m", 1)) if m == "m" else N(P(m))
    o = observe(ck, "trace", "hutchpp", op, n, crit=None, full=full, pdf=pdf, opts=kw.items(), lets=3, attrs=attrs, same_quad=True)
    I = o.I
    ck.no_raise("accepted", where, o.ex, tag)
    if o.r is MISSING:
        return ck.undecided("estimate", where, f"{tag}: no result")
    ps = o.probes
    for p in ps:
        check_probe(ck, o, p, pdf, where, tag, "rademacher")
    ret = merge(I, ret_estimate(o))
    A = o.A if op in ("array",) else o.A.matrix(I)
    blk = [npm.build(I, p.dims if len(p.dims) == 2 else (p.dims[0], ONE), lambda iv, p=p: p.e(tuple(iv) if len(p.dims) == 2 else (iv[0],))) for p in ps]
    env = user(I, HUTCHPP)

    def attempt(W, G):
        w, _ = I.run(lambda: I.call(env["estimate"], [A, W, G], {}))
        k = len(ck.obs)
        r = ck.same("estimate", where, I, ret, w, guard=o.guard, detail=f"{tag}: returned estimate")
        new = ck.obs[k:]
        del ck.obs[k:]
        return r, new
    if len(blk) == 2:
        r, new = attempt(blk[0], blk[1])
        if not r:
            for W, G, why in ((blk[1], blk[0], None), (blk[0], blk[0], "sketch"), (blk[1], blk[1], "residual")):
                r2, new2 = attempt(W, G)
                if r2 and why:
                    return ck.bad("independent-blocks", where, f"{tag}: the same probes make up the sketch and the residual estimate")
                if r2:
                    new = new2
                    break
        ck.obs += new
    elif len(blk) == 1:
        b = blk[0]
        r, new = attempt(b, b)
        if r:
            return ck.bad("independent-blocks", where, f"{tag}: the same probes (drawn at {ps[0].pos[0]}:{ps[0].pos[1]}) make up the sketch and the residual estimate")
        h = b.dims[1].scale(Fr(1, 2))
        L = npm.build(I, (n, h), lambda iv: npm.elem(I, b, [iv[0], iv[1]]))
        R = npm.build(I, (n, h), lambda iv: npm.elem(I, b, [iv[0], iv[1] + h]))
        for W, G in ((L, R), (R, L)):
            r, new = attempt(W, G)
            if r:
                break
        if not r:
            return ck.undecided("estimate", where, f"{tag}: one block of probes used in an unknown way")
        ck.obs += new
    else:
        return ck.undecided("estimate", where, f"{tag}: {len(ps)} probe blocks")
    for p in ps:
        ck.eq("estimate", where, p.dims[0], n, detail=f"{tag}: probe length")
    if not full:
        return
    if not (isinstance(o.r, tuple) and len(o.r) == 2 and isinstance(o.r[1], ORef)):
        return ck.undecided("sample-count", where, f"{tag}: full output {o.r!r}")
    fs = o.state.heap[o.r[1].id].fields
    ck.same("result-estimate", where, I, merge(I, fs.get("estimate", Unk("missing"))), ret, guard=o.guard, detail=f"{tag}: result.estimate")
    total = sum((b.dims[1] for b in blk), ZERO)
    ck.same("sample-count", where, I, merge(I, fs.get("nit", Unk("missing"))), N(total), guard=o.guard, detail=f"{tag}: reported number of probes")


def c14_empty(ck, where, op, full):
    o = observe(ck, "trace", "hutchpp", op, ZERO, crit=None, full=full)
    tag = f"{op}, full={full}, empty operator"
    ck.no_raise("empty-operator", where, o.ex, tag)
    r = ret_estimate(o)
    ck.same("empty-operator", where, o.I, r if r is not MISSING else Unk("none"), F(ZERO), detail=tag)
