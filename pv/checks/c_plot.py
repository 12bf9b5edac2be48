"""Figures of sample sequences (plotting.py)."""
from ..chk import prop
from ..lib import *
from .. import npfun
from ..poly import show
from .c_stats import new_mean_est, c34_state, c34_same


class Figure(Model):
    """A bokeh object: whatever is called on the figure is logged with its arguments."""

    def __init__(self, name, log):
        self.name, self.log = name, log

    def isa(self, d):
        return d == "object"

    def get(self, I, name):
        if name == "__setattr__":
            return lambda I, n, v: None
        if name == "__hasattr__":
            return lambda I, n: ONE
        if name.startswith("__"):
            return MISSING
        if self.name == "figure":
            def f(I, *a, **k):
                self.log.append((name, I.guard, a, k))
                return Figure(name, self.log)
            m = PrimV("figure." + name, f)
            m_get = Figure(name, self.log)
            return m if name in ("line", "scatter", "circle", "step", "segment", "multi_line", "dot", "cross", "x", "ray", "hspan", "vspan", "add_layout",
                                 "varea", "varea_step", "vbar", "add_tools", "add_glyph", "triangle", "square", "asterisk", "star", "diamond", "plus", "dash", "hex") else m_get
        return Figure(name, self.log)


BOKEH = ("bokeh.plotting.figure", "bokeh.models.Span", "bokeh.models.Range1d", "bokeh.models.ColumnDataSource", "bokeh.models.DataRange1d", "bokeh.models.Title")


@prop("C36", "The figures are drawn, on a recording stand-in for the plotting library, for arrays, lists, recorded values and recording estimators of symbolic length and "
      "contents (and with missing samples at known positions). The point series handed to the plot must be the samples, their running mean and its error identically; "
      "reference lines must appear exactly when given, zero included, and the input must be left as it was.")
def c36(ck):
    for n in ("n", 1, 4):
        for kind in ("array", "list", "values", "estimator"):
            if kind == "list" and n == "n":
                continue
            for miss in ((), (1,)) if n == 4 and kind != "list" else ((),):
                for mu in (None, "mu", 0):
                    ck.attempt("figure", "primate.plotting.figure_sequence", lambda: c36_case(ck, "figure_sequence", n, kind, miss, mu))
                    for absolute in (None, False) if mu is None or mu == "mu" else (None,):
                        if mu is None and (n == "n" or kind == "list"):
                            continue
                        for thr in (None, "thr", 0) if mu == "mu" else (None,):
                            ck.attempt("figure", "primate.plotting.figure_error", lambda: c36_case(ck, "figure_error", n, kind, miss, mu, absolute, thr))
    ck.attempt("figure", "primate.plotting.figure_sequence", lambda: c36_unrecorded(ck))


def c36_make(ck, n, kind, miss):
    I = ck.interp()
    n = isym("n", 2) if n == "n" else P(n)
    nm = fresh_name("x")
    a0, _x = arr(I, "x", (n,))
    base = content(I, a0)
    if miss:
        f = lambda i: npm.NAN if i.is_const() and int(i.cval()) in miss else base(i)
        a = npm.asarr(I, tuple(Sc(f(P(k)), "float") for k in range(int(n.cval()))))
        I.heap[a.buf].dtype = "float64"
    else:
        f, a = base, a0
    if kind == "list":
        a = user(I, "r = [" + ", ".join(f"x[{k}]" for k in range(int(n.cval()))) + "]", x=a)["r"]
    elif kind in ("values", "estimator"):
        est = new_mean_est(ck, I, None, False, True)
        method(I, est, "update", a)
        a = I.getattr(est, "values") if kind == "values" else est
    return I, n, f, a


def c36_bokeh(I, log):
    for full in BOKEH:
        nm = full.rsplit(".", 1)[-1]

        def make(I, *a, nm=nm, **k):
            log.append((nm, I.guard, a, k))
            return Figure(nm, log)
        I.consts[full] = PrimV(full, make)


def c36_state(I, a):
    if isinstance(a, ORef):
        return c34_state(I, a)
    if isinstance(a, LRef):
        return ("list", a, tuple((s[0],) + tuple(freeze(I, x) if isinstance(x, ARef) else x for x in s[1:]) for s in I.heap[a.id].segs))
    return freeze(I, a)


def c36_case(ck, fn, n, kind, miss, mu, absolute=None, thr=None):
    where = f"primate.plotting.{fn}"
    tag = f"{kind} of {n} samples" + (f", missing {miss}" if miss else "") + ("" if mu is None else f", mu {mu}") + ("" if absolute is None else ", relative") + ("" if thr is None else f", threshold {thr}")
    npfun.NUMBERS.append("x")
    try:
        I, n, f, a = c36_make(ck, n, kind, miss)
        log = []
        c36_bokeh(I, log)
        muv, thv, width = {"mu": fsym("mu"), 0: ZERO, None: None}[mu], {"thr": fsym("thr"), 0: ZERO, None: None}[thr], fsym("width")
        kw = {"width": F(width)}
        if mu is not None:
            kw["mu"] = F(muv)
        if absolute is not None:
            kw["absolute"] = False
        if thr is not None:
            kw["threshold"] = F(thv)
        before = c36_state(I, a)
        r, ex = I.run(lambda: I.call(ck.public(I, "plotting", fn), [a], kw))
        ck.no_raise("drawn", where, ex, tag)
        if r is MISSING:
            return ck.bad("drawn", where, tag)
        ck.require("returns-the-figure", where, isinstance(r, (Figure, Unk)) and getattr(r, "name", "figure") == "figure", f"{tag}: {r!r}")
        ck.require("input-untouched", where, c34_same(I, before, c36_state(I, a)), tag)
        fig = [k for nm, _g, _a, k in log if nm == "figure"]
        w = P_of(fig[0].get("width")) if fig and "width" in fig[0] else None
        if w is None and fig:
            ck.bad("caller's-figure-options", where, f"{tag}: width is not passed to the figure")
        elif w is not None:
            ck.zero("caller's-figure-options", where, w - width, detail=tag)
        c36_judge(ck, I, fn, where, tag, log, n, f, miss, muv, absolute, thv)
    finally:
        npfun.NUMBERS.pop()


def c36_judge(ck, I, fn, where, tag, log, n, f, miss, mu, absolute, thr):
    keep = None if not miss else [k for k in range(int(n.cval())) if k not in miss]
    m = n if keep is None else P(len(keep))
    x = (lambda i: f(i)) if keep is None else None
    vec = npm.build(I, (m,), lambda iv: x(iv[0])) if keep is None else npm.asarr(I, tuple(Sc(f(P(k)), "float") for k in keep))
    at = lambda i: npm.elem(I, vec, [i])
    mean = lambda i: S(at, i + 1) / (i + 1) if keep is None else sum((at(P(k)) for k in range(int(i.cval()) + 1)), ZERO) / (i + 1)
    series, marks, odd = [], [], False
    for nm, g, a, k in log:
        if nm in ("figure", "Range1d", "Span", "add_layout"):
            if nm == "Span":
                marks.append((P_of(k.get("location")), k.get("dimension"), g))
            continue
        xy = list(a[:2]) + [None] * (2 - len(a[:2]))
        xs, ys = k.get("x", xy[0]), k.get("y", xy[1])
        if xs is None or ys is None or "source" in k or isinstance(xs, (str, Unk)) or isinstance(ys, (str, Unk)):
            odd = True
            continue
        try:
            series.append((nm, npm.asarr(I, xs), npm.asarr(I, ys), g))
        except Undecided:
            odd = True
    index = lambda i: i + 1

    def same(s, sx, sy):
        """Does the series consist of the points (sx(i), sy(i))?  Lists what violates it and what stays open."""
        bad = []
        for what, v, w in (("positions", s[1], sx), ("heights", s[2], sy)):
            if len(v.dims) != 1 or not is_zero(v.dims[0] - m):
                bad.append((what, "violated", "are of another length"))
                continue
            for i in [P(k) for k in range(int(m.cval()))] if m.is_const() else [fresh_index(m)]:
                saved, ck.obs = ck.obs, []
                try:
                    d = npm.elem(I, v, [i]) - w(i)
                    ck.zero("point", where, d)
                    status = ck.obs[-1][2]
                finally:
                    ck.obs = saved
                if status in ("violated", "undecided"):
                    bad.append((what, status, "differ by " + show(d)[:160]))
                    break
        return bad

    def has(rule, what, sy):
        found = [same(s, index, sy) for s in series]
        if any(not b for b in found):
            return ck.ok(rule, where, f"{tag}: {what}")
        if odd or any(all(st == "undecided" for _w, st, _d in b) for b in found):
            return ck.undecided(rule, where, f"{tag}: {what} may be in a series that is not modelled")
        near = [b for b in found if len(b) == 1]
        ck.bad(rule, where, f"{tag}: {what}: " + (f"the {near[0][0][0]} of a series {near[0][0][2]}" if near else "no series has these points"))
    heights = {"figure_sequence": 2}.get(fn, 1)
    if fn == "figure_sequence":
        has("plots-samples", "the samples", at)
        has("plots-running-mean", "the running mean", mean)
    elif mu is not None:
        err = lambda i: fun("abs", mu - mean(i)) / (ONE if absolute is None else fun("abs", mu))
        has("plots-error", "the true error of the running mean", err)
    else:
        vals = []
        for k in range(int(m.cval())):
            if k < 2:
                vals.append(npm.INF)        # the criterion has no opinion before three samples
                continue
            mk = S(at, P(k + 1)) / (k + 1)
            sd = power(S(lambda b: (at(b) - mk) * (at(b) - mk), P(k + 1)) / k, Fr(1, 2))
            moe = sd / power(P(k + 1), Fr(1, 2)) * fun("tppf", P(Fr(975, 1000)), P(k))
            vals.append(moe if absolute is None else fun("abs", sd / power(P(k + 1), Fr(1, 2)) / mk))
        has("plots-error", f"the {'margin of error' if absolute is None else 'relative error'} of the running mean at 95%", lambda i: vals[int(i.cval())])
    want = mu if fn == "figure_sequence" else thr
    what = "the reference value" if fn == "figure_sequence" else "the threshold"
    flat = [s for s in series if s[2].dims and len(s[2].dims) == 1 and s[2].dims[0].is_const() and want is not None
            and all(is_zero(npm.elem(I, s[2], [P(k)]) - want) for k in range(int(s[2].dims[0].cval())))]
    if want is not None:
        if any(p is not None and is_zero(p - want) and d == "width" for p, d, _g in marks) or flat:
            ck.ok("marks-reference", where, f"{tag}: {what}")
        elif odd or any(p is None for p, _d, _g in marks):
            ck.undecided("marks-reference", where, f"{tag}: {what} may be drawn by something that is not modelled")
        else:
            ck.bad("marks-reference", where, f"{tag}: no horizontal line at {what}")
    else:
        extra = [p for p, _d, _g in marks] + series[heights:]
        ck.require("marks-reference", where, not extra, f"{tag}: a further line is drawn although nothing was given")


def c36_unrecorded(ck):
    for fn in ("figure_sequence", "figure_error"):
        I = ck.interp()
        log = []
        c36_bokeh(I, log)
        est = new_mean_est(ck, I, None, False, False)
        method(I, est, "update", arr(I, "x", (isym("n", 2),))[0])
        r, ex = I.run(lambda: I.call(ck.public(I, "plotting", fn), [est], {}))
        rejected(ck, "rejects-unrecorded", f"primate.plotting.{fn}", ex, "an estimator that recorded nothing")
