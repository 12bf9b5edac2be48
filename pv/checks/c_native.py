"""The C++ routine behind the Lanczos driver (C19, C20), from clang's syntax tree."""
import itertools
from .. import cxx, npm, poly, witness
from ..chk import prop
from ..lib import *
from ..values import *


class ModM(Model):
    """The extension module: records what is registered."""
    tag = "module"

    def __init__(self):
        self.defs, self.uid = [], fresh_name("module")


class ArgM(Model):
    tag = "py::arg"

    def __init__(self, name, noconvert=ZERO, none=None):
        self.name, self.noconvert, self.uid = name, P(noconvert), fresh_name("arg")


class Native(cxx.Runtime):
    """Adds the binding layer to the C++ model."""

    def r_m(self, I, nm, o, *args):
        if isinstance(o, ModM):
            if nm == "def" and len(args) >= 2 and isinstance(args[0], str):
                o.defs.append((args[0], args[1], [a for a in args[2:] if isinstance(a, ArgM)], dict(self.targs)))
                return o
            return o
        if isinstance(o, ArgM):
            if nm == "noconvert":
                return ArgM(o.name, P_of(args[0]) if args and P_of(args[0]) is not None else ONE)
            return o
        return super().r_m(I, nm, o, *args)

    def r_make(self, I, t, *args):
        if t.replace("pybind11::", "py::").strip() in ("py::arg", "const py::arg", "arg") and args:
            a = args[0]
            return a if isinstance(a, ArgM) else ArgM(a) if isinstance(a, str) else super().r_make(I, t, *args)
        if args and isinstance(args[0], (ArgM, ModM, cxx.CxOp)):     # an operator object of any class
            return args[0]
        return super().r_make(I, t, *args)


def runtime(ck, gram=False):
    I = ck.interp()
    I.let_at = 3
    u = cxx.unit(ck_src())
    return I, Native(I, u, gram)


def ck_src():
    from .. import chk
    return chk.SRC


def init_name(u):
    xs = [n for n in u.funcs if n.startswith("pybind11_init_")]
    return xs[0] if len(xs) == 1 else None


def entry(ck, I, R, name="lanczos"):
    """The registered functions of that name, as (callable, declared arguments)."""
    m = ModM()
    nm = init_name(R.u)
    if nm is None or nm not in R.env:
        raise Undecided("module initialisation not found")
    _r, ex = I.run(lambda: I.call(R.env[nm], [m], {}))
    return [d for d in m.defs if d[0] == name], m


def where_of(u, name="lanczos_recurrence"):
    return "_lanczos.lanczos"


class Setup:
    def __init__(self, ck, deg, ncv, orth, let_at=3):
        self.I, self.R = runtime(ck)
        I = self.I
        I.let_at = let_at
        defs, _ = entry(ck, I, self.R)
        if not defs:
            raise Undecided("no function registered as lanczos")
        _nm, fn, args, ta = defs[0]
        ta = {**ta, **{k: "Op" for k, v in ta.items() if v.partition("<")[0].split("::")[-1] in self.R.u.classes}}
        self.n = n = isym("n", 1)
        self.A = cxx.CxOp(I, n, n)
        self.q, self.qe = arr(I, "start", (n,))
        self.alpha, self.ae = arr(I, "alpha", (P(deg + 1),))
        self.beta, self.be = arr(I, "beta", (P(deg + 1),))
        self.V = given(I, (n, P(ncv)), lambda i, j: ZERO)
        self.rtol = fsym("rtol", 0)
        vals = {"A": self.A, "v": self.q, "deg": N(P(deg)), "rtol": F(self.rtol), "orth": N(P(orth)), "alpha": self.alpha, "beta": self.beta, "Q": self.V}
        if len(args) != len(vals) or any(a.name not in vals for a in args):
            raise Undecided("argument names of the native function")
        q0 = freeze(I, self.q)
        self.q0 = q0
        self.r, self.ex = I.run(lambda: self.R.within(ta, lambda: I.call(fn, [vals[a.name] for a in args], {})))


def recurrence(s, deg, ncv, reorth):
    """The specification: entries and columns after the run; reorth(j, w, column) is the vector after reorthogonalisation."""
    I, n, A = s.I, s.n, s.A
    tol = power(n, Fr(1, 2)) * s.rtol

    def vec(f):
        return npm.build(I, (n,), lambda iv: f(iv[0]))

    def scal(p):
        return npm.elem(I, npm.build(I, (ONE,), lambda iv: p), [ZERO])

    def ent(a, i):
        return npm.elem(I, a, [i])
    q2 = scal(S(lambda i: ent(s.q0, i) ** 2, n))
    sc0 = scal(phi(gt(q2), power(q2, Fr(-1, 2)), ONE))
    qs = [vec(lambda i: ent(s.q0, i) * sc0)]
    al = [s.ae(k) for k in range(deg + 1)]
    be = [s.be(k) for k in range(deg + 1)]
    be[0] = ZERO
    cols = [lambda i: ZERO for _ in range(ncv)]
    cols[0] = lambda i: ent(qs[0], i)
    act, b = ONE, ZERO
    raw = [qs[0]]
    for j in range(deg):
        c = raw[j]
        w0 = vec(lambda i: S(lambda k: A.el(i, k) * ent(c, k), n) - (b * ent(raw[j - 1], i) if j else ZERO))
        a = scal(S(lambda i: ent(c, i) * ent(w0, i), n))
        w = vec(lambda i: ent(w0, i) - a * ent(c, i))
        w = reorth(j, w, raw, vec, scal, ent)
        b = scal(power(S(lambda i: ent(w, i) ** 2, n), Fr(1, 2)))
        al[j] = phi(act, a, al[j])
        be[j + 1] = phi(act, b, be[j + 1])
        if j + 1 == deg:
            break
        act = scal(act * (ONE - gt(tol - b)))
        bb = b
        q1 = vec(lambda i: ent(w, i) * power(bb, Fr(-1)))
        raw.append(q1)
        k = (j + 1) % ncv
        old, ac = cols[k], act
        cols[k] = lambda i, old=old, ac=ac, q1=q1: phi(ac, ent(q1, i), old(i))
    return al, be, cols


def none(j, w, raw, vec, scal, ent):
    return w


def projections(orth, ncv, order, style):
    """Projections onto the min(orth, ncv) most recent stored vectors."""
    def f(j, w, raw, vec, scal, ent):
        n = poly.P(0)
        ks = [j - t for t in range(min(orth, ncv)) if j - t >= 0]
        if order == "oldest":
            ks = ks[::-1]
        n = w.dims[0]
        us = [raw[k] for k in ks]

        def coef(u, x):
            uu = scal(S(lambda i: ent(u, i) ** 2, n))
            return scal(phi(gt(uu), S(lambda i: ent(u, i) * ent(x, i), n) * power(uu, Fr(-1)), ZERO))
        for _rep in range(2 if style.endswith("2") else 1):
            if style.startswith("cgs"):
                cs = [coef(u, w) for u in us]
                w1 = w
                w = vec(lambda i: ent(w1, i) - sum((c * ent(u, i) for c, u in zip(cs, us)), ZERO))
            else:
                for u in us:
                    c, w1 = coef(u, w), w
                    w = vec(lambda i: ent(w1, i) - c * ent(u, i))
        return w
    return f


def compare(ck, s, deg, ncv, spec):
    """Differences between the run and a specification: list of (what, polynomial)."""
    I = s.I
    al, be, cols = spec
    out = []
    for k in range(deg + 1):
        if k < deg or deg == 0:
            out.append((f"alpha[{k}]", npm.elem(I, s.alpha, [P(k)]) - al[k]))
        out.append((f"beta[{k}]", npm.elem(I, s.beta, [P(k)]) - be[k]))
    i = fresh_index(s.n)
    for k in range(ncv):
        out.append((f"basis column {k}", npm.elem(I, s.V, [i, P(k)]) - cols[k](i)))
    return out


def c19_case(ck, where, deg, ncv, orth, let_at=3):
    tag = f"degree {deg}, {ncv} stored vectors, reorthogonalisation depth {orth}"
    s = Setup(ck, deg, ncv, orth, let_at)
    bad = raising(s.ex)
    left = ZERO
    for e in bad:
        left = left + e.guard
    if not ck.zero("accepted", where, left, base=s.I.base, detail=f"{tag}: a well-formed call is rejected"):
        return
    if s.I.incomplete:
        ck.undecided("recurrence", where, f"{tag}: {s.I.incomplete[0]}")
        return
    if orth <= 0:
        ds = compare(ck, s, deg, ncv, recurrence(s, deg, ncv, none))
        if s.I.let_at is None:
            for what, d in ds:
                ck.zero("recurrence", where, d, detail=f"{tag}: {what}")
            return
        if any(witness.tainted(d) for _w, d in ds):
            for what, d in ds:
                ck.zero("recurrence", where, d, detail=f"{tag}: {what}")
            return
        mix = ZERO      # any failing entry makes an arbitrary combination fail
        for what, d in ds:
            mix = mix + fsym("weight") * d
        w, v = witness.refute(mix, seed=ck.seed)
        if w is None and v >= 25:
            ck.ob("recurrence", where, "ok-eval", f"{tag}: {len(ds)} entries and columns (equal under {v} interpretations)")
            return
        for what, d in ds:
            ck.zero("recurrence", where, d, detail=f"{tag}: {what}")
        return
    first, tain = None, False
    for style, order in (("mgs", "latest"), ("mgs", "oldest"), ("cgs", "latest"), ("mgs2", "latest"), ("mgs2", "oldest"), ("cgs2", "latest")):
        fail = None
        ds = [(what, d) for what, d in compare(ck, s, deg, ncv, recurrence(s, deg, ncv, projections(orth, ncv, order, style))) if d.t]
        if any(witness.tainted(d) for _w, d in ds):
            tain = True
            break
        mix = ZERO
        for what, d in ds:
            mix = mix + fsym("weight") * d
        w, v = witness.refute(mix, want=12, seed=ck.seed)
        if w is not None:
            fail = (what, v, witness.describe(w))
            for what, d in ds:
                w1, v1 = witness.refute(d, want=12, seed=ck.seed)
                if w1 is not None:
                    fail = (what, v1, witness.describe(w1))
                    break
        if fail is None:
            ck.ob("reorthogonalisation", where, "ok-eval", f"{tag}: {style} projections, {order} vector first")
            return
        first = first or fail
    if tain:
        ck.undecided("reorthogonalisation", where, f"{tag}: depends on unmodelled values")
        return
    ck.bad("reorthogonalisation", where, f"{tag}: {first[0]} is not the recurrence with projections onto the {min(orth, ncv)} most recent stored vectors subtracted (differs by {first[1]:.4g} at {first[2]})")


@prop("C19", "clang's syntax tree of the extension (project headers included) is rewritten over a model of Eigen and analysed through the function registered with "
      "Python, for an operator of symbolic size with free entries, free start vector and tolerance, every degree up to the bound, every admissible number of "
      "stored vectors and several depths; entries and basis columns after the run are compared with an independent statement of the recurrence "
      "(early stop and cyclic storage included).")
def c19(ck):
    where = "_lanczos.lanczos"
    top = 4 if ck.tier == "quick" else 6
    operator_products(ck)
    for deg in (0, 1):          # small enough for a common normal form
        for ncv in (1, 2):
            ck.attempt("recurrence", where, lambda: c19_case(ck, where, deg, ncv, 0, None))
    for deg in range(2, top + 1):
        for ncv in range(2, deg + 2):
            for orth in (0, -1) if ncv == 2 else (0,):
                ck.attempt("recurrence", where, lambda: c19_case(ck, where, deg, ncv, orth))
    for deg in range(2, (3 if ck.tier == "quick" else 4) + 1):
        for ncv in range(2, deg + 1):
            for orth in range(1, ncv + 1):
                ck.attempt("reorthogonalisation", where, lambda: c19_case(ck, where, deg, ncv, orth))


# -------------------------------------------------------------------------------------------------------------------- C20
KINDS = {"DenseEigenLinearOperator": "dense", "SparseEigenLinearOperator": "sparse", "PyLinearOperator": "object"}


def short(t):
    return t.partition("<")[0].split("::")[-1].strip()


def kind_of(u, ta):
    """(operator kind, precision) of a registered overload, from its template arguments."""
    ops = [v for v in ta.values() if short(v) in u.classes]
    prec = [v for v in ta.values() if v in ("float", "double")]
    if len(ops) != 1 or len(prec) != 1:
        return None, None
    ms = [v for v in ta.values() if v not in ops and v not in prec]
    m = " ".join(ms)
    k = "sparse" if "Sparse" in m else "object" if "object" in m else "dense" if "Matrix" in m else None
    return k, prec[0]


def scalars(t):
    return [x for x in ("float", "double") if __import__("re").search(rf"\b{x}\b", t)]


def c20_overloads(ck, where):
    I, R = runtime(ck)
    defs, _ = entry(ck, I, R)
    if not defs:
        ck.bad("overloads", where, "no function registered as lanczos")
        return
    ks = []
    for _n, _f, args, ta in defs:
        k, p = kind_of(R.u, ta)
        if k is None:
            ck.undecided("overloads", where, f"overload with template arguments {ta}")
            return
        ks.append((k, p))
        ck.require("overload-precision", where, all(scalars(v) in ([], [p]) for v in ta.values()), f"{k} overload mixes precisions: {ta}")
    for p in ("float", "double"):
        for k in ("dense", "sparse", "object"):
            # numpy resolves an exact match of the operator's kind and precision first; anything is accepted as an object
            first = next((a for a, b in ks if b == p and (a == k or a == "object" or (a == "sparse" and k == "dense"))), None)
            ck.require("overloads", where, first is not None, f"{k} operators in {p} precision are not accepted")
            if k != "object":
                ck.require("overloads", where, first != "object", f"{k} operators in {p} precision are taken for Python objects")


class Setup20:
    def __init__(self, ck, kind, prec, deg, ncols, orth, ndim=2, same=False):
        self.I, self.R = runtime(ck)
        I, R = self.I, self.R
        I.let_joins = True      # contents do not matter here
        defs, _ = entry(ck, I, R)
        d = [d for d in defs if kind_of(R.u, d[3]) == (kind, prec)]
        if not d:
            raise Undecided(f"no {kind} overload")
        _nm, fn, args, ta = d[0]
        self.args = args
        self.rows, self.cols = isym("rows", 0), isym("cols", 0)
        self.s, self.la, self.lb, self.qr = isym("len", 0), isym("lalpha", 0), isym("lbeta", 0), isym("qrows", 0)
        if kind == "object":
            self.out = isym("outlen", 0)
            self.A = cxx.PyObjM(I, self.rows, self.cols, self.out)
        else:
            self.A = cxx.CxMat(I, self.rows, self.cols)
        self.v, _ = arr(I, "start", (self.s,), order="F")
        self.alpha, _ = arr(I, "alpha", (self.la,), order="F")
        self.beta, _ = arr(I, "beta", (self.lb,), order="F")
        dims = {1: (self.qr,), 2: (self.qr, P(ncols)), 3: (self.qr, P(ncols), ONE)}[ndim]
        self.Q, _ = arr(I, "Q", dims, order="F")
        vals = {"A": self.A, "v": self.v, "deg": N(P(deg)), "rtol": F(fsym("rtol", 0)), "orth": N(P(orth)), "alpha": self.alpha, "beta": self.beta, "Q": self.Q}
        if len(args) != len(vals) or any(a.name not in vals for a in args):
            raise Undecided("argument names of the native function")
        self.valid = eq(self.rows - self.cols) * eq(self.s - self.cols) * ge(self.la - deg - 1) * ge(self.lb - deg - 1) * eq(self.qr - self.rows) * (ONE if deg >= 0 and ndim == 2 and ncols >= max(1, min(2, deg)) else ZERO)
        base = {self.rows: 3, self.cols: 3, self.s: 3, self.la: deg + 1, self.lb: deg + 1, self.qr: 3}
        self.sizes = [base] + [{**base, k: v + x} for k, v in base.items() for x in (-1, 1, -2) if v + x >= 0]
        self.sizes += [{**base, self.rows: 4, self.qr: 4}, {**base, self.cols: 4, self.s: 4}, {**base, self.rows: 2, self.qr: 2}, {**base, self.cols: 2, self.s: 2}]
        self.sizes = [{name(k): float(v) for k, v in z.items()} for z in self.sizes]
        self.ex, self.stuck = [], None
        self.base = list(poly.FACTS)
        try:
            self.r, self.ex = I.run(lambda: R.within(ta, lambda: I.call(fn, [vals[a.name] for a in args], {})))
        except (Undecided, poly.TooBig) as e:       # what happened before is judged all the same
            self.stuck = e
        if I.incomplete and self.stuck is None:
            self.stuck = I.incomplete[0]

    def zero(self, ck, rule, where, d, detail):
        if ck.enough():
            return None
        return poly.with_base(self.base, lambda: self.zero0(ck, rule, where, d, detail))

    def zero0(self, ck, rule, where, d, detail):
        if d.t and not witness.tainted(d):
            for fx in self.sizes:
                w, v = witness.refute(d, want=2, seed=ck.seed, fixed=fx)
                if w is not None:
                    return ck.bad(rule, where, f"{detail} at {witness.describe(w)}")
        return ck.zero(rule, where, d, detail=detail, budget=1)


def name(p):
    """Name of a plain symbol."""
    return poly.ATOMS[aid_of(p)].args[0]


def c20_case(ck, where, kind, prec, deg, ncols, orth, ndim=2):
    tag = f"{kind} operator, degree {deg}, " + (f"{ncols} basis columns" if ndim == 2 else f"{ndim}-dimensional basis") + (f", depth {orth}" if orth else "")
    s = Setup20(ck, kind, prec, deg, ncols, orth, ndim)
    I = s.I
    if s.stuck is not None:
        ck.undecided("bounds", where, f"{tag}: {s.stuck}")
    elif not any(e.kind in ("write", "bounds", "matvec", "store") for e in I.events) and not raising(s.ex):
        ck.undecided("bounds", where, f"{tag}: nothing was analysed")
        return
    seen = set()
    for e in I.events:
        if e.kind == "bounds":
            d = e.guard * (ONE - P(e.ok))
            key = poly.show(d, 40)
            if d.t and key not in seen:
                seen.add(key)
                s.zero(ck, "bounds", where, d, f"{tag}: {e.what} out of range")
            elif not d.t:
                ck.ok("bounds", where, f"{tag}: {e.what}")
    bufs = {s.v.buf: "v", s.alpha.buf: "alpha", s.beta.buf: "beta", s.Q.buf: "Q"}
    wrote = set()
    seen = set()
    for e in I.events:
        if e.kind == "write" and isinstance(e.ref, ARef) and e.ref.buf in bufs:
            wrote.add(bufs[e.ref.buf])
            d = e.guard * (ONE - s.valid)
            key = (bufs[e.ref.buf], poly.show(d, 40))
            if key in seen:
                continue
            seen.add(key)
            if not d.t:
                ck.ok("rejected-first", where, f"{tag}: {bufs[e.ref.buf]}")
            else:
                s.zero(ck, "rejected-first", where, d, f"{tag}: {bufs[e.ref.buf]} is written although the arguments do not fit together")
    for a in s.args:
        if a.name in wrote and a.name != "v":
            ck.require("own-arrays", where, a.noconvert == ONE, f"{tag}: {a.name} may be converted to a temporary copy")


def registered_operators(ck):
    """The operator types the registered overloads wrap their argument in."""
    I, R = runtime(ck)
    out = []
    for _n, _f, _a, ta in entry(ck, I, R)[0]:
        out += [v for v in ta.values() if short(v) in R.u.classes and v not in out]
    return out


def operator_products(ck):
    try:
        ts = registered_operators(ck)
    except (Undecided, poly.TooBig) as e:
        ck.undecided("product", "_lanczos.lanczos", f"registered operators: {e}")
        ts = []
    for t in ts or ["DenseEigenLinearOperator<double>", "SparseEigenLinearOperator<double, false>", "PyLinearOperator<double>"]:
        ck.attempt("product", f"{short(t)}.matvec", lambda: c20_objects(ck, short(t), f"{short(t)}.matvec", t))


def c20_objects(ck, cls, where, full):
    """The operator classes: shape, and a product that reads and writes just what the shape says."""
    I, R = runtime(ck)
    u = R.u
    if cls not in u.classes:
        ck.undecided("product", where, "class not found")
        return
    rows, cols = isym("rows", 0), isym("cols", 0)
    out = isym("outlen", 0)
    src = cxx.PyObjM(I, rows, cols, out) if "Py" in cls else cxx.CxMat(I, rows, cols)
    x, xe = arr(I, "x", (cols,))
    y, ye = arr(I, "y", (rows,))
    got = {}

    def go():
        o = R.construct(I, full, [src])
        got["shape"] = R.callm(o, "shape")
        got["at"] = I.guard
        R.callm(o, "matvec", x, y)
    _r, ex = I.run(go)
    if I.incomplete:
        ck.undecided("product", where, I.incomplete[0])
        return
    sh = got.get("shape")
    if not (isinstance(sh, tuple) and len(sh) == 2 and all(P_of(z) is not None for z in sh)):
        ck.undecided("product", where, f"shape {sh!r}")
    else:
        ck.eq("shape", where, P_of(sh[0]), rows, detail="rows")
        ck.eq("shape", where, P_of(sh[1]), cols, detail="columns")
    for e in I.events:
        if e.kind == "bounds":
            ck.zero("bounds", where, e.guard * (ONE - P(e.ok)), base=I.base, detail=f"{e.what} out of range")
    i = fresh_index(rows)
    if "Py" in cls:
        calls = [e for e in I.events if e.kind == "pycall"]
        ck.zero("product", where, sum((e.guard for e in calls), ZERO) - ONE, detail="number of products")
        for e in calls:
            ck.same("product", where, I, e.x, npm.build(I, (cols,), lambda iv: xe(iv[0])), detail="vector handed to the Python object")
        nm = getattr(src, "out", None)
        if nm is None:
            return
        fits = eq(out - rows)
        ck.zero("product", where, fits * (npm.elem(I, y, [i]) - el(nm, (i,))), detail="vector handed back")
        left = ONE
        for e in raising(ex):
            left = left - e.guard
        ck.zero("product", where, (ONE - fits) * left, detail="a product of another length is accepted")
    else:
        ck.zero("product", where, npm.elem(I, y, [i]) - S(lambda j: src.el(i, j) * xe(j), cols), detail="product with the matrix")
        for e in raising(ex):
            ck.zero("product", where, e.guard, base=e.state.facts, detail="the product raises")


def c20_driver(ck, where, what, out):
    """What the Python drivers hand to the routine always fits."""
    from .c_lanczos import natives
    I = ck.interp()
    n = isym("n", 1)
    A = operator(I, "operator", n)
    d = isym("deg", 2)
    x, _ = arr(I, "x", (n,))
    if what == "lanczos":
        f = ck.public(I, "lanczos", "lanczos")
        _r, ex = I.run(lambda: I.call(f, [A], {"deg": N(d), "v0": x, "orth": N(isym("orth", None)), "return_basis": out == "basis", "sparse_mat": out == "sparse"}))
    else:
        M = ck.public(I, "operators", "MatrixFunction")
        from .c_lanczos import spectral, tqli_hook
        I.hooks["tqli.tqli"] = tqli_hook([])
        I.may_raise = lambda *a: None
        g = spectral()

        def go():
            I.assume_true(ge(n - d))
            o = I.call(M, [A], {"fun": g, "deg": N(d)})
            return I.call(I.getattr(o, out), [x], {})
        _r, ex = I.run(go)
    evs = natives(I)
    tag = f"{what} ({out})"
    if not evs:
        ck.undecided("driver", where, f"{tag}: no native run seen")
    for e in evs:
        if P_of(e.k) is None or not all(isinstance(z, ARef) for z in (e.v, e.alpha, e.beta, e.Q)):
            ck.undecided("driver", where, f"{tag}: arguments")
            continue
        k, g = P_of(e.k), e.guard
        for nm, a in (("alpha", e.alpha), ("beta", e.beta)):
            if ck.require("driver", where, len(a.dims) == 1, f"{tag}: {nm} has {len(a.dims)} dimensions"):
                ck.zero("driver", where, g * (ONE - ge(a.dims[0] - k - 1)), detail=f"{tag}: {nm} is shorter than degree plus one")
        if ck.require("driver", where, len(e.Q.dims) == 2, f"{tag}: Q has {len(e.Q.dims)} dimensions"):
            ck.zero("driver", where, g * (ONE - eq(e.Q.dims[0] - n)), detail=f"{tag}: basis rows")
            ck.zero("driver", where, g * (ONE - ge(e.Q.dims[1] - phi(gt(k - 2), P(2), k))), detail=f"{tag}: basis columns")
            b = I.heap[e.Q.buf]
            ck.require("driver", where, b.order != "C" or b.order is None, f"{tag}: the basis is not column-major, the routine rejects it")
        size = ONE
        for z in e.v.dims:
            size = size * z
        ck.zero("driver", where, g * (ONE - eq(size - n)), detail=f"{tag}: length of the start vector")
        ck.require("driver", where, len({t for t in e.dts[1:]}) == 1, f"{tag}: outputs of different precisions {e.dts[1:]}")


@prop("C20", "The registered C++ overloads are analysed (clang's syntax tree over a model of Eigen and the binding layer) for operators, vectors and buffers of independent "
      "symbolic sizes, every operator class, every degree and number of basis columns up to the bound: every element, column and mapped view used lies inside its "
      "buffer wherever it is reached, nothing is written on a path where the arguments do not fit, output arguments are bound without conversion, overloads "
      "exist for each operator kind and precision, the operator classes read and write just what their shape says; the Python drivers hand over fitting buffers.")
def c20(ck):
    where = "_lanczos.lanczos"
    ck.attempt("overloads", where, lambda: c20_overloads(ck, where))
    operator_products(ck)
    for out in ("pair", "basis", "sparse"):
        ck.attempt("driver", "primate.lanczos.lanczos", lambda: c20_driver(ck, "primate.lanczos.lanczos", "lanczos", out))
    for out in ("matvec", "quad"):
        ck.attempt("driver", "primate.operators.MatrixFunction", lambda: c20_driver(ck, "primate.operators.MatrixFunction", "MatrixFunction", out))
    top = 3 if ck.tier == "quick" else 5
    for deg in range(-1, top + 1):
        for ncols in range(0, top + 2):
            ck.attempt("bounds", where, lambda: c20_case(ck, where, "dense", "double", deg, ncols, 0))
            if deg in (1, 2) and ncols in (1, 2, 3):
                for kind in ("sparse", "object"):
                    ck.attempt("bounds", where, lambda: c20_case(ck, where, kind, "float", deg, ncols, 0))
    for deg in (1, 2, 3):
        for ncols in range(1, deg + 2):
            for orth in (1, 2, deg, deg + 2):
                ck.attempt("bounds", where, lambda: c20_case(ck, where, "dense", "double", deg, ncols, orth))
    for ndim in (1, 3):
        ck.attempt("bounds", where, lambda: c20_case(ck, where, "dense", "double", 2, 3, 0, ndim))
