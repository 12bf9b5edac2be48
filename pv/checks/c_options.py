"""Every option has an effect (C31)."""
import os

from .. import npm, poly
from ..chk import SRC, prop
from ..lib import *
from ..npfun import Rng
from ..values import *
from .c_est import Scene
from .c_quad import tqli_hook
from .c_random import polys, root

SEEN = ("matvec", "product", "quad", "probe", "draw", "rng-spawn", "native", "tqli", "criterion", "callback", "submit", "isotropic", "estimator", "update")


class Opt:
    """A parameter value together with the atoms that stand for it."""

    def __init__(self, value, atom=None, name=None, truths=()):
        self.value, self.atom, self.name, self.truths = value, atom, name, truths

    def occurs(self, deep):
        return self.atom in deep if self.atom is not None else any(ATOMS[a].kind == "el" and ATOMS[a].args[0] == self.name for a in deep)


def real(name, lo=None, hi=None):
    def mk(I):
        s = sym(fresh_name(name), lo=lo, hi=hi)
        return Opt(F(s), aid_of(s))
    return mk


def level(name):
    def mk(I):
        s = sym(fresh_name(name), lo=0)
        return Opt(F(s), aid_of(s), truths=(gt(s), gt(ONE - s)))
    return mk


def whole(name, lo=1):
    def mk(I):
        s = isym(name, lo)
        return Opt(N(s), aid_of(s))
    return mk


def flag(name):
    def mk(I):
        b = poly.opaque_bool("flag", fresh_name(name))
        return Opt(Sc(b, "bool"), aid_of(b))
    return mk


def choice(*alts):
    def mk(I):
        b = poly.opaque_bool("choice", fresh_name("choice"))
        x, y = (a(I) if callable(a) else a for a in alts)
        return Opt(PhiV(b, x, y), aid_of(b))
    return mk


def array(name, *dims, dt="float64"):
    def mk(I):
        a, _ = arr(I, name, tuple(d(I) if callable(d) else P(d) for d in dims), dt)
        b = I.heap[a.buf].body
        nm = next(ATOMS[x].args[0] for x in poly.atoms_of(b) if ATOMS[x].kind == "el")
        return Opt(a, name=nm)
    return mk


def observed(I, r, outs, mark):
    """Every normal form an observer of the run can tell apart: results, outputs, calls of user objects, loop conditions."""
    ps = polys(I, r)
    for o in outs:
        ps += polys(I, o)
    for e in I.events[mark:]:
        if e.kind in SEEN:
            ps.append(e.guard)
            for v in e.d.values():
                ps += (root_polys(v) if isinstance(v, Rng) else polys(I, v)) if not isinstance(v, ORef) else []
    for rec in I.loop_records:
        ps += [p for p in (rec.cond, rec.N) if isinstance(p, Poly)]
        ps += [g for g, _st in rec.breaks + rec.returns]
        head, post = getattr(rec, "head", None), getattr(rec, "post", None)
        if head is not None and post is not None:
            for k, c in post.heap.items():
                if isinstance(c, Buf) and head.heap.get(k) is not c:
                    ps.append(c.body)
            for k, v in post.env.items():
                if not veq(head.env.get(k, MISSING), v):
                    ps += polys(I, v)
    return ps


def root_polys(g):
    out, todo = [], [root(g)]
    while todo:
        k = todo.pop()
        if isinstance(k, Poly):
            out.append(k)
        elif isinstance(k, (tuple, list)):
            todo += k
    return out


def unknown(I, v, depth=0, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, Unk) or v is MISSING:
        return True
    if isinstance(v, tuple):
        return any(unknown(I, x, depth, seen) for x in v)
    if isinstance(v, PhiV):
        return unknown(I, v.a, depth, seen) or unknown(I, v.b, depth, seen)
    if isinstance(v, ORef) and v.id not in seen and depth < 4:
        seen.add(v.id)
        return any(unknown(I, x, depth + 1, seen) for x in I.heap[v.id].fields.values())
    return False


def influence(ck, where, param, tag, build, scene=False, known=None, fallback=False):
    """build(I, scene) -> (call, option, outputs): the option occurs in something observable."""
    sc = Scene(ck) if scene == "loop" else Scene(ck, unroll=scene, lets=3) if scene else None
    I = sc.I if sc else ck.interp()
    if not fallback:
        I.may_raise = lambda *a: None
    if not sc:
        I.hooks["tqli.tqli"] = tqli_hook([])
    call, opt, outs, truths = (tuple(build(I, sc)) + ((), ()))[:4]
    mark = len(I.events)

    def go():
        for t in tuple(truths) + tuple(opt.truths):
            I.assume_true(t)
        return call()
    r, ex = I.run(go)
    construct = f"{where}({known or param})"
    if r is MISSING:
        return ck.undecided("option-used", construct, f"{tag}: no path returns ({[(x.kind, getattr(x.value, "name", None) or repr(x.value), x.pos, str(x.guard)[:120]) for x in ex]})")
    deep = set()
    for p in observed(I, r, outs, mark):
        deep |= poly.atoms_deep(p)
    if opt.occurs(deep):
        return ck.ok("option-used", construct, tag)
    vague = sorted({str(ATOMS[a].args[1:2]) for a in deep if ATOMS[a].kind == "bl" and ATOMS[a].args[0] in ("unk", "hasattr")})
    if I.incomplete or unknown(I, r) or any(unknown(I, o) for o in outs) or vague or any(p is None for p in deep):
        return ck.undecided("option-used", construct, f"{tag}: does not occur in what was modelled ({sorted(set(map(str, I.incomplete)))[:2]})")
    return ck.bad("option-used", construct, f"{tag}: nothing returned, written or called depends on it")


def plain(mod, fn, pos, base, params, truths=(), out=(), after=None, cls=False):
    """(parameter, tag, build) for a plain callable: base options, with one parameter at a time replaced by an abstract one."""
    for p, mk in params.items():
        def build(ck, p=p, mk=mk):
            def f(I, sc):
                g = ck.public(I, mod, fn)
                a = [x(I) if callable(x) else x for x in pos]
                vals = {k: (v(I) if callable(v) else v) for k, v in base.items()}
                opt = mk(I)
                if isinstance(p, int):
                    a[p] = opt.value
                else:
                    vals[p] = opt.value
                outs = [vals[k] for k in out if k in vals] + [a[k] for k in out if isinstance(k, int)]

                def call():
                    r = I.call(g, a, vals)
                    return after(I, r) if after else r
                return call, opt, outs, [t(I, a, vals) for t in truths]
            return f
        yield p, build


# sizes shared between the arguments of one run
class Size:
    def __init__(self, name="n", lo=2):
        self.name, self.lo = name, lo

    def __call__(self, I):
        t = I.__dict__.setdefault("sizes", {})
        if self.name not in t:
            t[self.name] = isym(self.name, self.lo)
        return t[self.name]


NN, K = Size("n", 6), Size("k", 2)
size = lambda I: N(NN(I))
vec = lambda name, d=NN: (lambda I: arr(I, name, (d(I) if callable(d) else P(d),))[0])
mat = lambda name, d=NN, e=NN: (lambda I: arr(I, name, (d(I) if callable(d) else P(d), e(I) if callable(e) else P(e)))[0])
op = lambda kind: (lambda I: operator(I, kind, NN(I)))
rng = lambda I: Rng(("user", fresh_name("gen")))
opaque = lambda name: (lambda I: PrimV(name, lambda I, x: npm.ew(I, lambda t: poly.fun("~" + name, t), x)))


def table():
    """(where, tag, generator of (parameter, build), scene)"""
    for pdf in ("rademacher", "sphere", "normal"):
        yield "primate.random.isotropic", f"pdf={pdf}", plain("random", "isotropic", [], {"size": lambda I: (N(NN(I)), N(K(I))), "pdf": pdf, "seed": rng}, {"size": lambda I: shape(I), "seed": whole("seed", 0)}), None
        yield "primate.random.isotropic", f"pdf={pdf}, in place", plain("random", "isotropic", [], {"pdf": pdf, "seed": rng, "out": mat("out", NN, K)}, {"seed": whole("seed", 0)}, out=("out",)), None
    yield "primate.random.isotropic", "", plain("random", "isotropic", [], {"size": lambda I: (N(NN(I)), N(K(I))), "seed": rng}, {"pdf": choice("rademacher", "normal")}), None

    def fill(I, o):
        v = I.getattr(o, "values")
        if isinstance(v, ARef):
            I.regions_only.add(v.buf)
        method(I, o, "fill")
        return v
    yield "primate.random.Isotropic", "", plain("random", "Isotropic", [lambda I: (N(NN(I)), N(K(I)))], {"seed": rng, "threads": lambda I: N(isym("T", 1))}, {0: lambda I: shape(I), "seed": whole("seed", 0), "threads": whole("threads", 1)}, after=fill), None
    for pd in (False, True):
        yield "primate.random.symmetric", f"pd={pd}", plain("random", "symmetric", [size], {"seed": rng, "pd": pd}, {0: whole("n", 2), "dist": choice("normal", "uniform"), "ew": array("ew", NN), "seed": whole("seed", 0)}), None
    for ew in (False, True):
        yield "primate.random.symmetric", "given spectrum" if ew else "", plain("random", "symmetric", [size], {"seed": rng, **({"ew": vec("ew")} if ew else {})}, {"pd": flag("pd")}), None
    yield "primate.random.haar", "", plain("random", "haar", [size], {"seed": rng}, {"ew": array("ew", NN), "seed": whole("seed", 0)}), None
    # statistics
    for sdist in ("t", "normal"):
        yield "primate.stats.confidence_interval", f"sdist={sdist}", plain("stats", "confidence_interval", [vec("a")], {"sdist": sdist}, {0: array("a", NN), "confidence": level("confidence")}), None
    yield "primate.stats.confidence_interval", "", plain("stats", "confidence_interval", [vec("a")], {}, {"sdist": choice("t", "normal")}), None
    # spectral functions
    x = vec("x")
    for how, after in (("given data", None), ("curried", lambda I, f: I.call(f, [x(I)], {}))):
        b = {} if after else {"x": x}
        for fn, ps in (("softsign", {"q": choice(2, 3)}), ("smoothstep", {"a": real("a"), "b": real("b"), "deg": choice(3, 5)}), ("exp", {"t": real("t")}), ("step", {"c": real("c"), "nonnegative": flag("nonnegative")})):
            yield f"primate.special.{fn}", how, plain("special", fn, [], b, ps, after=after), None
    apply = lambda I, f: I.call(f, [x(I)], {})
    for name, ps in (("exp", {"t": real("t")}), ("smoothstep", {"a": real("a"), "b": real("b")}), ("softsign", {"q": choice(2, 3)}), ("numrank", {"threshold": real("threshold", 0)})):
        yield "primate.special.param_callable", name, plain("special", "param_callable", [name], {}, ps, after=apply), None
    yield "primate.special.param_callable", "", plain("special", "param_callable", ["abs"], {}, {0: choice("abs", "sqrt")}, after=apply), None
    # linear algebra, tridiagonal solvers, quadrature
    yield "primate.linalg.update_trinv", "", plain("linalg", "update_trinv", [mat("X"), lambda I: arr(I, "b", (NN(I) + 1,))[0]], {}, {0: array("X", NN, NN), 1: array("b", lambda I: NN(I) + 1)}), None
    for fn in ("eigh_tridiag", "eigvalsh_tridiag"):
        for lead in (True, False):
            e = lambda I, lead=lead: NN(I) if lead else NN(I) - 1
            yield f"primate.tridiag.{fn}", f"{'leading zero' if lead else 'no leading zero'}", plain("tridiag", fn, [vec("d"), vec("e", e)], {}, {0: array("d", NN), 1: array("e", e), "method": choice("mrrr", "tqli")}), None
            for meth in ("tqli", "auto"):
                yield f"primate.tridiag.{fn}", f"method={meth}, {'leading zero' if lead else 'no leading zero'}", plain("tridiag", fn, [vec("d"), vec("e", e)], {"method": meth}, {"maxiter": whole("maxiter", 1)}), "tri"
    for lead in (True, False):
        e = lambda I, lead=lead: NN(I) if lead else NN(I) - 1
        le = "leading zero" if lead else "no leading zero"
        yield "primate.integrate.quadrature", le, plain("integrate", "quadrature", [vec("d"), vec("e", e)], {}, {0: array("d", NN), 1: array("e", e), "deg": whole("deg", 1), "method": choice("mrrr", "tqli")}), None
        yield "primate.integrate.quadrature", f"{le}, QL kernel", plain("integrate", "quadrature", [vec("d"), vec("e", e)], {"method": "tqli"}, {"maxiter": whole("maxiter", 1)}), None
        yield "primate.integrate.quadrature", f"{le}, given outputs", plain("integrate", "quadrature", [vec("d"), vec("e", e)], {"nodes": vec("nodes"), "weights": vec("weights")}, {0: array("d", NN), 1: array("e", e)}, out=("nodes", "weights")), None
        three = lambda nm: vec(nm, 3)
        yield "primate.integrate.quadrature", f"{le}, three nodes", plain("integrate", "quadrature", [three("d"), vec("e", 3 if lead else 2)], {}, {"quad": choice("gw", "fttr")}), None
        for meth in ({}, {"method": "tqli"}):
            ps = {"maxiter": whole("maxiter", 1)} if meth else {0: array("d", 3), 1: array("e", lambda I, lead=lead: P(3 if lead else 2)), "method": choice("mrrr", "tqli")}
            yield "primate.integrate.quadrature", f"{le}, three nodes, forward recurrence, {meth}", plain("integrate", "quadrature", [three("d"), vec("e", 3 if lead else 2)], {"quad": "fttr", **meth}, ps), None
        yield "primate.integrate.quadrature", f"{le}, three nodes, forward recurrence", plain("integrate", "quadrature", [three("d"), vec("e", 3 if lead else 2)], {"quad": "fttr"}, {"deg": choice(2, 3)}), None
    for n in (2, 3):
        pos = [vec("theta", n), vec("alpha", n), vec("beta", n), n, vec("weights", n)]
        yield "primate.fttr.fttr", f"{n} nodes", plain("fttr", "fttr", pos, {}, {0: array("theta", n), 1: array("alpha", n), 2: array("beta", n)}, out=(4,)), None
    yield "primate.fttr.fttr", "3 nodes, degree 2 or 3", plain("fttr", "fttr", [vec("theta", 3), vec("alpha", 3), vec("beta", 3), 3, vec("weights", 3)], {}, {3: choice(2, 3)}, out=(4,)), None
    # operators
    mv = lambda I, o: I.call(I.getattr(o, "matvec"), [x(I)], {})
    qd = lambda I, o: I.call(I.getattr(o, "quad"), [x(I)], {})
    low = (lambda I, a, kw: ge(NN(I) - P_of(kw["deg"])),)
    for kind in ("array", "operator"):
        for how, after in (("product", mv), ("quadratic form", qd)):
            base = {"fun": opaque("f"), "deg": lambda I: N(K(I))}
            mkf = lambda I: fopt(I)
            tr = (lambda I, a, kw: ge(NN(I) - P_of(kw["deg"])),)
            yield "primate.operators.MatrixFunction", f"{how}, {kind} operator", plain("operators", "MatrixFunction", [op(kind)], base, {"fun": mkf, "deg": whole("deg", 2), "orth": whole("orth", 0), "rtol": real("rtol", 0)}, truths=tr, after=after), None
        for nm, ps in (("exp", {"t": real("t")}), ("numrank", {"threshold": real("threshold", 0)}), ("smoothstep", {"a": real("a"), "b": real("b")})):
            for how, after in (("product", mv), ("quadratic form", qd)):
                yield "primate.operators.MatrixFunction", f"{how}, {kind} operator, {nm}", plain("operators", "MatrixFunction", [op(kind)], {"fun": nm, "deg": lambda I: N(K(I))}, {**ps, "rtol": real("rtol", 0)}, after=after), None
        yield "primate.operators.matrix_function", f"{kind} operator", plain("operators", "matrix_function", [op(kind)], {"fun": opaque("f"), "v": vec("v"), "deg": lambda I: N(K(I))}, {"fun": lambda I: fopt(I), "v": array("v", NN), "deg": whole("deg", 2)}), None
        for out in ({}, {"return_basis": True}, {"sparse_mat": True}, {"return_basis": True, "sparse_mat": True}):
            ps = {"v0": array("v0", NN), "deg": whole("deg", 1), "rtol": real("rtol", 0), "orth": whole("orth", 0), "sparse_mat": flag("sparse_mat"), "return_basis": flag("return_basis")}
            yield "primate.lanczos.lanczos", f"{kind} operator, {sorted(out)}", plain("lanczos", "lanczos", [op(kind)], {"v0": vec("v0"), "deg": lambda I: N(K(I)), **out}, {k: v for k, v in ps.items() if k not in out}), None
            yield "primate.lanczos.lanczos", f"{kind} operator, {sorted(out)}, drawn start", plain("lanczos", "lanczos", [op(kind)], {"deg": lambda I: N(K(I)), **out}, {"seed": whole("seed", 0)}), None
        for out in ({}, {"return_eigenvectors": True}, {"return_basis": True}, {"return_eigenvectors": True, "return_basis": True}):
            ps = {"v0": array("v0", NN), "deg": whole("deg", 2), "rtol": real("rtol", 0), "orth": whole("orth", 0), "return_eigenvectors": flag("return_eigenvectors"), "method": choice("rrr", "tqli"), "return_basis": flag("return_basis")}
            yield "primate.lanczos.rayleigh_ritz", f"{kind} operator, {sorted(out)}", plain("lanczos", "rayleigh_ritz", [op(kind)], {"v0": vec("v0"), "deg": lambda I: N(K(I)), **out}, {k: v for k, v in ps.items() if k not in out}), None
    for row in (False, True):
        yield "primate.operators.Toeplitz", "column and row" if row else "column", plain("operators", "Toeplitz", [vec("c")], {"r": vec("r")} if row else {}, {0: array("c", NN), "r": array("r", NN)}, after=mv), None


def fopt(I):
    b = poly.opaque_bool("choice", fresh_name("choice"))
    g, h = fresh_name("g"), fresh_name("h")
    f = PrimV("f", lambda I, x: npm.ew(I, lambda t: phi(b, poly.fun("~" + g, t), poly.fun("~" + h, t)), x))
    return Opt(f, aid_of(b))


def shape(I):
    s = isym("rows", 1)
    return Opt((N(s), N(K(I))), aid_of(s))


def estimators():
    """(where, parameter, tag, build, scene)"""
    def est(mod, fn, kind, base, p, mk, known=None):
        def build(ck):
            def f(I, sc):
                g = ck.public(I, mod, fn)
                vals = {k: (v(I) if callable(v) else v) for k, v in base.items()}
                if "converge" not in vals and p != "converge" and fn != "hutchpp" and fn != "xdiag":
                    vals["converge"] = sc.user_criterion()
                elif vals.get("converge") == "default":
                    pass
                if vals.get("callback") == "yes":
                    vals["callback"] = sc.callback()
                if vals.get("seed") is None:
                    vals["seed"] = N(isym("seed", 0))
                opt = mk(I, sc) if p == "converge" or p == "callback" or p == "pdf" else mk(I)
                vals[p] = opt.value
                A = operator(I, kind, NN(I))
                return (lambda: est_value(I, I.call(g, [A], vals))), opt, ()
            return f
        return build

    def est_value(I, r):
        return r
    pdfs = lambda I, sc: choice("rademacher", "sphere")(I)
    crit = lambda I, sc: choice(sc.user_criterion(), sc.user_criterion())(I)

    def cb(I, sc):
        b = poly.opaque_bool("choice", fresh_name("callback"))
        return Opt(PrimV("callback", lambda I, r: I.event("callback", which=Sc(b, "bool")) and None), aid_of(b))
    for kind in ("array", "operator", "quad"):
        for full in (False, True):
            for call in (False, True):
                opts = {"full": full, **({"callback": "yes"} if call else {})}
                t = f"{kind} operator, full={full}, callback={call}"
                ps = {"batch": whole("batch", 1), "pdf": pdfs, "converge": crit, "seed": whole("seed", 0)}
                for p, mk in ps.items():
                    yield "primate.trace.hutch", p, t, est("trace", "hutch", kind, opts, p, mk), "loop", (p if p != "batch" or full or call else "batch with full=False and no callback")
                    if p != "batch":
                        yield "primate.diagonal.diag", p, t, est("diagonal", "diag", kind, opts, p, mk), "loop", p
            for fn, mod in (("hutch", "trace"), ("diag", "diagonal")):
                yield f"primate.{mod}.{fn}", "callback", f"{kind} operator, full={full}", est(mod, fn, kind, {"full": full}, "callback", cb), "loop", "callback"
            for mode in ("reduced", "full"):
                for p, mk in {"m": whole("m", 1), "pdf": pdfs, "seed": whole("seed", 0)}.items():
                    yield "primate.trace.hutchpp", p, f"{kind} operator, mode={mode}, full={full}", est("trace", "hutchpp", kind, {"mode": mode, "full": full}, p, mk), "loop", p
            if kind != "array":  # on a plain array, the two modes are the same products
                yield "primate.trace.hutchpp", "mode", f"{kind} operator, full={full}", est("trace", "hutchpp", kind, {"full": full}, "mode", choice("reduced", "full")), "loop", "mode"
        for fn, mod in (("hutch", "trace"), ("diag", "diagonal"), ("hutchpp", "trace")):
            yield f"primate.{mod}.{fn}", "full", f"{kind} operator", est(mod, fn, kind, {}, "full", flag("full")), "loop", "full"
    for p, mk in {"m": whole("m", 1), "pdf": pdfs, "seed": whole("seed", 0)}.items():
        yield "primate.diagonal.xdiag", p, "array", est("diagonal", "xdiag", "array", {}, p, mk), "loop", p
    for p, mk in {"batch": choice(1, 2), "pdf": pdfs, "converge": crit, "seed": whole("seed", 0), "full": flag("full"), "callback": cb}.items():
        for full in ((False, True) if p != "full" else (None,)):
            for cbk in (False, True):
                if p != "callback" or not cbk:
                    opts = {"batch": 1, **({} if full is None else {"full": full}), **({"callback": "yes"} if cbk else {})}
                    yield "primate.trace.xtrace", p, f"array, full={full}, callback={cbk}", est("trace", "xtrace", "array", opts, p, mk), 2, p
    for mod, fn in (("trace", "hutch"), ("diagonal", "diag"), ("trace", "xtrace")):
        for full in (False, True):
            yield f"primate.{mod}.{fn}", "record", f"array, full={full}", est(mod, fn, "array", {"full": full, **({"batch": 1} if fn == "xtrace" else {})}, "record", flag("record")), 2 if fn == "xtrace" else "loop", "record"
    # criterion options
    for kind in ("array",):
        for mod, fn, dflt in (("trace", "hutch", True), ("diagonal", "diag", False), ("trace", "xtrace", False)):
            for conv, ps in (("count", {"count": whole("count", 1)}), ("confidence", {"confidence": level("confidence"), "atol": real("atol", 0), "rtol": real("rtol", 0)}),
                             ("tolerance", {"atol": real("atol", 0), "rtol": real("rtol", 0), "ord": real("ord", 1)}), ("knee", {"S": real("S", 0)}),
                             ("default", {"count": whole("count", 1), "confidence": level("confidence"), "atol": real("atol", 0), "rtol": real("rtol", 0)})):
                if conv == "default" and not dflt:
                    continue
                for full in (False, True):
                    for p, mk in ps.items():
                        if p == "ord" and fn != "diag":
                            continue  # every norm of a number is its magnitude
                        yield f"primate.{mod}.{fn}", p, f"converge={conv}, full={full}", est(mod, fn, kind, {"converge": conv, "full": full, **({"batch": 1} if fn == "xtrace" else {})}, p, mk), 2 if fn == "xtrace" else "loop", f"{p} with converge='{conv}'"


def dtypes(I, v):
    """Element types of the arrays and objects in a value."""
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in dtypes(I, y)]
    if isinstance(v, PhiV):
        return dtypes(I, v.a) + dtypes(I, v.b)
    if isinstance(v, ARef):
        return [str(npm.dt_of(I, v))]
    if isinstance(v, ORef):
        d = I.heap[v.id].fields.get("dtype")
        return [d.name if isinstance(d, DtV) else "?"]
    return []


def typed(ck, where, tag, build):
    """The element type asked for decides the element type obtained."""
    got = []
    for dt in ("float64", "float32"):
        I = ck.interp()
        I.may_raise = lambda *a: None
        I.hooks["tqli.tqli"] = tqli_hook([])
        r, ex = I.run(lambda: build(I, DtV(dt)))
        got.append(None if r is MISSING else dtypes(I, r))
    if None in got or not got[0] or any(x in ("?", "None") for g in got for x in g):
        return ck.undecided("option-used", f"{where}(dtype)", f"{tag}: element types {got}")
    ck.require("option-used", f"{where}(dtype)", got[0] != got[1], f"{tag}: {sorted(set(got[0]))} whatever is asked for" if got[0] == got[1] else tag)


def typed_cases():
    x = vec("x")
    for kind in ("array", "operator"):
        def mf(I, dt, ck, kind=kind):
            o = I.call(ck.public(I, "operators", "MatrixFunction"), [op(kind)(I)], {"fun": opaque("f")(I), "deg": N(3), "dtype": dt})
            return (o, I.call(I.getattr(o, "matvec"), [x(I)], {}))
        yield "primate.operators.MatrixFunction", f"{kind} operator", mf
        for basis in (False, True):
            yield "primate.lanczos.lanczos", f"{kind} operator, return_basis={basis}", lambda I, dt, ck, kind=kind, basis=basis: I.call(
                ck.public(I, "lanczos", "lanczos"), [op(kind)(I)], {"v0": vec("v0")(I), "deg": N(K(I)), "return_basis": basis, "dtype": dt})
    for row in (False, True):
        def tp(I, dt, ck, row=row):
            o = I.call(ck.public(I, "operators", "Toeplitz"), [vec("c")(I)], {"dtype": dt, **({"r": vec("r")(I)} if row else {})})
            return (o, I.call(I.getattr(o, "matvec"), [x(I)], {}))
        yield "primate.operators.Toeplitz", "column and row" if row else "column", tp


def unread(ck):
    """Parameters of public functions and constructors that are never read."""
    import ast, glob
    for path in sorted(glob.glob(os.path.join(SRC, "*.py"))):
        mod = os.path.basename(path)[:-3]
        if mod in ("plotting", "typing"):
            continue
        tree = ast.parse(open(path).read())
        fns = [(n.name, n) for n in tree.body if isinstance(n, ast.FunctionDef) and not n.name.startswith("_")]
        fns += [(c.name, m) for c in tree.body if isinstance(c, ast.ClassDef) and not c.name.startswith("_") for m in c.body if isinstance(m, ast.FunctionDef) and m.name == "__init__"]
        for name, fn in fns:
            a = fn.args
            used = {n.id for s in fn.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            doc = ast.get_docstring(fn) or ""
            for p in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]:
                if p in ("self", "cls") or p.startswith("_") or "locals" in used or any(l.strip().startswith(p + ":") and "unused" in l for l in doc.splitlines()):
                    continue
                ck.require("option-read", f"primate.{mod}.{name}({p})", p in used, "" if p in used else "never read")


@prop("C31", "For every public function and constructor, and every option it documents, one run is made with that option abstract (a symbol, an array of unknown "
      "entries, an unknown truth value, or an undetermined choice between two settings) and the others fixed, over all combinations of the options that select a "
      "path; the option must occur in the normal form of something observable: the result (of the object's methods for constructors), the output arrays, the arguments "
      "and conditions of calls to operators, samplers, criteria, callbacks and the native routine, or the condition under which a loop ends. An option occurring "
      "only in the validation of the arguments counts as dropped.", tech="abstract interpretation: dependence of gated value graphs on option symbols")
def c31(ck):
    for where, tag, gen, mode in table():
        for p, build in gen:
            name = p if isinstance(p, str) else {"primate.linalg.update_trinv": ("B_inv", "b"), "primate.fttr.fttr": ("theta", "alpha", "beta", "k"), "primate.operators.Toeplitz": ("c",),
                                                 "primate.stats.confidence_interval": ("a",), "primate.random.symmetric": ("n",), "primate.random.Isotropic": ("size",), "primate.special.param_callable": ("fun",)}.get(where, ("d", "e"))[p]
            ck.attempt("option-used", f"{where}({name})", lambda: influence(ck, where, name, tag, build(ck), fallback=mode == "tri"))
    for where, tag, build in typed_cases():
        ck.attempt("option-used", f"{where}(dtype)", lambda: typed(ck, where, tag, lambda I, dt: build(I, dt, ck)))
    unread(ck)
    for where, p, tag, build, scene, known in estimators():
        ck.attempt("option-used", f"{where}({known})", lambda: influence(ck, where, p, tag, build(ck), scene, known))
