"""What estimators and operators accept and refuse (C32)."""
from .. import npm, poly, witness
from ..chk import prop
from ..lib import *
from ..values import *
from .c_est import Scene

GOOD, BAD = ("float32", "float64"), ("int64", "int32", "bool", "complex128", "complex64", "float16", "longdouble")
WORK = ("probe", "draw", "native", "quad", "update", "callback")


class Bare(ObjM):
    """An object with exactly the given attributes."""
    strict = True


ESTIMATORS = [
    ("trace", "hutch", lambda sc: {"converge": sc.user_criterion(), "full": False}, "full=False"),
    ("trace", "hutch", lambda sc: {"converge": sc.user_criterion(), "full": True, "callback": sc.callback()}, "full=True"),
    ("trace", "hutchpp", lambda sc: {"m": N(isym("m", 1))}, "default mode"),
    ("trace", "hutchpp", lambda sc: {"mode": "full", "full": True}, "mode='full'"),
    ("diagonal", "diag", lambda sc: {"converge": sc.user_criterion(), "full": False}, "full=False"),
    ("diagonal", "diag", lambda sc: {"converge": sc.user_criterion(), "full": True, "callback": sc.callback()}, "full=True"),
]


@prop("C32", "Every validating entry point (hutch, hutchpp, diag; MatrixFunction and matrix_function) is run on abstract operators: without product, "
      "without shape, with one dimension, of symbolic n x m shape (refused exactly when n differs from m), and with every dtype class; no probe is drawn, "
      "product or quadratic form taken on a refused operator; probes have the operator's dtype. Degrees are symbolic (refused exactly below two); "
      "spectral functions are non-callable, unknown names, length-changing or not array-valued, at construction and by later assignment.")
def c32(ck):
    for mod, fn, opts, tag in ESTIMATORS:
        where = f"primate.{mod}.{fn}"
        for what in ("no-product", "no-shape", "one-dimensional", "rectangular", "rectangular-array") + tuple("dtype:" + d for d in BAD + GOOD) + ("array-dtype:int64", "array-dtype:complex128", "array-dtype:float16", "array-dtype:float32", "inferred:float32", "inferred:float64", "inferred:int64", "inferred:complex128"):
            ck.attempt("refused", where, lambda: c32_est(ck, where, mod, fn, opts, f"{what}, {tag}", what))
    for what in ("no-product", "no-shape", "one-dimensional", "rectangular", "rectangular-array", "degree", "degree-default"):
        for fn in ("MatrixFunction", "matrix_function"):
            ck.attempt("refused", f"primate.operators.{fn}", lambda: c32_mf(ck, fn, what))
    for what in ("five", "none", "shorter", "longer", "scalar", "list", "unknown-name", "name", "identity", "symbolic-length"):
        for how in ("MatrixFunction", "matrix_function", "assignment"):
            ck.attempt("refused", "primate.operators.MatrixFunction", lambda: c32_fun(ck, how, what))
    ck.attempt("reported", "primate.operators.is_valid_operator", lambda: c32_reported(ck))


def product(I, rows, dt):
    """A user product of the given number of rows and dtype; logs the vectors it is applied to."""
    nm = fresh_name("prod")

    def mul(I, v):
        if not isinstance(v, ARef):
            return Unk("product")
        x = freeze(I, v)
        zero = all_zero(I, x)
        I.event("product", x=x, zero=zero)
        cols = x.dims[1:]
        if zero:
            return npm.build(I, (P(rows),) + tuple(cols), lambda iv: ZERO, dt)
        o = OpM(I, rows, x.dims[0], dtype=dt)
        return npm.matmul(I, o.matrix(I), x)
    return mul


def all_zero(I, x):
    ix = [fresh_index(d) for d in x.dims]
    return poly.is_zero(npm.elem(I, x, ix))


def candidate(I, what):
    """(operator, guard under which it has to be refused)"""
    n = isym("n", 1)
    if what == "no-product":
        return Bare("thing", shape=(N(n), N(n)), dtype=DtV("float64"), ndim=2), ONE, n
    if what == "no-shape":
        return Bare("thing", **{"__matmul__": product(I, n, "float64"), "matvec": PrimV("matvec", product(I, n, "float64")), "dtype": DtV("float64")}), ONE, n
    if what == "one-dimensional":
        return arr(I, "A", (n,))[0], ONE, n
    if what == "rectangular":
        m = isym("m", 1)
        return OpM(I, n, m), ONE - eq(n - m), n
    if what == "rectangular-array":
        m = isym("m", 1)
        return arr(I, "A", (n, m))[0], ONE - eq(n - m), n
    kind, dt = what.split(":")
    refused = ONE if dt not in GOOD else ZERO
    if kind == "array-dtype":
        return arr(I, "A", (n, n), dt)[0], refused, n
    if kind == "inferred":
        mul = product(I, n, dt)
        return Bare("operator", **{"__matmul__": mul, "matvec": PrimV("matvec", mul), "shape": (N(n), N(n)), "ndim": 2}), refused, n
    return OpM(I, n, dtype=dt), refused, n


def verdict(ck, rule, where, I, ex, bad, tag, mark=0):
    """A run is refused exactly where `bad` holds, and nothing has been done by then."""
    out, base = ZERO, I.base
    for e in raising(ex):
        out = out + e.guard
    if not (bad.is_const() and not bad.cval()):
        ck.zero(rule, where, bad * (ONE - out), detail=f"{tag}: an invalid argument is accepted")
        for e in I.events[mark:]:
            if e.kind in WORK or e.kind == "matvec" and not all_zero(I, e.x) or e.kind == "product" and not e.zero:
                if not (bad.is_const() and e.kind == "product" and e.zero):
                    ck.zero("before-sampling", where, bad * e.guard, base=base, detail=f"{tag}: {e.kind} at {e.pos[0]}:{e.pos[1]} although the argument is invalid")
    if not (bad.is_const() and bad.cval()):
        for e in raising(ex):
            ck.zero("accepted", where, (ONE - bad) * e.guard, base=e.state.facts, detail=f"{tag}: a valid argument is refused ({e.value} at {e.pos[0]}:{e.pos[1]})")


def c32_est(ck, where, mod, fn, opts, tag, what):
    sc = Scene(ck, unroll=1)
    I = sc.I
    I.may_raise = lambda *a: None
    f = ck.public(I, mod, fn)
    A, bad, n = candidate(I, what)
    k = {}

    def go():
        k.update(opts(sc))
        k["seed"] = N(isym("seed", 0))
        if "m" in k:
            I.assume_true(ge(n - 3))
        return I.call(f, [A], dict(k))
    r, ex = I.run(go)
    ex = [e for e in ex if not unrelated(e)]
    verdict(ck, "refused", where, I, ex, bad, tag)
    dt = what.split(":")[-1] if ":" in what else "float64"
    if bad.is_const() and not bad.cval():
        for e in I.events:
            if e.kind == "matvec" and e.op is A or e.kind == "product" and not e.zero:
                got = I.heap[e.x.buf].dtype
                ck.require("precision", where, got == dt, f"{tag}: the operator of dtype {dt} is applied to a {got} vector at {e.pos[0]}:{e.pos[1]}")


def unrelated(e):
    return False


def c32_reported(ck):
    for dt in GOOD:
        for what in ("dtype:", "array-dtype:", "inferred:"):
            I = ck.interp()
            f = ck.public(I, "operators", "is_valid_operator")
            A, _bad, n = candidate(I, what + dt)
            r, ex = I.run(lambda: I.call(f, [A], {}))
            where = "primate.operators.is_valid_operator"
            ck.no_raise("accepted", where, ex, what + dt)
            if isinstance(r, Unk) or r is MISSING:
                ck.undecided("reported", where, what + dt)
                continue
            got = r.name if isinstance(r, DtV) else r
            ck.require("reported", where, got == dt, f"{what}{dt}: reported precision {got!r}")


def mf_call(I, ck, fn, A, g, **kw):
    f = ck.public(I, "operators", fn)
    if g is not MISSING:
        kw["fun"] = g
    return I.call(f, [A], kw)


def c32_mf(ck, fn, what):
    where = f"primate.operators.{fn}"
    I = ck.interp()
    I.may_raise = lambda *a: None
    g = PrimV("f", lambda I, x: npm.ew(I, lambda t: fun("~f", t), x))
    kw = {}
    if what.startswith("degree"):
        A, bad = OpM(I, isym("n", 2)), ZERO
        if what == "degree":
            d = isym("deg", None)
            kw["deg"] = N(d)
            bad = ge(P(1) - d)
    else:
        A, bad, _n = candidate(I, what)
    r, ex = I.run(lambda: mf_call(I, ck, fn, A, g, **kw))
    verdict(ck, "refused", where, I, ex, bad, what)


def functions(I, what, n):
    """(spectral function, guard under which it has to be refused)"""
    if what == "five":
        return 5, ONE
    if what == "none":
        return None, ZERO
    if what == "unknown-name":
        return "no such function", ONE
    if what == "name":
        return "smoothstep", ZERO
    if what == "identity":
        return user(I, "f = lambda x: x\n")["f"], ZERO
    if what == "shorter":
        return user(I, "f = lambda x: x[:-1]\n")["f"], ONE
    if what == "longer":
        return user(I, "import numpy as np\nf = lambda x: np.append(x, 1.0)\n")["f"], ONE
    if what == "scalar":
        return user(I, "import numpy as np\nf = lambda x: float(np.sum(x))\n")["f"], ONE
    if what == "list":
        return user(I, "f = lambda x: [1.0, 2.0]\n")["f"], ONE
    m = isym("length", 0)
    return PrimV("f", lambda I, x: arr(I, "fx", (m,))[0]), ONE - eq(n - m)


def c32_fun(ck, how, what):
    where = "primate.operators.MatrixFunction"
    I = ck.interp()
    I.may_raise = lambda *a: None
    n = isym("n", 2)
    A = OpM(I, n)
    tag = f"{what} by {how}"
    mark = [0]

    if how == "assignment":
        if what in ("none", "unknown-name", "name"):
            return
        o, ex = I.run(lambda: mf_call(I, ck, "MatrixFunction", A, MISSING))
        ck.no_raise("accepted", where, ex, "default function")
        if o is MISSING:
            return
        old, ex = I.run(lambda: I.getattr(o, "fun"))
        if not ck.require("kept", where, old is not MISSING, "a constructed matrix function has a function") or old is MISSING:
            return
        g, bad = functions(I, what, n)
        r, ex = I.run(lambda: I.setattr(o, "fun", g))
        verdict(ck, "refused", where, I, ex, bad, tag)
        now, ex = I.run(lambda: I.getattr(o, "fun"))
        if bad.is_const():
            ck.require("kept", where, veq(now, old if bad.cval() else g), f"{tag}: the function is {now!r} afterwards")
        return
    g, bad = functions(I, what, n)
    r, ex = I.run(lambda: mf_call(I, ck, how, A, g))
    verdict(ck, "refused", where, I, ex, bad, tag)
