"""The tridiagonal QL kernel (C25)."""
import itertools
from .. import npm, poly, witness
from ..chk import prop
from ..lib import *
from ..values import *

WHERE = "primate.tqli.tqli"


@prop("C25", "The QL kernel is analysed as a whole on 2x2, 3x3 (and, thorough, 4x4) tridiagonal matrices with symbolic entries, all sign patterns and all "
      "patterns of vanishing off-diagonals, for iteration limits that allow one or two sweeps per eigenvalue: with Q the accumulated factor, Q is orthogonal, "
      "and Q'TQ has the returned diagonal, its trailing block is the returned tridiagonal matrix and the norms of its upper rows are the returned off-diagonals "
      "(identities of nested radicals, decided by evaluation under many interpretations). A symbolic Z is multiplied by the same Q, an empty Z changes nothing. "
      "Every denominator met is evaluated over a grid of diagonals (equal entries included) with nonzero off-diagonals: it must not vanish.", level="other")
def c25(ck):
    sizes = (2, 3) if ck.tier == "quick" else (2, 3, 4)
    for n in sizes:
        for limit in (0, 1) if n < 4 else (0,):
            for pat in itertools.product("+-0", repeat=n - 1):
                pat = "".join(pat)
                if n == 4 and "-" in pat or limit and (n != 3 or pat != "++"):
                    continue      # (a second sweep of a 2x2 block finds it diagonal already)
                for diag in ("free", "equal", "tied", "zero"):
                    if diag != "free" and ("-" in pat or limit and ck.tier == "quick"):
                        continue
                    ck.attempt("similar", WHERE, lambda: c25_case(ck, n, limit, pat, diag))
    ck.attempt("similar", WHERE, lambda: c25_one(ck))


def matrix(I, n, pat, diag, what="a"):
    """(diagonal entries, off-diagonal entries with leading zero, d array, e array)"""
    es = [ZERO]
    for k, c in enumerate(pat):
        x = fsym(f"e{k + 1}", 0)
        es.append(ZERO if c == "0" else x if c == "+" else -x)
        if c != "0":
            I.assume_true(ONE - eq(x))
    x, y = fsym("d"), fsym("dd")
    ds = {"free": [fsym(f"d{k}") for k in range(n)], "equal": [x] * n, "tied": [x, x] + [y] * (n - 2), "zero": [ZERO] * n}[diag]
    return ds, es


def listed(I, xs, note="user"):
    def at(i):
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = phi(eq(i - k), xs[k], r)
        return r
    return given(I, (len(xs),), at, note=note)


def small(I, p):
    return npm.let(I, (), (), p) if npm.weight(p) > 2 else p


def sweep(ck, ds, es, Z, limit, pre):
    """Runs the kernel; returns (interpreter, diagonal, off-diagonal, Z entries, exits)."""
    I = ck.interp()
    I.while_mode = ("unroll", 4)
    I.let_at = I.let_scalar = 4
    I.let_joins = I.log_div = True
    f = ck.public(I, "tqli", "tqli")
    n = len(ds)
    for t in pre:
        I.assume_true(t)
    d, e = listed(I, ds), listed(I, es)
    z = {"identity": lambda: given(I, (n, n), lambda i, j: eq(i - j)), "empty": lambda: given(I, (0, 0), lambda i, j: ZERO)}.get(Z, lambda: given(I, (n, n), Z))()
    r, ex = I.run(lambda: I.call(f, [d, e, z, limit], {}))
    if r is MISSING:
        return I, None, None, None, ex
    D = [npm.elem(I, d, [P(k)]) for k in range(n)]
    E = [npm.elem(I, e, [P(k)]) for k in range(n)]
    Q = None if Z == "empty" else [[npm.elem(I, z, [P(i), P(j)]) for j in range(n)] for i in range(n)]
    return I, D, E, Q, ex


def c25_case(ck, n, limit, pat, diag):
    tag = f"n={n}, off-diagonals {pat}, {diag} diagonal, limit {limit}"
    I0 = ck.interp()
    ds, es = matrix(I0, n, pat, diag)
    pre = [ONE - eq(x if c == "+" else -x) for x, c in zip(es[1:], pat) if c != "0"]
    I, D, E, Q, ex = sweep(ck, ds, es, "identity", limit, pre)
    ck.no_raise("accepted", WHERE, ex, tag)
    if D is None:
        return ck.undecided("similar", WHERE, f"{tag}: no result")
    D, E, Q = [small(I, p) for p in D], [small(I, p) for p in E], [[small(I, p) for p in r] for r in Q]
    T = lambda i, j: ds[i] if i == j else es[max(i, j)] if abs(i - j) == 1 else ZERO
    ok = ck.zero("trace", WHERE, sum((D[k] - ds[k] for k in range(n)), ZERO), detail=f"{tag}: trace", budget=1)
    for i in range(n):
        for j in range(i, n):
            ok = ck.zero("orthogonal", WHERE, sum((Q[k][i] * Q[k][j] for k in range(n)), ZERO) - (ONE if i == j else ZERO), detail=f"{tag}: columns {i}, {j} of the factor", budget=1) and ok
    if not ok:
        return
    M = {}
    for i in range(n):
        for j in range(i, n):
            M[i, j] = small(I, sum((Q[k][i] * T(k, l) * Q[l][j] for k in range(n) for l in range(n) if T(k, l).t), ZERO))
    for i in range(n):
        ck.zero("similar", WHERE, M[i, i] - D[i], detail=f"{tag}: diagonal entry {i}", budget=1)
    if n >= 2:
        ck.zero("similar", WHERE, M[n - 2, n - 1] - E[n - 2], detail=f"{tag}: last off-diagonal entry", budget=1)
    for i in range(n - 1):
        ck.zero("similar", WHERE, sum((M[i, j] ** 2 for j in range(i + 1, n)), ZERO) - E[i] ** 2, detail=f"{tag}: off-diagonal entry {i}", budget=1)
    c25_denominators(ck, I, tag, ds, es)


def c25_denominators(ck, I, tag, ds, es):
    """No denominator vanishes on a grid of diagonals."""
    free = sorted({name(p) for p in ds + [e if e.t and next(iter(e.t.values())) > 0 else -e for e in es] if p.t})
    dn = [x for x in free if any(p.t and name(p) == x for p in ds)]
    en = [x for x in free if x not in dn]
    grid = [dict(zip(dn, v)) | dict(zip(en, w)) for v in itertools.product((0.0, 1.0, -1.0, 2.0), repeat=len(dn)) for w in itertools.product((1.0, 0.5), repeat=len(en))]
    grid = grid[:: max(1, len(grid) // 64)]
    seen = set()
    for e in I.events:
        if e.kind != "div":
            continue
        key = (poly.show(e.den, 20), poly.show(e.guard, 20))
        if key in seen:
            continue
        seen.add(key)
        where = f"{WHERE} (line {e.pos[1]})"
        n = 0
        bad = None
        for fx in grid:
            w = witness.World(1, fx)
            try:
                if abs(w.poly(e.guard, {})) < 0.5:
                    continue
                v, m = w.polym(e.den, {})
            except (witness.Reject, RecursionError, OverflowError):
                continue
            n += 1
            if abs(v) <= 1e-13 * max(1.0, m):
                bad = fx
                break
        if bad is not None:
            ck.bad("nonzero-denominator", where, f"{tag}: the denominator vanishes at " + ", ".join(f"{k}={v:g}" for k, v in sorted(bad.items())))
        elif n:
            ck.ob("nonzero-denominator", where, "ok-eval", f"{tag}: {n} matrices")
        else:
            ck.ok("nonzero-denominator", where, f"{tag}: not reached")


def name(p):
    return poly.ATOMS[aid_of(p)].args[0]


def c25_one(ck):
    """Symbolic and empty factors, and the 1x1 matrix."""
    for n in (2, 3):
        I0 = ck.interp()
        ds, es = matrix(I0, n, "+" * (n - 1), "free")
        pre = [ONE - eq(x) for x in es[1:]]
        for limit in (0, 1):
            tag = f"n={n}, limit {limit}"
            I, D, E, Q, ex = sweep(ck, ds, es, "identity", limit, pre)
            if D is None:
                return ck.undecided("accumulated", WHERE, tag)
            Q = [[small(I, p) for p in r] for r in Q]
            zn = fresh_name("Z")
            tensor(zn, (P(n), P(n)))
            _I, D1, E1, Z, ex = sweep(ck, ds, es, lambda i, j: el(zn, (i, j)), limit, pre)
            ck.no_raise("accepted", WHERE, ex, tag + ", given factor")
            _I, D2, E2, _z, ex = sweep(ck, ds, es, "empty", limit, pre)
            ck.no_raise("accepted", WHERE, ex, tag + ", no factor")
            for what, Dk, Ek in (("given", D1, E1), ("no", D2, E2)):
                if Dk is None:
                    ck.undecided("accumulated", WHERE, tag)
                    continue
                for k in range(n):
                    ck.zero("same-values", WHERE, Dk[k] - D[k], detail=f"{tag}: diagonal entry {k} with {what} factor", budget=1)
                    ck.zero("same-values", WHERE, Ek[k] - E[k], detail=f"{tag}: off-diagonal entry {k} with {what} factor", budget=1)
            if Z is not None:
                for i in range(n):
                    for j in range(n):
                        ck.zero("accumulated", WHERE, Z[i][j] - sum((el(zn, (P(i), P(k))) * Q[k][j] for k in range(n)), ZERO), detail=f"{tag}: entry ({i}, {j}) of the given factor", budget=1)
    I0 = ck.interp()
    ds, es = matrix(I0, 1, "", "free")
    I, D, E, Q, ex = sweep(ck, ds, es, "identity", 5, [])
    ck.no_raise("accepted", WHERE, ex, "n=1")
    if D is not None:
        ck.zero("similar", WHERE, D[0] - ds[0], detail="n=1: the value")
        ck.zero("similar", WHERE, Q[0][0] - 1, detail="n=1: the factor")
