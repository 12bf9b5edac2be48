"""Refutation of equations between normal forms.

Two normal forms that the rewriting does not identify are told apart by giving every atom a concrete meaning (dimensions
get small integers, free tensors get arbitrary entries, known functions their usual meaning, unknown functions an arbitrary
one) and evaluating both.  A difference is a definite refutation; agreement on every interpretation refutes nothing.
Only terms are evaluated; no code of the package is.
"""
import hashlib
import math
import random
import statistics
import time
from . import poly
from fractions import Fraction as Fr
from .poly import P, Poly, ATOMS, SYMS, TENSORS, FACTS

TAINT = ("carried", "len.carried", "clobbered", "unknown", "dim0.", "dim1.", "dim2.", "iters", "undef")


LIMIT = 2.0
ALLOWED = set()  # iteration counts known to be arbitrary (loops left on an unconstrained verdict)


class Reject(Exception):
    pass


def tainted(p):
    """Names of atoms standing for values the analysis lost track of."""
    out = set()
    plain = undef_plain(p)
    for a in poly.atoms_deep(p):
        at = ATOMS[a]
        if at.kind == "sym" and at.args[0] == "undef" and plain:
            continue
        n = at.args[0] if at.kind in ("sym", "el") and isinstance(at.args[0], str) else ""
        if n and n not in ALLOWED and any(n.startswith(t) for t in TAINT):
            out.add(n)
        if at.kind == "bl" and at.args and at.args[0] in ("unk", "guard", "truth of array", "is", "flag", "isinstance", "callable", "dict", "hasattr") and at.args[0] != "flag":
            if at.args[0] in ("unk", "guard", "truth of array", "dict"):
                out.add("<" + str(at.args[0]) + ">")
        if at.kind in ("fun", "bl"):
            if _has_unk(at.args):
                out.add("<unknown argument>")
    return out


def undef_plain(p):
    """The result of a division by zero enters as a summand only (nothing is computed from it): whatever it is taken to be, it is not what a
    specification that does not divide by zero asks for."""
    for (fs, bs), _c in p.t.items():
        for a, e in fs:
            at = ATOMS[a]
            if at.kind == "sym" and at.args[0] == "undef":
                if e != 1:
                    return False
            elif _mentions_undef(a):
                return False
        for _b, hi in bs:
            if any(_mentions_undef(a) for a in poly.atoms_of(hi)):
                return False
    return True


_UNDEF = {}


def _mentions_undef(a):
    r = _UNDEF.get(a)
    if r is None:
        r = any(ATOMS[x].kind == "sym" and ATOMS[x].args[0] == "undef" for x in poly.atoms_deep(Poly.of_atom(ATOMS[a])))
        _UNDEF[a] = r
    return r


def _has_unk(x):
    if isinstance(x, tuple):
        if x and x[0] in ("unk", "?", "obj") and len(x) >= 2:
            return True
        return any(_has_unk(y) for y in x)
    return False


def rnd(x):
    if isinstance(x, float):
        return f"{x + 0.0:.9g}" if abs(x) > 1e-9 else "0"
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(rnd(y) for y in x) + ")"
    return str(x)


_GROUPS = {}


def groups(p):
    """The terms of a polynomial, collected by everything but the gates that do not depend on summation indices."""
    g = _GROUPS.get(id(p))
    if g is not None and g[0] is p:
        return g[1]
    out = {}
    for (fs, bs), c in p.t.items():
        bound = {b for b, _ in bs}
        gates = tuple(a for a, e in fs if ATOMS[a].kind in ("gt", "eq", "bl") and ATOMS[a].free.isdisjoint(bound))
        rest = tuple(x for x in fs if x[0] not in gates) if gates else fs
        out.setdefault((rest, bs), []).append((gates, float(c)))
    out = list(out.items())
    if len(_GROUPS) > 20000:
        _GROUPS.clear()
    _GROUPS[id(p)] = (p, out)
    return out


class World:
    """One interpretation of all atoms."""

    def __init__(self, seed, fixed=None, scale=1.0, cands=None):
        self.seed = seed
        self.rng = random.Random(seed)
        self.syms = dict(fixed or {})
        self.funs = {}
        self.tens = {}
        self.mats = {}
        self.scale = scale
        self.small = seed % 3 != 0
        self.steps = 0
        self.closed = {}
        self.cands = cands or {}
        self.busy = set()

    # -------------------------------------------------------------------------------------------------------- hashing
    def hrand(self, *key):
        h = hashlib.blake2b((str(self.seed) + "|" + "|".join(rnd(k) for k in key)).encode(), digest_size=8).digest()
        return int.from_bytes(h, "big") / 2.0 ** 64

    def hval(self, *key):
        return (self.hrand(*key) * 4 - 2) * self.scale

    # -------------------------------------------------------------------------------------------------------- symbols
    def sym(self, name):
        v = self.syms.get(name)
        if v is not None:
            return v
        info = SYMS[name]
        if name.startswith("\x02"):
            raise Reject("position bound elsewhere")
        lo = info.lo
        r = self.hrand("sym", name)
        if name in self.cands and name not in self.busy and self.hrand("bd", name) < 0.5:
            v = self.boundary(name, info)
            if name in self.syms:      # fixed meanwhile, by a symbol the threshold depends on
                return self.syms[name]
            if v is not None:
                self.syms[name] = v
                return v
        if name == "inf":
            v = 1.0e5
        elif name == "nan":
            v = 777.125
        elif name == "pi":
            v = math.pi
        elif info.index and info.hi is not None:
            hi = self.intval(self.poly(info.hi, {}))
            if hi <= 0:
                raise Reject("empty range")
            v = float(int(r * hi))
        elif info.integer:
            base = int(lo) if lo is not None else (0 if r < 0.9 else -2)
            v = float(base + int(self.hrand("sz", name) ** 1.5 * (3.999 if self.small else 5.999)))
        else:
            r2 = self.hrand("sd", name)
            v = r if r2 < 0.4 else (4 * r - 2 if r2 < 0.8 else 40 * r)
            if lo is not None:
                v = float(lo) + abs(v)
        self.syms[name] = v
        return v

    def boundary(self, name, info):
        """A value at (or next to) a threshold some condition compares the symbol with."""
        cs = self.cands[name]
        rest = cs[int(self.hrand("bdc", name) * len(cs))]
        off = int(self.hrand("bdo", name) * 3) - 1
        self.busy.add(name)
        try:
            v = self.poly(rest[1], {}) / self.poly(rest[0], {})
        except (ZeroDivisionError, Reject, RecursionError):
            return None
        finally:
            self.busy.discard(name)
        if info.integer or info.index:
            v = float(math.floor(v + 1e-9) + off)
            if abs(v) > 60:
                return None
        elif off:
            v += off * 0.01 * max(1.0, abs(v)) if self.hrand("bdz", name) < 0.6 else 0.0
        if info.lo is not None and v < float(info.lo):
            return None
        return v

    def intval(self, x):
        k = round(x)
        if abs(k - x) > 1e-6:
            raise Reject("fractional bound")
        return int(k)

    # ----------------------------------------------------------------------------------------------------------- poly
    def poly(self, p, env):
        v, _m = self.polym(p, env)
        return v

    def polym(self, p, env):
        tot, mag = 0.0, 0.0
        for (fs, bs), cs in groups(p):
            k = 0.0
            for inds, c in cs:
                for a in inds:
                    if self.atom(a, env) == 0:
                        break
                else:
                    k += c
            if k == 0:
                continue  # a term that is gated off hides undefined factors
            v, m = self.term(fs, bs, env)
            tot += k * v
            mag += abs(k) * m
        if not math.isfinite(tot):
            raise Reject("overflow")
        return tot, mag

    def term(self, fs, bs, env):
        if not bs:
            v = 1.0
            # indicators first: a zero gate hides undefined factors
            for a, e in fs:
                if ATOMS[a].kind in ("gt", "eq", "bl"):
                    if self.atom(a, env) == 0:
                        return 0.0, 0.0
            for a, e in fs:
                if ATOMS[a].kind in ("gt", "eq", "bl"):
                    continue
                x = self.atom(a, env)
                if e == 1:
                    v *= x
                elif e.denominator == 1:
                    if e < 0 and abs(x) < 1e-9:
                        raise Reject("division by zero")
                    v *= x ** int(e)
                else:
                    if x < -1e-9 or (e < 0 and abs(x) < 1e-9):
                        raise Reject("root of a negative number")
                    v *= max(x, 0.0) ** float(e)
                if abs(v) > 1e100:
                    raise Reject("overflow")
            return v, abs(v)
        # the outermost binder whose bound does not depend on the others
        names = {b for b, _ in bs}
        for k, (b, hi) in enumerate(bs):
            if not (hi.free() & (names - {b})):
                break
        n = self.intval(self.poly(hi, env))
        rest = bs[:k] + bs[k + 1:]
        tot = mag = 0.0
        for i in range(max(n, 0)):
            self.steps += 1
            if self.steps > 200000:
                raise Reject("too long")
            v, m = self.term(fs, rest, {**env, b: float(i)})
            tot += v
            mag += m
        return tot, mag

    def atom(self, a, env):
        at = ATOMS[a]
        if at.lam == 0 and at.free.isdisjoint(env.keys()):
            v = self.closed.get(a)
            if v is None:
                v = self.closed[a] = self.atom0(a, at, {})
            return v
        return self.atom0(a, at, env)

    def atom0(self, a, at, env):
        k = at.kind
        if k == "sym":
            if a in env:
                return env[a]
            return self.sym(at.args[0])
        if k == "gt":
            v, m = self.polym(at.args[0], env)
            return 1.0 if v > 1e-9 * max(1.0, m) else 0.0
        if k == "eq":
            v, m = self.polym(at.args[0], env)
            return 1.0 if abs(v) <= 1e-9 * max(1.0, m) else 0.0
        if k == "pw":
            return self.poly(at.args[0], env)
        if k == "el":
            return self.elem(at.args[0], [self.poly(x, env) for x in at.args[1]])
        if k == "bl":
            key = self.arg(at.args, env)
            return 1.0 if self.hrand("bl", key) < (0.3 if at.args[0] == "raises" else 0.5) else 0.0
        if k == "fun":
            return self.fun(at.args[0], at.args[1:], env)
        raise Reject(k)

    # ------------------------------------------------------------------------------------------------------ arguments
    def arg(self, x, env):
        if isinstance(x, Poly):
            return self.poly(x, env)
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == "arr":
                return ("arr", self.array(x, env))
            return tuple(self.arg(y, env) for y in x)
        return x

    def array(self, key, env):
        _, dims, base, body = key
        ns = [self.intval(self.poly(d, env)) for d in dims]
        ids = [poly.aid_of(poly.lam(base + k)) for k in range(len(ns))]

        def go(k, env):
            if k == len(ns):
                return self.poly(body, env)
            return [go(k + 1, {**env, ids[k]: float(i)}) for i in range(ns[k])]
        return (tuple(ns), go(0, env))

    # ------------------------------------------------------------------------------------------------------ functions
    def fun(self, name, args, env):
        vals = [self.arg(x, env) for x in args]
        try:
            return self.fun0(name, vals)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Reject(name)

    def fun0(self, name, v):
        if name == "abs":
            return abs(v[0])
        if name in ("floor", "ceil", "int", "round"):
            x = v[0]
            if abs(x - round(x)) < 1e-9:
                return float(round(x))
            return float({"floor": math.floor, "ceil": math.ceil, "int": math.trunc, "round": round}[name](x))
        if name == "exp":
            return math.exp(v[0])
        if name == "log":
            return math.log(v[0])
        if name == "pow":
            r = v[0] ** v[1]
            if isinstance(r, complex):
                raise Reject("complex")
            return r
        if name in ("sin", "cos", "tan", "tanh", "arctan", "sinh", "cosh", "arcsin", "arccos"):
            return getattr(math, name.replace("arc", "a"))(v[0])
        if name == "arctan2":
            return math.atan2(*v)
        if name == "erf":
            return math.erf(v[0])
        if name == "normppf":
            q = v[0]
            if 0 < q < 1:
                return statistics.NormalDist().inv_cdf(q)
            return math.copysign(3 + self.hrand("np", abs(q - 0.5)), q - 0.5)
        if name == "tppf":
            q, d = v
            return math.copysign(1 + 5 * abs(q - 0.5) + 3 * self.hrand("tp", abs(q - 0.5), d), q - 0.5)
        if name == "det":
            return det(v[0][1][1])
        if name in ("amax", "amin") and isinstance(v[0], tuple) and v[0][0] == "arr":
            f = flat(v[0][1][1])
            if not f:
                raise Reject("empty")
            return max(f) if name == "amax" else min(f)
        if name in ("argmax", "argmin"):
            f = flat(v[0][1][1])
            if not f:
                raise Reject("empty")
            return float(f.index(max(f) if name == "argmax" else min(f)))
        if name == "median":
            return statistics.median(flat(v[0][1][1]))
        if name == "squareform_side":
            n = (1 + math.sqrt(1 + 8 * v[0])) / 2
            return n
        if name == "eps" or name.startswith("finfo"):
            return 0.001 + 0.01 * self.hrand(name, v[0])
        if name == "norm":
            return abs(self.hval("norm", v)) + 0.1
        if name == "nan_to_num":
            return v[0]
        if name == "len":
            return float(int(4 * self.hrand("len", v)))
        return self.hval("fun", name, v)

    # -------------------------------------------------------------------------------------------------------- tensors
    def elem(self, name, idx):
        info = TENSORS.get(name)
        key = (name,) + tuple(round(x) if abs(x - round(x)) < 1e-6 else round(x, 6) for x in idx)
        if key in self.tens:
            return self.tens[key]
        v = self.elem0(name, info, idx, key)
        self.tens[key] = v
        return v

    def elem0(self, name, info, idx, key):
        if "#" in name and not name.startswith("#"):
            base, aid = name.split("#", 1)
            if aid.isdigit() and ATOMS[int(aid)].kind == "fun" and ATOMS[int(aid)].args[0] == "#" + base:
                return self.afun(base, int(aid), info, idx)
        if info is None:
            return self.hval("el", key)
        if info.ortho:
            nd = 2
            ext = tuple(idx[nd:])
            dims = [self.intval(self.poly(d, {})) if isinstance(d, Poly) else 4 for d in info.dims[:nd]]
            M = self.mats.get((name, ext))
            if M is None:
                n, k = dims
                A = [[self.hval("ortho", name, ext, float(i), float(j)) for j in range(k)] for i in range(n)]
                M = self.mats[(name, ext)] = qr(A)[0]
            r = pickel(M, idx[:nd])
            return self.hval("outside", name, tuple(float(round(x)) for x in idx)) if r is None else r
        if info.inv is not None:
            other = info.inv
            n = self.intval(self.poly(info.dims[0], {}))
            ext = tuple(idx[2:])
            M = self.mats.get((name, ext))
            if M is None:
                if (name < other):
                    M = [[self.hval("el", name, ext, float(i), float(j)) + (3 if i == j else 0) for j in range(n)] for i in range(n)]
                else:
                    M = inv([[self.elem(other, [float(i), float(j)] + list(ext)) for j in range(n)] for i in range(n)])
                self.mats[(name, ext)] = M
            r = pickel(M, idx[:2])
            return self.hval("outside", name, tuple(float(round(x)) for x in idx)) if r is None else r
        r = self.hrand("el", key)
        if info.law == "U01":
            return r
        if info.integer:
            return float(int(r * 5)) if info.nonneg else float(int(r * 9) - 4)
        if info.nonneg:
            return 0.05 + 2 * r
        if info.sq is not None:
            n = self.intval(self.poly(info.dims[0], {}))
            col = [self.hval("sq", name, float(i), tuple(idx[1:])) for i in range(n)]
            q = sum(x * x for x in col)
            if not (0 <= round(idx[0]) < n) or q < 1e-9:
                raise Reject("column of fixed norm")
            return col[round(idx[0])] * math.sqrt(self.poly(info.sq, {}) / q)
        return (4 * r - 2) * self.scale

    def afun(self, base, aid, info, idx):
        keys = ATOMS[aid].args[1:]
        extra = len(info.dims) - sum(1 for d in info.dims if isinstance(d, Poly))
        nd = len(idx) - extra
        lead, ext = idx[:nd], idx[nd:]
        ck = (base, aid, tuple(ext))
        M = self.mats.get(ck)
        if M is None:
            lvl = key_level_all(keys)
            env = {}
            n = len(ext)
            for k, x in enumerate(ext):
                env[poly.aid_of(poly.lam(lvl - n + k))] = x
            M = self.mats[ck] = self.afun0(base, aid, info, [self.arg(k, env) for k in keys], env)
        if callable(M):
            return M(lead)
        r = pickel(M, lead)
        return self.hval("outside", base, aid, tuple(float(round(x)) for x in lead), ck[2]) if r is None else r

    def afun0(self, base, aid, info, v, env):
        if base in ("Q", "R"):
            q, r = qr(v[0][1][1])
            return q if base == "Q" else r
        if base == "inv":
            return inv(v[0][1][1])
        if base == "let":
            return v[0][1][1]
        if base == "nz":
            return [float(i) for i, x in enumerate(v[0][1][1]) if x > 0.5]
        if base == "sort":
            return sorted(v[0][1][1])
        if base in ("eigw", "eigv"):
            if v[0] == "dense":
                A = v[1][1][1]
            else:
                d, e = v[1][1][1], v[2][1][1]
                n = len(d)
                A = [[d[i] if i == j else (e[min(i, j)] if abs(i - j) == 1 else 0.0) for j in range(n)] for i in range(n)]
            w, V = jacobi(A)
            return w if base == "eigw" else V
        kk = rnd(tuple(v))
        if base == "lzbeta":
            return lambda idx: 0.0 if self.hrand("stop", kk, round(idx[0])) < 0.25 else abs(self.hval("afun", base, kk, float(round(idx[0]))))
        return lambda idx: (abs if info.nonneg else (lambda x: x))(self.hval("afun", base, kk, tuple(float(round(x)) for x in idx)))


def key_level_all(keys):
    from .npm import key_level
    return key_level(tuple(keys))


def pickel(M, idx):
    for x in idx:
        i = round(x)
        if not (0 <= i < len(M)):
            return None  # outside the array: an arbitrary value, which a hidden factor of zero or a cancellation removes
        M = M[i]
    return M


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def qr(A):
    n, m = len(A), len(A[0]) if A else 0
    k = min(n, m)
    Q, R = [[0.0] * k for _ in range(n)], [[0.0] * m for _ in range(k)]
    for j in range(m):
        v = [A[i][j] for i in range(n)]
        for _ in range(2):
            for l in range(min(j, k)):
                c = sum(Q[i][l] * v[i] for i in range(n))
                R[l][j] += c
                v = [v[i] - c * Q[i][l] for i in range(n)]
        if j < k:
            s = math.sqrt(sum(x * x for x in v))
            if s < 1e-7:
                raise Reject("rank deficient")
            R[j][j] = s
            for i in range(n):
                Q[i][j] = v[i] / s
    return Q, R


def inv(A):
    n = len(A)
    M = [list(A[i]) + [1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[p][c]) < 1e-6:
            raise Reject("singular")
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


def det(A):
    n = len(A)
    M = [list(r) for r in A]
    d = 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if M[p][c] == 0:
            return 0.0
        if p != c:
            M[c], M[p] = M[p], M[c]
            d = -d
        d *= M[c][c]
        for r in range(c + 1, n):
            f = M[r][c] / M[c][c]
            M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return d


def jacobi(A):
    n = len(A)
    A = [[A[i][j] if i >= j else A[j][i] for j in range(n)] for i in range(n)]
    V = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for _ in range(60):
        off = sum(A[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        if off < 1e-24:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if abs(A[p][q]) < 1e-14:
                    continue
                th = (A[q][q] - A[p][p]) / (2 * A[p][q])
                t = math.copysign(1, th) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = A[k][p], A[k][q]
                    A[k][p], A[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = A[p][k], A[q][k]
                    A[p][k], A[q][k] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = V[k][p], V[k][q]
                    V[k][p], V[k][q] = c * x - s * y, s * x + c * y
    w = [A[i][i] for i in range(n)]
    o = sorted(range(n), key=lambda i: w[i])
    for i in range(n - 1):
        if abs(w[o[i]] - w[o[i + 1]]) < 1e-6:
            raise Reject("close eigenvalues")
    W = [w[i] for i in o]
    X = [[V[r][i] for i in o] for r in range(n)]
    for j in range(n):
        s = next((X[i][j] for i in range(n) if abs(X[i][j]) > 1e-9), 1.0)
        if s < 0:
            for i in range(n):
                X[i][j] = -X[i][j]
    return W, X


# ------------------------------------------------------------------------------------------------------------ refutation
def boundaries(p):
    """Thresholds the symbols of p are compared with: name -> expressions s such that a condition compares it with s."""
    out, seen = {}, set()
    todo = [p]

    def visit(x):
        if isinstance(x, Poly):
            todo.append(x)
        elif isinstance(x, tuple):
            for y in x:
                visit(y)
    while todo and len(seen) < 4000:
        q = todo.pop()
        for (fs, bs) in q.t:
            for a, _e in fs:
                if a in seen:
                    continue
                seen.add(a)
                at = ATOMS[a]
                if at.kind == "sym":
                    continue
                visit(at.args)
                if at.kind in ("gt", "eq"):
                    threshold(at.args[0], out)
            for _b, hi in bs:
                visit(hi)
    return {k: v[:12] for k, v in out.items()}


def threshold(q, out):
    syms = set()
    for (fs, bs), c in q.t.items():
        if not bs:
            for a, e in fs:
                if ATOMS[a].kind == "sym":
                    syms.add(a)
    for a in syms:
        n = ATOMS[a].args[0]
        if n.startswith("\x01") or n in ("inf", "nan", "pi") or SYMS[n].index:
            continue
        co, rest, ok = {}, {}, True
        for k, c in q.t.items():
            fs, bs = k
            mine = [e for x, e in fs if x == a]
            if not mine:
                rest[k] = c
            elif mine[0] == 1 and not bs:
                co[(tuple(f for f in fs if f[0] != a), bs)] = c
            else:
                ok = False
        co, rest = Poly(co), Poly(rest)
        if not ok or a in co.free() or a in rest.free():
            continue
        r = (co, -rest)
        if r not in out.setdefault(n, []):
            out[n].append(r)


def worlds(facts=None, tries=600, want=12, seed=1, fixed=None, truths=(), cands=None):
    facts = list(FACTS if facts is None else facts)
    found = 0
    import zlib
    for t in range(tries):
        w = World(seed * 1000003 + t, fixed, scale=(1.0, 1.0, 3.0, 0.3)[t % 4], cands=cands if t % 2 else None)
        try:
            f = next((f for f in facts if w.poly(f, {}) < -1e-9), None)
            if f is not None:
                if fixed and all(ATOMS[a].kind in ("sym", "gt", "eq") for a in poly.atoms_of(f)) and all(ATOMS[a].args[0] in fixed for a in f.free()):
                    return      # out of the question for these values
                continue
            if any(abs(w.poly(c, {}) - 1) > 1e-9 for c in truths):
                continue
        except Reject:
            continue
        yield w
        found += 1
        if found >= want:
            return


def refute(p, facts=None, want=25, seed=1, fixed=None, truths=()):
    """(world, value) with p != 0, or (None, number of interpretations that agreed)."""
    agreed = 0
    cands = boundaries(p)
    if cands and want >= 25:
        want *= 16
    t0 = time.monotonic()
    for w in worlds(facts, 2500, want, seed, fixed, truths, cands):
        try:
            v, m = w.polym(p, {})
        except Reject:
            continue
        except RecursionError:
            continue
        if abs(v) > 1e-6 * max(1e-3, m):
            return w, v
        agreed += 1
        if agreed >= 25 and time.monotonic() - t0 > LIMIT:
            break
    return None, agreed


def describe(w):
    out = []
    for n, v in sorted(w.syms.items()):
        if n not in ("inf", "nan", "pi"):
            out.append(f"{n.replace(chr(1), '')}={v:g}")
    return ", ".join(out[:14])
