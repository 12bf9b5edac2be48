"""Normal forms for index-notation expressions.

A `Poly` is a finite sum of terms; a term is a rational coefficient times a product of atoms raised to rational powers,
summed over zero or more bound index variables (each ranging over [0, hi)).  Atoms are

    sym   a scalar or index variable
    el    an element of a tensor, X[p, q, ...] with polynomial subscripts
    fun   an uninterpreted (or only partially interpreted) function application
    pw    a sum raised to a non-natural power (the power lives in the exponent)
    gt    the indicator [p > 0]
    eq    the indicator [p = 0]  (Kronecker deltas included)
    bl    an opaque truth value

Everything is hash-consed; bound variables are renamed canonically, so equal normal forms are equal objects (by key).
Gated values are written with indicators: phi(c, a, b) = [c] a + (1 - [c]) b, and indicators are idempotent.
"""
import time
from fractions import Fraction as Fr
from itertools import permutations

ONE, ZERO = Fr(1), Fr(0)
DEADLINE = [None]


class TooBig(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "free", "meta", "lam", "bd")


_TABLE = {}
ATOMS = []


def atom(kind, *args):
    key = (kind, args)
    a = _TABLE.get(key)
    if a is None:
        a = Atom()
        a.id, a.kind, a.args, a.meta = len(ATOMS), kind, args, None
        ATOMS.append(a)
        _TABLE[key] = a
        fr = set()
        a.lam = a.bd = 0
        if kind == "sym":
            if args[0][0] == "\x02":
                a.lam = int(args[0][1:]) + 1
            else:
                fr.add(a.id)
        else:
            for x in args:
                _collect_free(x, fr)
                a.lam = max(a.lam, _lam_of(x))
                a.bd = max(a.bd, _bd_of(x))
        a.free = frozenset(fr)
    return a


def _collect_free(x, fr):
    if isinstance(x, Poly):
        fr |= x.free()
    elif isinstance(x, tuple):
        for y in x:
            _collect_free(y, fr)


def _lam_of(x):
    if isinstance(x, Poly):
        return lam_level(x)
    if isinstance(x, tuple):
        return max([_lam_of(y) for y in x], default=0)
    return 0


def lam_level(p):
    """One more than the largest lambda-bound position occurring in p (lambda-bound positions are never free)."""
    r = 0
    for (fs, bs), _ in p.t.items():
        for a, _e in fs:
            r = max(r, ATOMS[a].lam)
        for _b, hi in bs:
            r = max(r, lam_level(hi))
    return r


def _bd_of(x):
    if isinstance(x, Poly):
        return bd_level(x)
    if isinstance(x, tuple):
        return max([_bd_of(y) for y in x], default=0)
    return 0


def bd_level(p):
    """One more than the largest position of a bound variable bound anywhere inside p."""
    r = 0
    for (fs, bs), _ in p.t.items():
        r = max(r, _bd_term(fs, bs))
    return r


def _bd_term(fs, bs):
    r = 0
    for a, _e in fs:
        r = max(r, ATOMS[a].bd)
    for b, hi in bs:
        r = max(r, bd_level(hi), _BPOS.get(b, -1) + 1)
    return r


def lam(k):
    return sym(f"\x02{k}", integer=True, lo=0, index=True)


class SymInfo:
    __slots__ = ("integer", "lo", "hi", "index", "note")

    def __init__(self, integer=False, lo=None, hi=None, index=False, note=""):
        self.integer, self.lo, self.hi, self.index, self.note = integer, lo, hi, index, note


SYMS = {}  # name -> SymInfo
_COUNTER = [0]


def fresh_name(base):
    _COUNTER[0] += 1
    return f"{base}~{_COUNTER[0]}"


def sym(name, integer=False, lo=None, hi=None, index=False, note=""):
    a = atom("sym", name)
    if name not in SYMS:
        SYMS[name] = SymInfo(integer, None if lo is None else Fr(lo), hi, index, note)
    return Poly({(((a.id, ONE),), ()): ONE})


def fresh_index(hi, base="i"):
    return sym(fresh_name(base), integer=True, lo=0, hi=hi, index=True)


def aid_of(p):
    """The atom id of a polynomial that is a single bare atom."""
    ((fs, bs), c), = p.t.items()
    assert c == 1 and not bs and len(fs) == 1 and fs[0][1] == 1
    return fs[0][0]


class TensorInfo:
    __slots__ = ("name", "dims", "ortho", "inv", "nonneg", "law", "info", "unit", "integer", "sq")

    def __init__(self, name, dims):
        self.name, self.dims = name, dims
        self.ortho = self.inv = self.nonneg = self.law = self.info = self.unit = self.sq = None
        self.integer = False


TENSORS = {}
PRODUCT_RULES = {}  # (tensor A, tensor N) -> function(idxA_first, idxN_rest) -> Poly   for sum_b A[a,b] N[b,j]


def tensor(name, dims):
    if name not in TENSORS:
        TENSORS[name] = TensorInfo(name, tuple(dims))
    return TENSORS[name]


def el(name, idx):
    return Poly.of_atom(atom("el", name, tuple(P(i) for i in idx)))


# ----------------------------------------------------------------------------------------------------------------- poly
class Poly:
    __slots__ = ("t", "_h", "_f", "_key")

    def __init__(self, t):
        self.t = t
        self._h = self._f = self._key = None

    @staticmethod
    def of_atom(a, e=ONE):
        return Poly({(((a.id, e),), ()): ONE})

    @staticmethod
    def const(c):
        c = Fr(c)
        return Poly({((), ()): c}) if c else Poly({})

    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def free(self):
        if self._f is None:
            fr = set()
            for (fs, bs), _ in self.t.items():
                s = set()
                for a, _e in fs:
                    s |= ATOMS[a].free
                for b, hi in bs:
                    s |= hi.free()
                s -= {b for b, _hi in bs}
                fr |= s
            self._f = frozenset(fr)
        return self._f

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            c2 = t.get(m, ZERO) + c
            if c2:
                t[m] = c2
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def scale(self, c):
        c = Fr(c)
        return Poly({m: k * c for m, k in self.t.items()}) if c else Poly({})

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return Poly({})
        if o.is_const():
            return self.scale(o.cval())
        if self.is_const():
            return o.scale(self.cval())
        if len(self.t) * len(o.t) > 40000:
            raise TooBig("product")
        out = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                _acc(out, mul_mono(m1, m2), c1 * c2)
        return Poly(out)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(P(o), Fr(-1))

    def __rtruediv__(self, o):
        return P(o) * power(self, Fr(-1))

    def __pow__(self, e):
        return power(self, Fr(e))

    # -- queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and ((), ()) in self.t)

    def cval(self):
        return self.t.get(((), ()), ZERO) if self.t else ZERO

    def is_int(self):
        return self.is_const() and self.cval().denominator == 1

    def __bool__(self):
        raise TypeError("truth value of a Poly")

    def __repr__(self):
        return show(self)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.const(int(x))
    if isinstance(x, int):
        return Poly.const(x)
    if isinstance(x, Fr):
        return Poly.const(x)
    if isinstance(x, float):
        if x != x:
            return sym("nan")
        if x in (float("inf"), float("-inf")):
            s = sym("inf", lo=0)
            return s if x > 0 else -s
        return Poly.const(Fr(repr(x)))
    raise TypeError(f"not a polynomial: {x!r}")


def _acc(out, p, c):
    """out += c * p for an accumulating dict of monomials."""
    for m, k in p.t.items():
        v = out.get(m, ZERO) + k * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)


_BSYMS = []
_BPOS = {}


def bsym(k):
    while len(_BSYMS) <= k:
        n = f"\x01b{len(_BSYMS)}"
        sym(n, integer=True, lo=0, index=True)
        _BSYMS.append(atom("sym", n).id)
        _BPOS[_BSYMS[-1]] = len(_BSYMS) - 1
    return _BSYMS[k]


def _free_in(fs, bs):
    r = set()
    for a, _e in fs:
        r |= ATOMS[a].free
    for _b, hi in bs:
        r |= hi.free()
    return r


def keep_apart(fs, bs, avoid):
    """The term with its bound variables renamed wherever they clash with the names to avoid."""
    if not any(b in avoid for b, _hi in bs):
        return fs, bs
    taken = _free_in(fs, bs) | avoid
    j, ren = _bd_term(fs, bs), {}
    for b, _hi in bs:
        while bsym(j) in taken:
            j += 1
        ren[b] = sym_poly(bsym(j))
        j += 1
    return [(rename_atom(a, ren), e) for a, e in fs], [(aid_of(ren[b]), subst(hi, ren)) for b, hi in bs]


_MULCACHE = {}


def mul_mono(m1, m2):
    k = (m1, m2)
    r = _MULCACHE.get(k)
    if r is not None:
        return r
    (f1, b1), (f2, b2) = m1, m2
    if b2:
        f2, b2 = keep_apart(f2, b2, _free_in(f1, b1) | {b for b, _hi in b1})
    if b1:
        f1, b1 = keep_apart(f1, b1, _free_in(f2, b2) | {b for b, _hi in b2})
    r = mk_term(ONE, list(f1) + list(f2), list(b1) + list(b2))
    _MULCACHE[k] = r
    return r


def sym_poly(aid):
    return Poly({(((aid, ONE),), ()): ONE})


# --------------------------------------------------------------------------------------------------------- substitution
def rename_atom(aid, ren):
    """Renames symbols (to bare symbols) inside an atom; returns an atom id."""
    a = ATOMS[aid]
    if not (a.free & ren.keys()):
        return aid
    if a.kind == "sym":
        return aid_of(ren[aid])
    return atom(a.kind, *_subst_args(a.args, ren)).id


def _subst_args(args, ren):
    out = []
    for x in args:
        if isinstance(x, Poly):
            out.append(subst(x, ren))
        elif isinstance(x, tuple):
            out.append(_subst_args(x, ren))
        else:
            out.append(x)
    return tuple(out)


def subst_atom(aid, m):
    """Substitutes inside an atom; the result is a Poly (re-normalised)."""
    a = ATOMS[aid]
    if a.kind == "sym":
        r = m.get(aid)
        return sym_poly(aid) if r is None else r
    if not (a.free & m.keys()):
        return sym_poly(aid)
    args = _subst_args(a.args, m)
    if a.kind == "pw":
        return args[0]
    if a.kind == "gt":
        return gt(args[0])
    if a.kind == "eq":
        return eq(args[0])
    if a.kind == "fun":
        return fun(a.args[0], *args[1:])
    return Poly.of_atom(atom(a.kind, *args))


def open_lam(p, base, xs):
    """Instantiates the lambda-bound positions base, base + 1, ... of a key's body."""
    m = {aid_of(lam(base + k)): P(x) for k, x in enumerate(xs)}

    def arg(x):
        if isinstance(x, Poly):
            return go(x)
        return tuple(arg(y) for y in x) if isinstance(x, tuple) else x

    def at(a):
        t = ATOMS[a]
        if t.kind == "sym":
            r = m.get(a)
            return sym_poly(a) if r is None else r
        if t.lam <= base:
            return sym_poly(a)
        args = tuple(arg(x) for x in t.args)
        if t.kind == "pw":
            return args[0]
        if t.kind == "gt":
            return gt(args[0])
        if t.kind == "eq":
            return eq(args[0])
        if t.kind == "fun":
            return fun(args[0], *args[1:])
        return Poly.of_atom(atom(t.kind, *args))

    def go(q):
        if lam_level(q) <= base:
            return q
        out = Poly.const(0)
        for (fs, bs), c in q.t.items():
            ren, ix = {}, []
            for b, hi in bs:
                h = subst(go(hi), ren)
                i = fresh_index(h)
                ren[b] = i
                ix.append((i, h))
            t = Poly.const(c)
            for a, e in fs:
                x = subst(at(a), ren)
                t = t * (power(x, e) if e != 1 else x)
            for i, h in reversed(ix):
                t = sum_over(t, i, h)
            out = out + t
        return out
    return go(p)


_SUBCACHE = {}


def subst(p, m):
    """Simultaneous substitution of symbols (by atom id) by polynomials."""
    if not m or not (p.free() & m.keys()):
        return p
    mk = (p, tuple(sorted((k, v) for k, v in m.items() if k in p.free())) if len(m) == 1 else frozenset((k, v) for k, v in m.items() if k in p.free()))
    r = _SUBCACHE.get(mk)
    if r is not None:
        return r
    out = {}
    for (fs, bs), c in p.t.items():
        touched = set()
        for a, _e in fs:
            touched |= ATOMS[a].free
        for _b, hi in bs:
            touched |= hi.free()
        bound = {b for b, _ in bs}
        if not ((touched - bound) & m.keys()):
            _acc(out, Poly({(fs, bs): ONE}), c)
            continue
        # keep bound variables apart from anything substituted in
        mm = {k: v for k, v in m.items() if k not in bound}
        if bs:
            new = set()
            for k, v in mm.items():
                if k in touched:
                    new |= v.free()
                    new |= {bsym(j) for j in range(bd_level(v))}
            if new & bound:
                fs, bs = keep_apart(fs, bs, new)
                bound = {b for b, _ in bs}
        plain, res = [], None
        for a, e in fs:
            if ATOMS[a].free & mm.keys():
                q = subst_atom(a, mm)
                q = power(q, e) if e != 1 else q
                res = q if res is None else _open_mul(res, q, bound)
            else:
                plain.append((a, e))
        nb = [(b, subst(hi, mm)) for b, hi in bs]
        base = res if res is not None else Poly.const(1)
        # distribute:  sum_b plain * base
        outer = None
        for (f2, b2), c2 in base.t.items():
            if b2:
                if outer is None:
                    outer = _free_in(plain, nb) | bound
                f2, b2 = keep_apart(f2, b2, outer)
            _acc(out, mk_term(ONE, plain + list(f2), nb + list(b2)), c * c2)
    r = Poly(out)
    if len(_SUBCACHE) < 400000:
        _SUBCACHE[mk] = r
    return r


def _open_mul(p, q, bound):
    """Product of two polynomials that may mention (free) occurrences of enclosing bound variables."""
    return p * q


def freshen(fs, bs):
    """Replaces the bound variables of a term by fresh index symbols."""
    if not bs:
        return list(fs), []
    ren, nb = {}, []
    for b, hi in bs:
        s = fresh_index(None, "s")
        ren[b] = s
        nb.append((aid_of(s), hi))
    nb = [(b, subst(hi, ren)) for b, hi in nb]
    for b, hi in nb:
        SYMS[ATOMS[b].args[0]].hi = hi
    return [(rename_atom(a, ren), e) for a, e in fs], nb


# ---------------------------------------------------------------------------------------------------------- term makers
def mk_term(c, factors, binders):
    """Normalises c * prod(factors) summed over binders; returns a Poly."""
    if not c:
        return Poly({})
    if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
        raise TooBig("time")
    fs = {}
    for a, e in factors:
        e2 = fs.get(a, ZERO) + e
        if e2:
            fs[a] = e2
        else:
            fs.pop(a, None)
    # indicators are idempotent
    inds = [a for a in fs if ATOMS[a].kind in ("gt", "eq", "bl")]
    for a in inds:
        if fs[a] < 0:
            raise ZeroDivisionError("division by an indicator")
        fs[a] = ONE
    if len(inds) > 1:
        r = _simplify_inds(inds)
        if r is None:
            return Poly({})
        if r is not inds:
            keep = set(r)
            for a in inds:
                if a not in keep:
                    del fs[a]
    # integral powers of composite bases and even powers of absolute values are expanded
    for a, e in list(fs.items()):
        at = ATOMS[a]
        if at.kind == "pw" and e.denominator == 1 and e > 0:
            del fs[a]
            if e > 6:
                raise TooBig("power")
            base = at.args[0]
            rest = list(fs.items())
            return _mul_open(c, rest, binders, base, int(e))
        if at.kind == "pw" and e > 1:
            k = e.numerator // e.denominator
            fs[a] = e - k
            return _mul_open(c, list(fs.items()), binders, at.args[0], k)
        if at.kind == "fun" and at.args[0] == "abs" and e.denominator == 1 and e % 2 == 0:
            del fs[a]
            q = power(at.args[1], e)
            return _mul_open(c, list(fs.items()), binders, q, 1)
    if binders:
        return _sum_rules(c, fs, binders)
    r = _open_rules(c, fs)
    if r is not None:
        return r
    return Poly({(tuple(sorted(fs.items())), ()): Fr(c)})


def _mul_open(c, factors, binders, base, k):
    """sum_binders c * factors * base**k where base may mention the (currently open) bound variables."""
    acc = [(c, list(factors), list(binders))]
    for _ in range(k):
        nxt = []
        for c1, f1, b1 in acc:
            for (f2, b2), c2 in base.t.items():
                if b2:
                    f2, b2 = keep_apart(f2, b2, _free_in(f1, b1) | {b for b, _hi in b1} | base.free())
                nxt.append((c1 * c2, f1 + list(f2), b1 + list(b2)))
        acc = nxt
        if len(acc) > 20000:
            raise TooBig("expansion")
    out = {}
    for c1, f1, b1 in acc:
        _acc(out, mk_term(c1, f1, b1), ONE)
    return Poly(out)


def _diff_const(p, q):
    d = p - q
    return d.cval() if d.is_const() else None


def _simplify_inds(inds):
    """Drops implied indicators; None if contradictory."""
    ats = [ATOMS[a] for a in inds]
    drop = set()
    for i, x in enumerate(ats):
        for j, y in enumerate(ats):
            if i >= j or x.kind == "bl" or y.kind == "bl":
                continue
            p, q = x.args[0], y.args[0]
            if len(p.t) > 12 or len(q.t) > 12:
                continue
            d = _diff_const(p, q)  # p = q + d
            s = _diff_const(p, -q) if d is None else None  # p = -q + s
            if d is not None:
                if x.kind == "gt" and y.kind == "gt":
                    drop.add(j if d <= 0 else i)  # the larger polynomial is implied
                elif x.kind == "eq" and y.kind == "eq":
                    if d != 0:
                        return None
                elif x.kind == "eq":  # p = 0 -> q = -d
                    if -d > 0:
                        drop.add(j)
                    else:
                        return None
                else:  # y: q = 0 -> p = d
                    if d > 0:
                        drop.add(i)
                    else:
                        return None
            elif s is not None:
                # p = s - q
                integer = is_integer(p)
                if x.kind == "gt" and y.kind == "gt":
                    # 0 < q < s
                    if s <= 0 or (integer and s <= 1):
                        return None
                elif x.kind == "eq" and y.kind == "eq":
                    if s != 0:
                        return None
                elif x.kind == "eq":  # q = s > 0 ?
                    if s > 0:
                        drop.add(j)
                    else:
                        return None
                else:  # q = 0, p = s
                    if s > 0:
                        drop.add(i)
                    else:
                        return None
    if not drop:
        return inds
    return [a for i, a in enumerate(inds) if i not in drop]


def _open_rules(c, fs):
    """Rewrite rules for terms without binders."""
    return None


def linear_in(p, aid):
    """(coefficient, rest) if p = coeff*x + rest with constant coeff and x not in rest, else None."""
    co, rest = ZERO, {}
    for (fs, bs), c in p.t.items():
        if len(fs) == 1 and not bs and fs[0] == (aid, ONE):
            co = c
        else:
            for a, _e in fs:
                if aid in ATOMS[a].free:
                    return None
            rest[(fs, bs)] = c
    return (co, Poly(rest)) if co else None


def _sum_rules(c, fs, binders):
    """Normalises a term with binders."""
    binders = list(binders)
    changed = True
    while changed:
        changed = False
        # constant trip counts
        for k, (b, hi) in enumerate(binders):
            if hi.is_const():
                n = hi.cval()
                if n <= 0:
                    return Poly({})
                if n.denominator == 1 and n <= 12:
                    rest = binders[:k] + binders[k + 1:]
                    out = {}
                    for v in range(int(n)):
                        _acc(out, _subst_term(c, fs, rest, {b: Poly.const(v)}), ONE)
                    return Poly(out)
        # unused binders
        for k, (b, hi) in enumerate(binders):
            if not any(b in ATOMS[a].free for a in fs) and not any(b in h.free() for _x, h in binders):
                rest = binders[:k] + binders[k + 1:]
                return _mul_open(c, list(fs.items()), rest, hi, 1)
        # a sum inside a power or function that does not use a binder is left alone; deltas are solved
        for a, e in list(fs.items()):
            at = ATOMS[a]
            if at.kind != "eq":
                continue
            for k, (b, hi) in enumerate(binders):
                if b in at.free:
                    lin = linear_in(at.args[0], b)
                    if lin is None or abs(lin[0]) != 1:
                        continue
                    sol = (-lin[1]).scale(ONE / lin[0])
                    if any(b in h.free() for _x, h in binders):
                        continue
                    obinders = {x: h for x, h in binders if x != b}
                    if not (prove_ge0(sol, binders=obinders) and prove_ge0(hi - 1 - sol, binders=obinders)):
                        continue
                    rest = binders[:k] + binders[k + 1:]
                    f2 = dict(fs)
                    del f2[a]
                    return _subst_term(c, f2, rest, {b: sol})
        # indicators on a binder split its range
        r = _split_range(c, fs, binders)
        if r is not None:
            return r
        r = _contract(c, fs, binders)
        if r is not None:
            return r
    # pull out factors that do not depend on any binder?  They stay in the same term: (a sum_i b_i) = sum_i a b_i.
    return _canon(c, fs, binders)


def _subst_term(c, fs, binders, m):
    """Substitutes m into an open term and re-normalises."""
    res, plain = None, []
    for a, e in fs.items():
        if ATOMS[a].free & m.keys():
            q = subst_atom(a, m)
            plain.append((q, e))
        else:
            plain.append((sym_poly(a), e))
    nb = [(b, subst(h, m)) for b, h in binders]
    # multiply out openly
    acc = [(Fr(c), [], nb)]
    out = {}
    simple, complex_ = [], []
    for q, e in plain:
        if len(q.t) == 1:
            ((f2, b2), c2), = q.t.items()
            if not b2 and (c2 == 1 or e.denominator == 1):
                simple.append((f2, c2, e))
                continue
        if not q.t:
            if e > 0:
                return Poly({})
            raise ZeroDivisionError("0 to a negative power")
        complex_.append((q, e))
    cc, ff = Fr(c), []
    for f2, c2, e in simple:
        cc = cc * (c2 ** int(e) if e.denominator == 1 else 1)
        ff += [(a, x * e) for a, x in f2]
    if not complex_:
        return mk_term(cc, ff, nb)
    cur = [(cc, ff, nb)]
    others = set().union(*[q.free() for q, _e in complex_])
    for q, e in complex_:
        if e.denominator == 1 and 0 < e <= 6:
            base, k = q, int(e)
        else:
            base, k = power(q, e), 1
        for _ in range(k):
            nxt = []
            for c1, f1, b1 in cur:
                for (f2, b2), c2 in base.t.items():
                    if b2:
                        f2, b2 = keep_apart(f2, b2, _free_in(f1, b1) | {b for b, _hi in b1} | others)
                    nxt.append((c1 * c2, f1 + list(f2), b1 + list(b2)))
            cur = nxt
            if len(cur) > 20000:
                raise TooBig("substitution")
    for c1, f1, b1 in cur:
        _acc(out, mk_term(c1, f1, b1), ONE)
    return Poly(out)


def _split_range(c, fs, binders):
    bd = dict(binders)
    for k, (b, hi) in enumerate(binders):
        if any(b in h.free() for _x, h in binders):
            continue
        cuts = []
        for a in fs:
            at = ATOMS[a]
            if at.kind == "gt" and b in at.free:
                lin = linear_in(at.args[0], b)
                if lin is None or abs(lin[0]) != 1 or not is_integer(lin[1]):
                    continue
                co, r = lin
                # co=1: b + r > 0  <=> b >= 1 - r ; co=-1: r - b > 0 <=> b < r
                cuts.append(Poly.const(1) - r if co == 1 else r)
        for cut in cuts:
            ob = {x: h for x, h in binders if x != b}
            if prove_ge0(-cut, binders=ob):
                # whole range at or above the cut
                lo, region = cut, (Poly.const(0), hi)
                return _assume_range(c, fs, binders, k, cut, None)
            if prove_ge0(cut - hi, binders=ob):
                return _assume_range(c, fs, binders, k, None, cut)
            if prove_ge0(cut, binders=ob) and prove_ge0(hi - cut, binders=ob):
                rest = binders[:k] + binders[k + 1:]
                f1 = _resolve_inds(fs, b, cut, below=True)
                f2 = _resolve_inds(fs, b, cut, below=False)
                out = {}
                if f1 is not None:
                    _acc(out, mk_term(c, list(f1.items()), rest + [(b, cut)]), ONE)
                if f2 is not None:
                    t = _subst_term(c, f2, rest + [(b, hi - cut)], {b: sym_poly(b) + cut})
                    _acc(out, t, ONE)
                return Poly(out)
    return None


def _assume_range(c, fs, binders, k, lo, hi):
    b = binders[k][0]
    f = _resolve_inds(fs, b, lo if lo is not None else hi, below=lo is None)
    if f is None:
        return Poly({})
    return mk_term(c, list(f.items()), binders)


def _resolve_inds(fs, b, cut, below):
    """Resolves the gt-indicators on b whose cut is exactly `cut`, on the side below (b < cut) or above (b >= cut)."""
    out = {}
    for a, e in fs.items():
        at = ATOMS[a]
        if at.kind == "gt" and b in at.free:
            lin = linear_in(at.args[0], b)
            if lin is not None and abs(lin[0]) == 1 and is_integer(lin[1]):
                co, r = lin
                mycut = Poly.const(1) - r if co == 1 else r
                if mycut == cut:
                    val = (not below) if co == 1 else below
                    if not val:
                        return None
                    continue
        out[a] = e
    return out


def _contract(c, fs, binders):
    """Orthonormality, inverse pairs and product rules."""
    for k, (b, hi) in enumerate(binders):
        if any(b in h.free() for _x, h in binders):
            continue
        use = [(a, e) for a, e in fs.items() if b in ATOMS[a].free]
        rest = binders[:k] + binders[k + 1:]
        bp = sym_poly(b)
        if len(use) == 1 and use[0][1] == 2:
            use = [(use[0][0], ONE), (use[0][0], ONE)]
        if len(use) == 2 and use[0][1] == 1 and use[1][1] == 1:
            (a1, _), (a2, _) = use
            x, y = ATOMS[a1], ATOMS[a2]
            if x.kind == "el" and y.kind == "el":
                for u, v in ((x, y), (y, x)):
                    r = _pair_rule(u, v, bp, hi)
                    if r is not None:
                        f2 = {a: e for a, e in fs.items() if a not in (a1, a2)}
                        if a1 == a2:
                            f2.pop(a1, None)
                        return _mul_open(c, list(f2.items()), rest, r, 1)
        # sum_b W[b,i]^2 with known column norms
        # product rule inside a longer product: sum_b A[a,b] N[b,j] * (no other b)
    return None


def _pos_of(x, bp):
    """Index positions of x that are exactly the bound variable, provided it occurs nowhere else in x."""
    pos = [i for i, p in enumerate(x.args[1]) if p == bp]
    b = aid_of(bp)
    if len(pos) != 1 or any(b in p.free() for i, p in enumerate(x.args[1]) if i != pos[0]):
        return None
    return pos[0]


def _pair_rule(u, v, bp, hi):
    nu, nv = u.args[0], v.args[0]
    pu, pv = _pos_of(u, bp), _pos_of(v, bp)
    if pu is None or pv is None:
        return None
    tu, tv = TENSORS.get(nu), TENSORS.get(nv)
    if nu == nv and tu is not None and tu.ortho and pu == pv == tu.ortho - 1 and hi == tu.dims[pu]:
        iu = [p for i, p in enumerate(u.args[1]) if i != pu]
        iv = [p for i, p in enumerate(v.args[1]) if i != pv]
        if len(iu) == 1:
            return eq(iu[0] - iv[0])
        if iu[1:] == iv[1:]:
            return eq(iu[0] - iv[0])
        return None
    if nu == nv and tu is not None and tu.sq is not None and pu == pv and pu == 0 and hi == tu.dims[0] and u.args[1] == v.args[1]:
        return tu.sq  # every column has this squared norm
    if tu is not None and tu.inv == nv and {pu, pv} == {0, 1} and hi == tu.dims[pu]:
        iu, iv = u.args[1][1 - pu], v.args[1][1 - pv]
        if u.args[1][2:] == v.args[1][2:]:
            return eq(iu - iv)
    rule = PRODUCT_RULES.get((nu, nv))
    if rule is not None:
        return rule(u.args[1], v.args[1], pu, pv)
    return None


# ------------------------------------------------------------------------------------------------- canonical bound names
def _ser_poly(p, col):
    return tuple(sorted(((_ser_mono(m, col), c) for m, c in p.t.items()), key=repr))


def _ser_mono(m, col):
    fs, bs = m
    if bs:
        col = dict(col)
        for i, (b, _h) in enumerate(bs):
            col[b] = ("B", i)
    return (tuple(sorted(((_ser_atom(a, col), str(e)) for a, e in fs), key=repr)), tuple(_ser_poly(h, col) for _b, h in bs))


def _ser_atom(aid, col):
    if aid in col:
        return ("#", col[aid])
    a = ATOMS[aid]
    if not (a.free & col.keys()):
        return aid
    return (a.kind,) + tuple(_ser_arg(x, col) for x in a.args)


def _ser_arg(x, col):
    if isinstance(x, Poly):
        return ("P", _ser_poly(x, col)) if x.free() & col.keys() else ("Q", hash(x))
    if isinstance(x, tuple):
        return tuple(_ser_arg(y, col) for y in x)
    return x


def _names(fs, binders):
    """Canonical names of the bound variables: past those bound inside the factors, and not free in them."""
    fl = list(fs.items())
    j = max([0] + [ATOMS[a].bd for a in fs] + [bd_level(hi) for _b, hi in binders])
    free = _free_in(fl, binders) - {b for b, _hi in binders}
    out = []
    while len(out) < len(binders):
        if bsym(j) not in free:
            out.append(bsym(j))
        j += 1
    return out


def _canon(c, fs, binders):
    n = len(binders)
    bset = [b for b, _ in binders]
    if n == 1:
        b, hi = binders[0]
        (tgt,) = _names(fs, binders)
        if b != tgt:
            ren = {b: sym_poly(tgt)}
            fs = {rename_atom(a, ren): e for a, e in fs.items()}
        return Poly({(tuple(sorted(fs.items())), ((tgt, hi),)): Fr(c)})
    col = {b: ("c", 0) for b in bset}
    his = dict(binders)
    flist = list(fs.items())
    # colour refinement
    for _round in range(n + 1):
        sig = {}
        for b in bset:
            c2 = dict(col)
            c2[b] = ("me",)
            s = tuple(sorted((repr((_ser_atom(a, c2), str(e))) for a, e in flist if b in ATOMS[a].free)))
            h = repr(_ser_poly(his[b], col))
            inh = tuple(sorted(repr(_ser_poly(his[x], c2)) for x in bset if b in his[x].free()))
            sig[b] = (col[b], s, h, inh)
        order = {s: i for i, s in enumerate(sorted({repr(s) for s in sig.values()}))}
        ncol = {b: ("c", order[repr(sig[b])]) for b in bset}
        if len(set(ncol.values())) == len(set(col.values())) and _round > 0:
            col = ncol
            break
        col = ncol
    groups = {}
    for b in bset:
        groups.setdefault(col[b], []).append(b)
    keys = sorted(groups)
    cand = [[]]
    for k in keys:
        g = groups[k]
        if len(g) > 5:
            raise TooBig("symmetric binders")
        cand = [x + list(p) for x in cand for p in permutations(g)]
        if len(cand) > 2000:
            raise TooBig("binder permutations")
    best, to = None, _names(fs, binders)
    for perm in cand:
        # simultaneous renaming through temporaries is unnecessary: rename_atom substitutes simultaneously
        ren = {b: sym_poly(to[i]) for i, b in enumerate(perm) if b != to[i]}
        f2 = tuple(sorted((rename_atom(a, ren), e) for a, e in flist))
        b2 = tuple((to[i], subst(his[b], ren)) for i, b in enumerate(perm))
        if len(cand) == 1:
            best = (f2, b2)
            break
        k = (f2, tuple((x, repr(sorted((m[0], m[1] and 1, str(v)) for m, v in h.t.items()))) for x, h in b2))
        if best is None or k < best[0]:
            best = (k, f2, b2)
    if len(best) == 3:
        best = best[1:]
    return Poly({best: Fr(c)})


# ------------------------------------------------------------------------------------------------------------- powers &c
def is_integer(p):
    for (fs, bs), c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in fs:
            if e.denominator != 1 or e < 0:
                return False
            at = ATOMS[a]
            if at.kind == "sym":
                if not SYMS[at.args[0]].integer:
                    return False
            elif at.kind in ("gt", "eq", "bl"):
                continue
            elif at.kind == "fun" and at.args[0] in ("floor", "ceil", "int", "len", "round"):
                continue
            elif at.kind == "el" and at.args[0] in TENSORS and TENSORS[at.args[0]].integer:
                continue
            else:
                return False
    return True


def atom_nonneg(a):
    at = ATOMS[a]
    if at.kind == "sym":
        lo = SYMS[at.args[0]].lo
        return lo is not None and lo >= 0
    if at.kind in ("gt", "eq", "bl"):
        return True
    if at.kind == "fun":
        return at.args[0] in ("abs", "exp", "norm", "max_abs", "eps", "len", "argmax", "argmin")
    if at.kind == "el":
        t = TENSORS.get(at.args[0])
        return bool(t and t.nonneg)
    if at.kind == "pw":
        return nonneg_poly(at.args[0])
    return False


def nonneg_poly(p):
    """Sufficient syntactic test for p >= 0: every term is a nonnegative product."""
    for (fs, bs), c in p.t.items():
        if c < 0:
            return prove_ge0(p) if len(p.t) <= 8 else False
        for a, e in fs:
            if e.denominator == 1 and e % 2 == 0:
                continue
            if e.denominator == 2 and e > 0:
                continue
            if not atom_nonneg(a):
                return False
    return True


def content(p):
    """(coefficient, common atom powers, primitive part) of a polynomial; no binder dependence in the common part."""
    monos = list(p.t.items())
    common = None
    for (fs, bs), _c in monos:
        bound = {b for b, _ in bs}
        d = {a: e for a, e in fs if not (ATOMS[a].free & bound)}
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) if e > 0 and d[a] > 0 else (max(e, d[a]) if e < 0 and d[a] < 0 else ZERO)
                      for a, e in common.items() if a in d}
            common = {a: e for a, e in common.items() if e}
    # also clear negative powers of plain atoms present in only some terms
    for (fs, bs), _c in monos:
        bound = {b for b, _ in bs}
        for a, e in fs:
            if e < 0 and not (ATOMS[a].free & bound):
                common[a] = min(common.get(a, ZERO), e)
    common = {a: e for a, e in common.items() if e}
    return common


def _div_common(p, common):
    if not common:
        return p
    inv = [(a, -e) for a, e in common.items()]
    out = {}
    for (fs, bs), c in p.t.items():
        _acc(out, mk_term(ONE, list(fs) + inv, list(bs)), c)
    return Poly(out)


def _lead(p):
    """A deterministic leading coefficient."""
    k = max(p.t, key=lambda m: (len(m[0]), len(m[1]), m[0], tuple(x for x, _ in m[1])))
    return p.t[k]


def numeric_root(c, e):
    """c**e for a nonnegative rational c, or None if it is not rational."""
    if e.denominator == 1:
        return c ** int(e)
    q = e.denominator
    for part in (c.numerator, c.denominator):
        r = round(part ** (1.0 / q))
        if r ** q != part:
            return None
    n, d = round(c.numerator ** (1.0 / q)), round(c.denominator ** (1.0 / q))
    return Fr(n, d) ** e.numerator


_POWCACHE = {}


def power(p, e):
    e = Fr(e)
    if e == 1:
        return p
    if e == 0:
        return Poly.const(1)
    k = (p, e)
    r = _POWCACHE.get(k)
    if r is None:
        r = _power(p, e)
        _POWCACHE[k] = r
    return r


def _power(p, e):
    if not p.t:
        if e > 0:
            return p
        raise ZeroDivisionError("0 to a negative power")
    if e.denominator == 1 and 0 < e <= 8 and (len(p.t) <= 40 or e == 2):
        out = p
        for _ in range(int(e) - 1):
            out = out * p
        return out
    if len(p.t) == 1:
        ((fs, bs), c), = p.t.items()
        if not bs:
            coef = None
            if c > 0:
                coef = numeric_root(c, e)
                extra = [] if coef is not None else [(atom("pw", Poly.const(c)).id, e)]
                coef = coef if coef is not None else ONE
            elif e.denominator == 1:
                coef, extra = c ** int(e), []
            elif c < 0 and e.denominator == 2:
                coef = None
            if coef is not None:
                # sqrt(x^2) = |x|
                out = Poly.const(coef)
                flat = list(extra)
                for a, x in fs:
                    y = x * e
                    if ATOMS[a].kind in ("gt", "eq", "bl"):
                        if e < 0:
                            ind = sym_poly(a)
                            return ind * power(cofactor(p, a, True), e) + (Poly.const(1) - ind) * sym("undef")
                        flat.append((a, ONE))
                    elif x.denominator == 1 and x % 2 == 0 and not (y.denominator == 1 and y % 2 == 0) and not atom_nonneg(a):
                        out = out * power(fun("abs", sym_poly(a)), y)
                    else:
                        flat.append((a, y))
                return out * mk_term(ONE, flat, [])
    # distribute over indicators
    for (fs, bs), _c in p.t.items():
        bound = {b for b, _ in bs}
        for a, _x in fs:
            if ATOMS[a].kind in ("gt", "eq", "bl") and not (ATOMS[a].free & bound):
                p1, p0 = cofactor(p, a, True), cofactor(p, a, False)
                ind = sym_poly(a)
                t1 = _pow_or_undef(p1, e)
                t0 = _pow_or_undef(p0, e)
                return ind * t1 + (Poly.const(1) - ind) * t0
    common = content(p)
    if common:
        prim = _div_common(p, common)
        cp = Poly.const(1)
        for a, x in common.items():
            cp = cp * power(Poly.of_atom(ATOMS[a], x) if ATOMS[a].kind != "pw" else Poly({(((a, x),), ()): ONE}), e)
        return cp * power(prim, e)
    # clear composite denominators
    den = None
    for (fs, bs), _c in p.t.items():
        bound = {b for b, _ in bs}
        for a, x in fs:
            if ATOMS[a].kind == "pw" and x < 0 and not (ATOMS[a].free & bound):
                den = a
                break
        if den is not None:
            break
    if den is not None:
        m = min(dict(fs).get(den, ZERO) for (fs, bs) in p.t)
        kk = -(m.numerator // m.denominator)
        q = _div_common(p, {den: Fr(-kk)})
        return power(q, e) * Poly({(((den, -e * kk),), ()): ONE}) if True else None
    lead = _lead(p)
    if e.denominator == 1:
        return power_atom(p.scale(ONE / lead), e).scale(lead ** int(e))
    # positive scaling only
    s = abs(lead)
    root = numeric_root(s, e)
    if root is None:
        base = atom("pw", Poly.const(s)).id
        return power_atom(p.scale(ONE / s), e) * Poly({(((base, e),), ()): ONE})
    return power_atom(p.scale(ONE / s), e).scale(root)


def _pow_or_undef(p, e):
    if not p.t and e < 0:
        return Poly.of_atom(atom("sym", "undef")) if "undef" in SYMS else sym("undef")
    return power(p, e)


PW_REG = []


def power_atom(p, e):
    a = atom("pw", p)
    return Poly({(((a.id, Fr(e)),), ()): ONE})


def cofactor(p, a, val):
    """p with indicator atom a replaced by 1 or 0 (other indicators re-simplified under that assumption)."""
    out = {}
    for (fs, bs), c in p.t.items():
        d = dict(fs)
        if a in d:
            if not val:
                continue
            del d[a]
        _acc(out, Poly({(tuple(sorted(d.items())), bs): ONE}), c)
    q = Poly(out)
    at = ATOMS[a]
    if at.kind in ("gt", "eq") and q.t:
        # resolve indicators over the same polynomial
        todo = set()
        for (fs, bs) in q.t:
            for x, _e in fs:
                if ATOMS[x].kind in ("gt", "eq") and x != a:
                    todo.add(x)
        for x in todo:
            v = implied(at, val, ATOMS[x])
            if v is not None:
                q = cofactor_raw(q, x, v)
    return q


def cofactor_raw(p, a, val):
    out = {}
    for (fs, bs), c in p.t.items():
        d = dict(fs)
        if a in d:
            if not val:
                continue
            del d[a]
        _acc(out, Poly({(tuple(sorted(d.items())), bs): ONE}), c)
    return Poly(out)


def implied(x, val, y):
    """Truth of indicator y given that indicator x is val (same linear form only); None if unknown."""
    p, q = x.args[0], y.args[0]
    d = _diff_const(q, p)  # q = p + d
    s = _diff_const(q, -p) if d is None else None
    integer = is_integer(p)
    if x.kind == "eq" and val:
        v = d if d is not None else s
        if v is None:
            return None
        return v > 0 if y.kind == "gt" else v == 0
    if x.kind == "gt":
        if d is not None:
            if val:  # p > 0
                if y.kind == "gt":
                    return True if (d >= 0 or (integer and d >= 0)) else None
                return False if d >= 0 else None
            # p <= 0
            if y.kind == "gt":
                return False if d <= 0 else None
            return False if d < 0 else None
        if s is not None:  # q = s - p
            if val:  # p > 0 -> q < s (integers: q <= s - 1)
                if y.kind == "gt":
                    return False if s <= (1 if integer else 0) else None
                return False if s <= 0 else None
            # p <= 0 -> q >= s
            if y.kind == "gt":
                return True if s > 0 else None
            return False if s > 0 else None
    return None


# ------------------------------------------------------------------------------------------------------------ indicators
def gt(p):
    """[p > 0]"""
    p = P(p)
    if p.is_const():
        return Poly.const(1 if p.cval() > 0 else 0)
    r = _over_inds(p, gt)
    if r is not None:
        return r
    if prove_ge0(-p):
        return Poly.const(0)
    integer = is_integer(p)
    if integer:
        if prove_ge0(p - 1) or strictly_pos(p):
            return Poly.const(1)
        g = _int_content(p)
        if g > 1:
            k = p.cval()
            q = p - k
            # g*q' + k > 0  <=>  q' > -k/g  <=> q' + ceil(k/g) > 0
            kk = -((-k) // g)
            p = q.scale(Fr(1, g)) + kk
            return gt(p)
        if _lead(p) < 0:
            return Poly.const(1) - gt(-p + 1)
        return Poly.of_atom(atom("gt", p))
    if strictly_pos(p):
        return Poly.const(1)
    p = _clear_pos(p)
    l = _lead(p)
    p = p.scale(ONE / abs(l))
    if l < 0:
        q = -p
        return Poly.const(1) - Poly.of_atom(atom("gt", q)) - eq(q)
    return Poly.of_atom(atom("gt", p))


def ge(p):
    """[p >= 0]"""
    p = P(p)
    if is_integer(p):
        return gt(p + 1)
    return Poly.const(1) - gt(-p)


def _int_content(p):
    from math import gcd
    g = 0
    for m, c in p.t.items():
        if m != ((), ()):
            g = gcd(g, abs(int(c)))
    return g or 1


def strictly_pos(p):
    """Sufficient test for p > 0."""
    d = prove_ge0(p) and any(_pos_term(m, c) for m, c in p.t.items()) and all(c > 0 for c in p.t.values())
    return bool(d)


def _pos_term(m, c):
    fs, bs = m
    if c <= 0 or bs:
        return False
    for a, e in fs:
        at = ATOMS[a]
        if at.kind == "sym" and SYMS[at.args[0]].lo is not None and SYMS[at.args[0]].lo > 0:
            continue
        if at.kind == "fun" and at.args[0] in ("exp", "eps"):
            continue
        if at.kind == "pw" and strictly_pos(at.args[0]):
            continue
        return False
    return True


def _clear_pos(p):
    """Multiplies by positive factors so that positive denominators and common positive factors disappear."""
    common = content(p)
    use = {}
    for a, e in common.items():
        at = ATOMS[a]
        pos = (at.kind == "sym" and SYMS[at.args[0]].lo is not None and SYMS[at.args[0]].lo > 0) or (at.kind == "pw" and e.denominator == 1 and strictly_pos(at.args[0])) or (at.kind == "fun" and at.args[0] in ("exp", "eps"))
        if pos:
            use[a] = e
    return _div_common(p, use) if use else p


def eq(p):
    """[p = 0]"""
    p = P(p)
    if p.is_const():
        return Poly.const(1 if p.cval() == 0 else 0)
    r = _over_inds(p, eq)
    if r is not None:
        return r
    if prove_ge0(p - 1) or prove_ge0(-p - 1) if is_integer(p) else (strictly_pos(p) or strictly_pos(-p)):
        return Poly.const(0)
    if is_integer(p):
        isidx = any(ATOMS[a].kind == "sym" and SYMS[ATOMS[a].args[0]].index for a in p.free())
        if not isidx:
            if prove_ge0(p):
                return Poly.const(1) - gt(p)
            if prove_ge0(-p):
                return Poly.const(1) - gt(-p)
    if len(p.t) == 1:
        ((fs, bs),) = p.t
        if not bs and len(fs) == 1 and fs[0][1] > 0:
            at = ATOMS[fs[0][0]]
            if at.kind == "fun" and at.args[0] == "abs" and isinstance(at.args[1], Poly):
                return eq(at.args[1])
            if fs[0][1] != 1:
                return eq(Poly.of_atom(at))
    l = _lead(p)
    p = p.scale(ONE / l)
    return Poly.of_atom(atom("eq", p))


def _over_inds(p, f):
    """Distributes an indicator-valued function over indicators occurring in p."""
    for (fs, bs), _c in p.t.items():
        if bs:
            continue
        for a, _x in fs:
            if ATOMS[a].kind in ("gt", "eq", "bl"):
                ind = sym_poly(a)
                return ind * f(cofactor(p, a, True)) + (Poly.const(1) - ind) * f(cofactor(p, a, False))
    return None


def opaque_bool(*key):
    return Poly.of_atom(atom("bl", *key))


def phi(c, a, b):
    c, a, b = P(c), P(a), P(b)
    if c.is_const():
        return a if c.cval() else b
    if a == b:
        return a
    return c * a + (Poly.const(1) - c) * b


def pmax(a, b):
    a, b = P(a), P(b)
    if prove_ge0(a - b):
        return a
    if prove_ge0(b - a):
        return b
    return phi(gt(a - b), a, b)


def pmin(a, b):
    a, b = P(a), P(b)
    if prove_ge0(a - b):
        return b
    if prove_ge0(b - a):
        return a
    return phi(gt(a - b), b, a)


FUN_REG = {}  # name -> list of argument tuples already seen (interned modulo equality)


def fun(name, *args):
    """Function application; distributes over indicators in its polynomial arguments."""
    for i, x in enumerate(args):
        if isinstance(x, Poly):
            for (fs, bs), _c in x.t.items():
                bound = {b for b, _ in bs}
                for a, _e in fs:
                    if ATOMS[a].kind in ("gt", "eq", "bl") and not (ATOMS[a].free & bound):
                        ind = sym_poly(a)
                        a1 = args[:i] + (cofactor(x, a, True),) + args[i + 1:]
                        a0 = args[:i] + (cofactor(x, a, False),) + args[i + 1:]
                        return ind * fun(name, *a1) + (Poly.const(1) - ind) * fun(name, *a0)
    if name == "abs":
        x = args[0]
        if x.is_const():
            return Poly.const(abs(x.cval()))
        if nonneg_poly(x):
            return x
        if nonneg_poly(-x):
            return -x
        if len(x.t) == 1:
            ((fs, bs), c), = x.t.items()
            if not bs:
                out = Poly.const(abs(c))
                rest = []
                for a, e in fs:
                    if atom_nonneg(a) or (e.denominator == 1 and e % 2 == 0):
                        out = out * Poly({(((a, e),), ()): ONE})
                    else:
                        rest.append((a, e))
                if len(rest) == 1 and rest[0][1].denominator == 1:
                    a, e = rest[0]
                    return out * power(Poly.of_atom(atom("fun", "abs", sym_poly(a))), e)
                inner = Poly({(tuple(sorted(rest)), ()): ONE})
                return out * Poly.of_atom(atom("fun", "abs", inner))
        if _lead(x) < 0:
            x = -x
    elif name in ("floor", "ceil", "int", "round"):
        x = args[0]
        if x.is_const():
            import math
            c = x.cval()
            return Poly.const({"floor": math.floor, "ceil": math.ceil, "int": math.trunc, "round": round}[name](c))
        if is_integer(x):
            return x
        if name in ("floor", "ceil"):
            k = x.cval()
            if k and k.denominator == 1:
                return fun(name, x - k) + k
    elif name == "exp" and args[0].is_const() and args[0].cval() == 0:
        return Poly.const(1)
    elif name == "log" and args[0].is_const() and args[0].cval() == 1:
        return Poly.const(0)
    key = (name,) + args
    if ("fun", key) in _TABLE:
        return Poly.of_atom(_TABLE[("fun", key)])
    # intern modulo provable equality of the arguments
    fr = set()
    for x in args:
        _collect_free(x, fr)
    sig = (name, len(args), frozenset(fr))
    for other in FUN_REG.get(sig, ()):
        if all(_same_arg(x, y) for x, y in zip(args, other)):
            return Poly.of_atom(atom("fun", name, *other))
    FUN_REG.setdefault(sig, []).append(args)
    return Poly.of_atom(atom("fun", *key))


def _same_arg(x, y):
    if x == y:
        return True
    if isinstance(x, Poly) and isinstance(y, Poly):
        return is_zero(x - y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(_same_arg(a, b) for a, b in zip(x, y))
    return False


def sqrt(p):
    return power(P(p), Fr(1, 2))


# --------------------------------------------------------------------------------------------------------- linear prover
FACTS = []  # polynomials known to be >= 0 in the current context (a stack managed by the interpreter)


def lower_shift(p, binders=None):
    """Substitutes x = lo + x' for atoms with a lower bound; unknown-sign atoms stay.  Returns (const, terms) with terms
    {frozen monomial: coeff} where monomials of nonnegative atoms are nonnegative, plus set of monomials of unknown sign."""
    const, nn, unk = ZERO, {}, {}
    for (fs, bs), c in p.t.items():
        if not fs and not bs:
            const += c
            continue
        if bs:
            ok = all(atom_nonneg(a) or (e.denominator == 1 and e % 2 == 0) for a, e in fs)
            (nn if ok else unk)[(fs, bs)] = (nn if ok else unk).get((fs, bs), ZERO) + c
            continue
        if len(fs) == 1 and fs[0][1] == 1:
            a = fs[0][0]
            at = ATOMS[a]
            if at.kind == "sym":
                lo = SYMS[at.args[0]].lo
                if lo is not None:
                    const += c * lo
                    nn[(fs, bs)] = nn.get((fs, bs), ZERO) + c
                    continue
            if atom_nonneg(a):
                nn[(fs, bs)] = nn.get((fs, bs), ZERO) + c
                continue
            unk[(fs, bs)] = c
            continue
        los = []
        ok = True
        for a, e in fs:
            if e.denominator == 1 and e % 2 == 0:
                los.append(ZERO)
                continue
            if not atom_nonneg(a):
                ok = False
                break
            at = ATOMS[a]
            if at.kind == "sym" and e > 0 and e.denominator == 1:
                los.append(SYMS[at.args[0]].lo ** int(e))
            else:
                los.append(ZERO)
        if ok:
            lo = ONE
            for x in los:
                lo *= x
            const += c * lo
            nn[(fs, bs)] = nn.get((fs, bs), ZERO) + c
        else:
            unk[(fs, bs)] = c
    return const, nn, unk


_PROVE_DEPTH = [0]
_PROVE_CACHE = {}


def prove_ge0(p, facts=None, depth=4, binders=None):
    """Sound, incomplete test for p >= 0."""
    p = P(p)
    if p.is_const():
        return p.cval() >= 0
    if len(p.t) > 24:
        return False
    fl = list(FACTS if facts is None else facts)
    key = (p, tuple(fl), depth, tuple(sorted(((k, v) for k, v in (binders or {}).items()), key=lambda kv: kv[0])))
    if key in _PROVE_CACHE:
        return _PROVE_CACHE[key]
    if _PROVE_DEPTH[0] > 6:
        return False
    _PROVE_DEPTH[0] += 1
    try:
        r = _prove(p, fl, depth, binders or {}, 0)
    finally:
        _PROVE_DEPTH[0] -= 1
    if len(_PROVE_CACHE) < 300000:
        _PROVE_CACHE[key] = r
    return r


def _cand_facts(p, fl, binders):
    out = list(fl)
    seen = set()
    todo = list(p.free())
    for x in list(todo):
        at = ATOMS[x]
        if at.kind != "sym":
            continue
        hi = binders.get(x)
        if hi is None:
            hi = SYMS[at.args[0]].hi
        if hi is not None and x not in seen:
            seen.add(x)
            out.append(hi - 1 - sym_poly(x))
            # products with positive symbols:  n*(hi-1-x) is tried through _mulfacts
    # floor/ceil/min style atoms
    for (fs, bs) in p.t:
        for a, e in fs:
            at = ATOMS[a]
            if at.kind == "fun" and at.args[0] == "ceil":
                x = at.args[1]
                f = sym_poly(a) - x
                out += [f, x + 1 - sym_poly(a)]
                out += _clear_facts(f)
            elif at.kind == "fun" and at.args[0] == "floor":
                x = at.args[1]
                out += [x - sym_poly(a), sym_poly(a) - x + 1]
                out += _clear_facts(x - sym_poly(a))
    return out


def _clear_facts(f):
    """f >= 0 multiplied by positive denominators."""
    common = {}
    for (fs, bs) in f.t:
        for a, e in fs:
            if e < 0 and ATOMS[a].kind == "sym" and (SYMS[ATOMS[a].args[0]].lo or 0) > 0:
                common[a] = min(common.get(a, ZERO), e)
    return [_div_common(f, common)] if common else []


def _prove(p, fl, depth, binders, level):
    const, nn, unk = lower_shift(p)
    neg = [(m, c) for m, c in nn.items() if c < 0] + list(unk.items())
    if not neg and const >= 0:
        return True
    if depth <= 0:
        return False
    facts = _cand_facts(p, fl, binders)
    if neg:
        # cancel one troublesome monomial
        for m, c in neg[:2]:
            for f in facts:
                cf = f.t.get(m)
                if cf is None or (cf > 0) != (c > 0):
                    continue
                lam = c / cf
                if lam <= 0:
                    continue
                if _prove(p - f.scale(lam), fl, depth - 1, binders, level + 1):
                    return True
            # multiply a linear bound by a positive co-factor:  m = x * rest
            fs, bs = m
            if not bs and len(fs) >= 2:
                for a, e in fs:
                    at = ATOMS[a]
                    if at.kind != "sym" or e != 1:
                        continue
                    rest = Poly({(tuple(x for x in fs if x[0] != a), ()): ONE})
                    if not all(atom_nonneg(x) for x, _e in fs if x != a):
                        continue
                    hi = binders.get(a)
                    if hi is None:
                        hi = SYMS[at.args[0]].hi
                    cands = []
                    if hi is not None:
                        cands.append(hi - 1 - sym_poly(a))
                    lo = SYMS[at.args[0]].lo
                    if lo is not None:
                        cands.append(sym_poly(a) - lo)
                    cands += [f for f in fl if a in f.free()]
                    for f in cands:
                        g = f * rest
                        cf = g.t.get(m)
                        if cf is None or (cf > 0) != (c > 0):
                            continue
                        if _prove(p - g.scale(c / cf), fl, depth - 1, binders, level + 1):
                            return True
        return False
    # only the constant is negative: use a fact with a negative constant part
    for f in fl:
        fc, fnn, funk = lower_shift(f)
        if fc < 0 and not funk and all(c >= 0 for c in fnn.values()):
            if all(nn.get(m, ZERO) >= c * (const / fc) for m, c in fnn.items()):
                return True
    return False


# -------------------------------------------------------------------------------------------------------------- zero test
def clear_denominators(p, limit=12):
    for _ in range(limit):
        den = None
        for (fs, bs), _c in p.t.items():
            bound = {b for b, _ in bs}
            for a, x in fs:
                if x < 0 and ATOMS[a].kind == "pw" and not (ATOMS[a].free & bound):
                    den = a
                    break
            if den is not None:
                break
        if den is None:
            return p
        m = min(dict(fs).get(den, ZERO) for (fs, bs) in p.t)
        kk = -(m.numerator // m.denominator)
        p = _div_common(p, {den: Fr(-kk)})
        if len(p.t) > 6000:
            raise TooBig("denominators")
    return p


_ZC = {}


def budget(seconds, thunk):
    """Runs thunk; rewriting beyond the time budget raises TooBig."""
    old = DEADLINE[0]
    new = time.monotonic() + seconds
    DEADLINE[0] = new if old is None else min(old, new)
    try:
        return thunk()
    finally:
        DEADLINE[0] = old


def is_zero(p):
    """True when the normal form of p is zero after clearing denominators."""
    if not p.t:
        return True
    if p.is_const():
        return False
    r = _ZC.get(p)
    if r is None:
        q = clear_denominators(p)
        if q.t and any(bs for _fs, bs in q.t):
            q = split_sums(q)
        r = not q.t
        _ZC[p] = r
    return r


def split_sums(p, limit=200):
    """Splits sums whose upper bound is itself a sum of nonnegative parts: sum_{b<u+v} f(b) = sum_{b<u} f(b) + sum_{b<v} f(b+u)."""
    work, out = p, {}
    for _ in range(limit):
        for (fs, bs), c in work.t.items():
            for k, (b, hi) in enumerate(bs):
                if len(hi.t) < 2 or any(b in h.free() for _x, h in bs):
                    continue
                parts = [(m, q) for m, q in hi.t.items()]
                if any(q < 0 or m[1] or not all(x.denominator == 1 and x > 0 and atom_nonneg(a) and is_integer(sym_poly(a)) for a, x in m[0]) for m, q in parts):
                    continue
                parts.sort(key=lambda mq: (not mq[0][0], sorted(mq[0][0])))
                u = Poly({parts[0][0]: parts[0][1]})
                rest = bs[:k] + bs[k + 1:]
                t1 = mk_term(c, list(fs), list(rest) + [(b, u)])
                t2 = _subst_term(c, dict(fs), list(rest) + [(b, hi - u)], {b: sym_poly(b) + u})
                work = work - Poly({(fs, bs): c}) + t1 + t2
                break
            else:
                continue
            break
        else:
            return work
        if len(work.t) > 4000:
            return work
    return work


def indicators(p, out=None):
    out = set() if out is None else out
    for (fs, bs) in p.t:
        bound = {b for b, _ in bs}
        for a, _e in fs:
            if ATOMS[a].kind in ("gt", "eq", "bl") and not (ATOMS[a].free & bound):
                out.add(a)
    return out


def with_facts(extra, thunk):
    n = len(FACTS)
    FACTS.extend(extra)
    try:
        return thunk()
    finally:
        del FACTS[n:]


def with_base(base, thunk):
    """Evaluates under exactly the given facts."""
    saved = list(FACTS)
    FACTS[:] = base
    try:
        return thunk()
    finally:
        FACTS[:] = saved


def fact_of(a, val):
    """Facts (>= 0 polynomials) implied by indicator atom a being val."""
    at = ATOMS[a]
    if at.kind == "gt":
        p = at.args[0]
        integer = is_integer(p)
        if val:
            return [p - 1] if integer else [p]
        return [-p]
    if at.kind == "eq" and val:
        return [at.args[0], -at.args[0]]
    return []


def resimplify(p):
    """Re-evaluates the top-level indicators of p under the current facts."""
    for a in sorted(indicators(p)):
        at = ATOMS[a]
        if at.kind == "gt":
            v = gt(at.args[0])
        elif at.kind == "eq":
            v = eq(at.args[0])
        else:
            continue
        if v.is_const():
            p = cofactor_raw(p, a, bool(v.cval()))
    return p


def solve_eq_subst(p, a):
    """Uses a true equality indicator to substitute one of its symbols in p."""
    at = ATOMS[a]
    for x in sorted(at.args[0].free()):
        if ATOMS[x].kind != "sym":
            continue
        lin = linear_in(at.args[0], x)
        if lin and SYMS[ATOMS[x].args[0]].index:
            return subst(p, {x: (-lin[1]).scale(ONE / lin[0])})
    for x in sorted(at.args[0].free()):
        lin = linear_in(at.args[0], x) if ATOMS[x].kind == "sym" else None
        if lin:
            return subst(p, {x: (-lin[1]).scale(ONE / lin[0])})
    return p


def decide_zero(p, depth=10, trail=()):
    """Case analysis over the indicators of p.  Returns (True, None) or (False, (case trail, residual))."""
    p = resimplify(p)
    if is_zero(p):
        return True, None
    inds = sorted(indicators(p))
    if not inds:
        q = clear_denominators(p)
        inds = sorted(indicators(q))
        if not inds:
            return False, (trail, p)
        p = q
    if depth <= 0:
        return False, (trail + ("...",), p)
    # prefer equalities, then inequalities
    inds.sort(key=lambda a: (ATOMS[a].kind != "gt", ATOMS[a].kind != "eq", a))
    a = inds[0]
    for val in (True, False):
        q = cofactor(p, a, val)
        extra = fact_of(a, val)
        if any(prove_ge0(-f - 1) if is_integer(f) else (prove_ge0(-f) and strictly_pos(-f)) for f in extra):
            continue

        def go():
            if contradictory(extra):
                return True, None
            q2 = solve_eq_subst(q, a) if (val and ATOMS[a].kind == "eq") else q
            return decide_zero(q2, depth - 1, trail + ((a, val),))
        ok, w = with_facts(extra, go)
        if not ok:
            return False, w
    return True, None


def contradictory(extra):
    """Do the current facts clash?  (pairwise integer check)"""
    for f in extra:
        others = [g for g in FACTS if g is not f]
        neg = (-f - 1) if is_integer(f) else None
        if neg is not None and prove_ge0(neg, facts=others, depth=2):
            return True
    return False


# ----------------------------------------------------------------------------------------------------------------- sums
def sum_over(p, idx, hi):
    """sum_{idx in [0,hi)} p, where idx is a free index symbol (Poly or atom id)."""
    b = aid_of(idx) if isinstance(idx, Poly) else idx
    hi = P(hi)
    out = {}
    for (fs, bs), c in p.t.items():
        f2, b2 = list(fs), list(bs)
        # choose a bound name that is not used here
        used = {x for x, _ in b2}
        if b in used:
            raise AssertionError("capture")
        _acc(out, mk_term(ONE, f2, b2 + [(b, hi)]), c)
    return Poly(out)


# -------------------------------------------------------------------------------------------------------------- tainting
def atoms_of(p, out=None):
    out = set() if out is None else out
    for (fs, bs) in p.t:
        for a, _e in fs:
            if a in out:
                continue
            out.add(a)
            for x in ATOMS[a].args:
                _atoms_arg(x, out)
        for _b, hi in bs:
            atoms_of(hi, out)
    return out


_DEEP = {}


def atoms_deep(p):
    """All atoms of p, those in the definitions of named arrays included."""
    out = set()
    todo = atoms_of(p)
    while todo:
        a = todo.pop()
        if a in out:
            continue
        out.add(a)
        at = ATOMS[a]
        if at.kind == "el" and isinstance(at.args[0], str):
            k = at.args[0].rfind("#")
            if k >= 0 and at.args[0][k + 1:].isdigit():
                d = int(at.args[0][k + 1:])
                r = _DEEP.get(d)
                if r is None:
                    r = set()
                    for x in ATOMS[d].args:
                        _atoms_arg(x, r)
                    _DEEP[d] = r
                todo |= r - out
    return out


def _atoms_arg(x, out):
    if isinstance(x, Poly):
        atoms_of(x, out)
    elif isinstance(x, tuple):
        for y in x:
            _atoms_arg(y, out)


# ------------------------------------------------------------------------------------------------------------- printing
def show_atom(aid):
    a = ATOMS[aid]
    if a.kind == "sym":
        return a.args[0].replace("\x01", "").replace("\x02", "x")
    if a.kind == "el":
        return f"{a.args[0]}[{','.join(show(i) for i in a.args[1])}]"
    if a.kind == "fun":
        return f"{a.args[0]}({', '.join(show(x) if isinstance(x, Poly) else str(x) for x in a.args[1:])})"
    if a.kind == "pw":
        return f"({show(a.args[0])})"
    if a.kind == "gt":
        return f"[{show(a.args[0])} > 0]"
    if a.kind == "eq":
        return f"[{show(a.args[0])} = 0]"
    return f"<{' '.join(show(x) if isinstance(x, Poly) else str(x) for x in a.args)}>"


def show(p, limit=12):
    if not p.t:
        return "0"
    parts = []
    for i, ((fs, bs), c) in enumerate(p.t.items()):
        if i >= limit:
            parts.append("...")
            break
        s = "*".join(show_atom(a) + ("" if e == 1 else f"^{e}") for a, e in fs)
        if bs:
            s = "".join(f"sum_{ATOMS[b].args[0][1:] if ATOMS[b].args[0][0] == chr(1) else ATOMS[b].args[0]}<{show(h)} " for b, h in bs) + (s or "1")
        if not s:
            s = str(c)
        elif c != 1:
            s = f"{c}*{s}" if c != -1 else f"-{s}"
        parts.append(s)
    return " + ".join(parts).replace("+ -", "- ")
