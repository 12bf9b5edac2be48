"""C09-C12: isotropic sampling, provenance of randomness, parallel filling, random matrices."""
import math
from ..chk import prop, Anchor
from ..lib import *
from .. import witness
from ..npfun import Rng

ISO = "primate.random.isotropic"


def urng():
    return Rng(("user",))


# -------------------------------------------------------------------------------------------------------------------- C09
class StreamWorld(witness.World):
    """An interpretation in which the random stream is prescribed; remembers which stream elements were read."""

    def __init__(self, seed, stream, names, **kw):
        super().__init__(seed, **kw)
        self.stream, self.names, self.read = stream, names, []

    def elem0(self, name, info, idx, key):
        if name in self.names:
            self.read.append(key)
            return self.stream(name, key[1:])
        return super().elem0(name, info, idx, key)


def draws(I, since=0):
    return [e for e in I.events[since:] if e.kind == "draw"]


def norm_ppf(p):
    from statistics import NormalDist
    return NormalDist().inv_cdf(p)


def law_value(law, u):
    return u if law == "U01" else norm_ppf(min(max(u, 1e-15), 1 - 1e-15))


@prop("C09", "The sampler is analysed with a symbolic shape and an arbitrary stream, by size, in place (every rank, memory order and "
      "precision) and through the returned callable. Each output entry is a closed form over stream elements: for signs it must read "
      "exactly one element, distinct for distinct entries, and push the uniform law forward to +-1 with measure one half (the breakpoints of "
      "the piecewise-constant form are located and measured, including the end points); for the sphere it must equal the entry times "
      "sqrt(n)/column norm; for normal the entry itself. The three calling modes must be the same form of the same stream; other names raise.")
def c09(ck):
    for pdf in ("rademacher", "signs", "sphere", "normal", "gaussian"):
        for how in ("size", "size int", "size 1-d", "curried", "curried int", "default seed", "out F", "out C", "out float32", "out 1-d"):
            ck.attempt("sampled-form", ISO, lambda: c09_case(ck, pdf, how))
    ck.attempt("unknown-rejected", ISO, lambda: c09_bad(ck))
    ck.attempt("default-distribution", ISO, lambda: c09_default(ck))
    for pdf in ("rademacher", "signs", "sphere", "normal", "gaussian"):
        ck.attempt("buffer", "primate.random.Isotropic", lambda: c09_class(ck, pdf))


def c09_case(ck, pdf, how):
    I = ck.interp()
    f = ck.public(I, "random", "isotropic")
    n, m = isym("n"), isym("m")
    rng = urng()
    mark = len(I.events)
    tag = f"pdf={pdf}, {how}"
    out = None
    order, dt = "C", "float64"
    if how.startswith("out"):
        dt = "float32" if "32" in how else "float64"
        dims = (n,) if "1-d" in how else (n, m)
        out, _ = arr(I, "out", dims, dt, order="F" if how.endswith("F") else "C")

    def go():
        if out is not None:
            return I.call(f, [], {"pdf": pdf, "seed": rng, "out": out})
        if how == "size":
            return I.call(f, [(N(n), N(m))], {"pdf": pdf, "seed": rng})
        if how == "size int":
            return I.call(f, [N(n)], {"pdf": pdf, "seed": rng})
        if how == "size 1-d":
            return I.call(f, [(N(n),)], {"pdf": pdf, "seed": rng})
        if how == "default seed":
            return I.call(f, [(N(n), N(m))], {"pdf": pdf})
        s = I.call(f, [], {"pdf": pdf, "seed": rng})
        return I.call(s, [N(n) if how.endswith("int") else (N(n), N(m))], {})
    r, ex = I.run(go)
    ck.no_raise("accepted", ISO, ex, tag)
    if r is MISSING:
        return ck.bad("accepted", ISO, tag)
    if out is not None:
        ck.require("in-place-returns-nothing", ISO, r is None, f"{tag}: {r!r}")
        r = out
    want_dims = (n,) if "1-d" in how else ((n, ONE) if how.endswith("int") else (n, m))
    if not isinstance(r, ARef):
        return ck.undecided("sampled-form", ISO, f"{tag}: result {r!r}")
    if len(r.dims) != len(want_dims):
        return ck.bad("shape", ISO, f"{tag}: {len(r.dims)} axes instead of {len(want_dims)}")
    for a, b in zip(r.dims, want_dims):
        ck.eq("shape", ISO, a, b, detail=tag)
    check_form(ck, I, pdf, r, draws(I, mark), tag, ISO)


def check_form(ck, I, pdf, r, drs, tag, where, ij=None):
    n = r.dims[0]
    ix = [fresh_index(d) for d in r.dims]
    body = npm.elem(I, r, ix)
    laws = {e.name: e.law for e in drs if e.name is not None}
    if any(l not in ("U01", "N01") for l in laws.values()) or witness.tainted(body):
        return ck.undecided("sampled-form", where, f"{tag}: laws {sorted(set(laws.values()))} {sorted(witness.tainted(body))[:2]}")
    if pdf in ("rademacher", "signs"):
        return signs_form(ck, body, r, ix, laws, tag, where)
    nm = [x for x in laws if laws[x] == "N01"]
    if len(laws) != 1 or not nm:
        return ck.undecided("sampled-form", where, f"{tag}: {len(laws)} draws with laws {sorted(laws.values())}")
    z = lambda *jx: el(nm[0], tuple(jx))
    # the stream may be laid out in any order: it is compared up to a transposition of the drawn block
    forms = [z]
    if len(r.dims) == 2 and len(drs[0].dims) == 2 and drs[0].dims[0] != r.dims[0]:
        forms = [lambda i, j: z(j, i)]
    for g in forms:
        if pdf in ("normal", "gaussian"):
            want = g(*ix)
        else:
            col = ix[1:]
            s = S(lambda b: g(b, *col) * g(b, *col), n)
            want = g(*ix) * power(n, Fr(1, 2)) / power(s, Fr(1, 2))
        ck.zero("sampled-form", where, body - want, detail=f"{tag}: " + ("standard normal entry" if pdf in ("normal", "gaussian") else "entry * sqrt(n) / column norm"))


def signs_form(ck, body, r, ix, laws, tag, where):
    names = set(laws)
    probes = [0.0, 0.25, 0.5, 0.75, 1 - 2.0 ** -24, 2.0 ** -24, 0.5 - 2.0 ** -24, 0.5 + 2.0 ** -24]
    K = 256
    grid = sorted(set([(k + 0.37) / K for k in range(K)] + probes))
    seen = {}

    def at(u, pos):
        w = StreamWorld(1, lambda name, key: law_value(laws[name], u), names)
        for d in r.dims:
            w.poly(d, {})
        for k, (i, d) in enumerate(zip(ix, r.dims)):
            w.syms[ATOMS[aid_of(i)].args[0]] = float(pos[k])
        v = w.poly(body, {})
        return v, set(w.read)
    try:
        # which stream elements an entry reads
        size = [3] * len(ix)
        for d in r.dims:
            pass
        w0 = witness.World(1)
        size = [max(1, w0.intval(w0.poly(d, {}))) for d in r.dims]
        import itertools
        for pos in itertools.product(*[range(min(s, 4)) for s in size]):
            v, rd = at(0.3, pos)
            if len(rd) != 1:
                return ck.bad("one-draw-per-entry", where, f"{tag}: entry {pos} reads {len(rd)} stream elements")
            k = next(iter(rd))
            if k in seen:
                return ck.bad("one-draw-per-entry", where, f"{tag}: entries {pos} and {seen[k]} read the same stream element {k}")
            seen[k] = pos
        ck.ok("one-draw-per-entry", where, f"{tag}: {len(seen)} entries, pairwise distinct")
        pos = tuple(0 for _ in ix)
        g = lambda u: at(u, pos)[0]
        vals = [(u, g(u)) for u in grid]
        odd = [(u, v) for u, v in vals if abs(abs(v) - 1) > 1e-12]
        if odd:
            return ck.bad("two-point-law", where, f"{tag}: stream value {odd[0][0]} gives {odd[0][1]}")
        plus = 0.0
        for (a, va), (b, vb) in zip(vals, vals[1:]):
            if va == vb:
                plus += (b - a) * (va > 0)
            else:
                lo, hi = a, b
                for _ in range(26):
                    mid = (lo + hi) / 2
                    vm = g(mid)
                    if abs(abs(vm) - 1) > 1e-12:
                        return ck.bad("two-point-law", where, f"{tag}: stream value {mid} gives {vm}")
                    if vm == va:
                        lo = mid
                    else:
                        hi = mid
                plus += (lo - a) * (va > 0) + (b - lo) * (vb > 0)
        ck.require("two-point-law", where, abs(plus - 0.5) < 1e-6, f"{tag}: P(+1) = {plus:.6g}")
    except witness.Reject as e:
        ck.undecided("two-point-law", where, f"{tag}: {e}")


def c09_bad(ck):
    for bad in ("uniform", "", "cauchy", "rademacher ", None):
        for how in ("size", "curried", "out"):
            I = ck.interp()
            f = ck.public(I, "random", "isotropic")
            n, m = isym("n"), isym("m")

            def go():
                kw = {"pdf": bad, "seed": urng()}
                if how == "out":
                    kw["out"] = arr(I, "out", (n, m))[0]
                r = I.call(f, [(N(n), N(m))] if how == "size" else [], kw)
                return I.call(r, [(N(n), N(m))], {}) if how == "curried" else r
            _, ex = I.run(go)
            rejected(ck, "unknown-rejected", ISO, ex, f"pdf={bad!r}, {how}")
    for bad in ("uniform", ""):
        I = ck.interp()
        c = ck.public(I, "random", "Isotropic")
        n, m = isym("n"), isym("m")
        _, ex = I.run(lambda: I.call(c, [(N(n), N(m))], {"pdf": bad, "seed": N(1), "threads": N(1)}))
        rejected(ck, "unknown-rejected", "primate.random.Isotropic", ex, f"pdf={bad!r}")


def c09_default(ck):
    I = ck.interp()
    f = ck.public(I, "random", "isotropic")
    n, m = isym("n"), isym("m")
    r, ex = I.run(lambda: I.call(f, [(N(n), N(m))], {"seed": urng()}))
    check_form(ck, I, "rademacher", r, draws(I), "default pdf", ISO)


def c09_class(ck, pdf):
    where = "primate.random.Isotropic.fill"
    I = ck.interp()
    c = ck.public(I, "random", "Isotropic")
    n, m = isym("n"), isym("m")

    def go():
        o = I.call(c, [(N(n), N(m))], {"pdf": pdf, "seed": urng(), "threads": N(1)})
        mark = len(I.events)
        method(I, o, "fill")
        return o, mark
    r, ex = I.run(go)
    ck.no_raise("accepted", where, ex, f"pdf={pdf}, one thread")
    if r is MISSING:
        return ck.bad("accepted", where, pdf)
    o, mark = r
    v = I.getattr(o, "values")
    ck.eq("shape", where, v.dims[0], n)
    ck.eq("shape", where, v.dims[1], m)
    check_form(ck, I, pdf, v, draws(I, mark), f"pdf={pdf}, buffer filled by one thread", where)


# -------------------------------------------------------------------------------------------------------------------- C11
FILL = "primate.random.Isotropic.fill"


@prop("C11", "The filling routine is analysed for a symbolic shape and thread count (and for one to four threads): every write a submitted "
      "task performs is a view of the buffer whose first and last columns are closed forms in the task index; the views must tile the "
      "columns, start at zero, end at the last column, and never overlap; generators of different tasks must be different children of "
      "the seed's generator; the returned futures must all be waited for, without time-out, before the routine returns.")
def c11(ck):
    for T in (None, 1, 2, 3, 4):
        for pdf in ("rademacher", "normal", "sphere"):
            ck.attempt("partition", FILL, lambda: c11_case(ck, T, pdf))


def key_index(gen):
    """(parent key, child index) of a spawned generator."""
    k = gen.key
    if isinstance(k, tuple) and k and k[0] == "spawn":
        return k[1], k[2]
    return k, None


def c11_case(ck, T, pdf):
    I = ck.interp()
    c = ck.public(I, "random", "Isotropic")
    n, m = isym("n"), isym("m")
    Ts = isym("T", 1) if T is None else P(T)
    tag = f"{'any number of' if T is None else T} threads, {pdf}"
    seed = isym("seed", 0)

    def go():
        o = I.call(c, [(N(n), N(m))], {"pdf": pdf, "seed": N(seed), "threads": N(Ts)})
        mark = len(I.events)
        v = I.getattr(o, "values")
        if isinstance(v, ARef):
            I.regions_only.add(v.buf)
        method(I, o, "fill")
        return o, mark
    r, ex = I.run(go)
    ck.no_raise("accepted", FILL, ex, tag)
    if r is MISSING:
        return ck.bad("accepted", FILL, tag)
    o, mark = r
    buf = I.heap[o.id].fields.get("values")
    if not isinstance(buf, ARef):
        return ck.undecided("partition", FILL, f"{tag}: buffer {buf!r}")
    evs = I.events[mark:]
    # ---- tasks
    tasks, cur = [], None
    for e in evs:
        if e.kind == "submit":
            cur = {"ev": e, "stores": [], "draws": [], "shared": []}
            tasks.append(cur)
        elif e.kind == "submitted":
            cur = None
        elif e.kind == "store":
            (cur["stores"] if cur is not None else tasks_inline(tasks)).append(e)
        elif e.kind == "draw":
            (cur["draws"] if cur is not None else []).append(e)
        elif e.kind in ("setattr", "list-append", "list-extend") and cur is not None:
            cur["shared"].append(e)
        elif e.kind == "unknown-call":
            return ck.undecided("partition", FILL, f"{tag}: unmodelled call {e.fn}")
    writes = []  # (guard, loop, lo, width, gen)
    inline = [e for e in evs if e.kind == "store" and not any(e in t["stores"] for t in tasks)]
    for t in tasks + ([{"ev": None, "stores": inline, "draws": [e for e in evs if e.kind == "draw" and not any(e in t["draws"] for t in tasks)], "shared": []}] if inline else []):
        regions = {}
        for e in t["stores"]:
            v = e.view
            if v.buf != buf.buf:
                continue
            if len(v.dims) != 2 or len(v.bidx) != 2:
                return ck.undecided("partition", FILL, f"{tag}: write of rank {len(v.dims)}")
            a, b = v.ivs
            z = {aid_of(a): ZERO, aid_of(b): ZERO}
            lo = subst(v.bidx[1], z)
            row0 = subst(v.bidx[0], z)
            if v.bidx[1] - lo != b or v.bidx[0] - row0 != a:
                return ck.undecided("partition", FILL, f"{tag}: strided write")
            key = (lo, v.dims[1])
            if key not in regions:
                ck.eq("whole-columns", FILL, row0, ZERO, detail=tag)
                ck.eq("whole-columns", FILL, v.dims[0], n, detail=tag)
                regions[key] = e
        if len(regions) > 1:
            return ck.undecided("partition", FILL, f"{tag}: one task writes {len(regions)} regions")
        for (lo, w), e in regions.items():
            writes.append((e.guard, e.loops, lo, w))
        ck.require("no-shared-state", FILL, not t["shared"], f"{tag}: a task modifies shared state {[x.kind for x in t['shared']][:2]}")
    if not writes:
        return ck.undecided("partition", FILL, f"{tag}: no write of the buffer was found")
    # ---- partition of the columns
    if all(not w[1] for w in writes):
        c_ = fresh_index(m)
        tot = ZERO
        for g, _l, lo, w in writes:
            tot = tot + g * ge(c_ - lo) * gt(lo + w - c_)
        ck.eq("partition", FILL, tot, ONE, detail=f"{tag}: number of tasks writing a column")
    elif len(writes) == 1 and len(writes[0][1]) == 1:
        g, loops, lo, w = writes[0]
        j, NT = loops[0][0], loops[0][1]
        jp = poly.sym_poly(j) if isinstance(j, int) else P(j)
        ja = aid_of(jp)
        at = lambda p, k: subst(p, {ja: P(k)})
        partition(ck, tag, lo, w, jp, NT, m)
    else:
        return ck.undecided("partition", FILL, f"{tag}: {len(writes)} kinds of writes in loops")
    # ---- generators
    for t in tasks:
        loops = t["ev"].loops
        for e in t["draws"]:
            parent, idx = key_index(e.gen)
            ck.require("seeded", FILL, root(e.gen) == ("seed", npm.akey(I, N(seed))), f"{tag}: a task draws from {e.gen}")
            if loops:
                j = loops[0][0]
                jp = poly.sym_poly(j) if isinstance(j, int) else P(j)
                several = gt(loops[0][1] - 1)
                if idx is None or aid_of(jp) not in idx.free():
                    ck.never("distinct-generators", FILL, e.guard * several, detail=f"{tag}: several tasks draw from {e.gen}")
                else:
                    k = fresh_index(loops[0][1])
                    d = subst(idx, {aid_of(jp): k}) - idx
                    ck.never("distinct-generators", FILL, e.guard * eq(d) * (ONE - eq(k - jp)) * several, detail=f"{tag}: two tasks draw from child {idx}")
    if all(not t["ev"].loops for t in tasks):
        gens = {}
        for a in range(len(tasks)):
            for b in range(a + 1, len(tasks)):
                for x in tasks[a]["draws"]:
                    for y in tasks[b]["draws"]:
                        same = x.gen.key == y.gen.key
                        ck.require("distinct-generators", FILL, not same, f"{tag}: tasks {a} and {b} draw from {x.gen}")
    # ---- completion
    if tasks:
        last = max(t["ev"].seq for t in tasks)
        waits = [e for e in evs if e.seq > last and ((e.kind == "wait" and getattr_d(e, "timeout") is None and getattr_d(e, "return_when") in (None, "ALL_COMPLETED")) or (e.kind == "shutdown" and e.wait in (True, None)))]
        bad = [e for e in evs if e.kind == "wait" and e not in waits]
        ck.require("all-finished", FILL, bool(waits), f"{tag}: the routine returns without waiting for its tasks" + (f" (wait with timeout={getattr_d(bad[0], 'timeout')}, return_when={getattr_d(bad[0], 'return_when')})" if bad else ""))
        if waits and all(e.kind == "wait" for e in waits):
            full = ZERO
            for e in waits:
                if e.loops:
                    # one wait per future inside a loop over all of them
                    full = ONE
                    continue
                n_w = P_of(I.call(npm.BUILTINS["len"], [e.futures], {})) if not isinstance(e.futures, Model) else None
                if n_w is None:
                    full = ONE
                else:
                    ck.eq("all-finished", FILL, n_w, sum((t["ev"].loops[0][1] if t["ev"].loops else ONE for t in tasks), ZERO), detail=f"{tag}: futures waited for")


def tasks_inline(tasks):
    return []


def getattr_d(e, k):
    v = e.d.get(k)
    if isinstance(v, ModV):
        return v.name.split(".")[-1]
    return v


def root(gen):
    k = gen.key
    while isinstance(k, tuple) and k and k[0] == "spawn":
        k = k[1]
    return k


def partition(ck, tag, lo, w, jp, NT, m):
    """The intervals [lo(j), lo(j) + w(j)) of 0 <= j < NT tile [0, m)."""
    ja = aid_of(jp)
    at = lambda p, k: subst(p, {ja: P(k)})
    # evaluation over every shape and thread count in a box, for each column
    bad = None
    cases = 0
    names = {ATOMS[x].args[0] for x in (lo.free() | w.free() | m.free() | P(NT).free()) if ATOMS[x].kind == "sym"}
    jn = ATOMS[ja].args[0]
    mn = ATOMS[aid_of(m)].args[0]
    tn = [x for x in names if x not in (jn, mn)]
    top = 40 if ck.tier == "thorough" else 17
    for mv in list(range(1, top)) + [100, 101, 128]:
        for tv in list(range(1, 13)) + [16, 64]:
            cover = [0] * mv
            try:
                fixed = {mn: float(mv), **{x: float(tv) for x in tn}}
                w0 = witness.World(1, fixed)
                nt = w0.intval(w0.poly(P(NT), {}))
                for k in range(nt):
                    ww = witness.World(1, {**fixed, jn: float(k)})
                    l = ww.intval(ww.poly(lo, {}))
                    width = ww.intval(ww.poly(w, {}))
                    for c in range(l, l + width):
                        if 0 <= c < mv:
                            cover[c] += 1
            except witness.Reject as e:
                return ck.undecided("partition", FILL, f"{tag}: {e}")
            cases += 1
            if any(x != 1 for x in cover):
                c = next(k for k, x in enumerate(cover) if x != 1)
                return ck.bad("partition", FILL, f"{tag}: column {c} of {mv} is written by {cover[c]} of {tv} tasks")
    # symbolic tiling
    two = [P(NT) - 2]
    st = []
    try:
        for name, d, facts in (("first task starts at column 0", at(lo, 0), []),
                               ("a task starts where its predecessor ended", at(lo, jp + 1) - lo - w, [P(NT) - jp - 2, jp]),
                               ("last task ends at the last column", at(lo, P(NT) - 1) + at(w, P(NT) - 1) - m, [])):
            ok, _ = with_facts(facts, lambda: poly.budget(5, lambda: poly.decide_zero(d)))
            st.append(bool(ok))
    except (TooBig_, ZeroDivisionError):
        st.append(False)
    ck.ob("partition", FILL, "ok" if all(st) else "ok-eval", f"{tag}: {cases} shapes and thread counts tile the columns" + ("; tiling proved for all" if all(st) else ""))


TooBig_ = poly.TooBig


# -------------------------------------------------------------------------------------------------------------------- C12
@prop("C12", "The generators are analysed with a symbolic size and spectrum: the returned matrix must be, entrywise, the product of an "
      "orthogonal factor (of a QR decomposition or a Haar draw), the diagonal of the prescribed values, and the transpose of that factor; "
      "symmetry and the bound under positive definiteness are separate obligations, as are the laws of the default spectrum.")
def c12(ck):
    for dist in ("normal", "uniform", None):
        for pd in (False, True, None):
            for how in ("ew", "list", "default"):
                ck.attempt("prescribed-spectrum", "primate.random.symmetric", lambda: c12_case(ck, "symmetric", dist, pd, how))
    for how in ("ew", "list", "default"):
        ck.attempt("prescribed-spectrum", "primate.random.haar", lambda: c12_case(ck, "haar", None, None, how))
    ck.attempt("distribution-rejected", "primate.random.symmetric", lambda: c12_bad(ck))


def c12_case(ck, fn, dist, pd, how):
    where = f"primate.random.{fn}"
    I = ck.interp()
    f = ck.public(I, "random", fn)
    n = isym("n", 2) if how != "list" else P(3)
    kw = {"seed": urng()}
    if dist is not None:
        kw["dist"] = dist
    if pd is not None:
        kw["pd"] = pd
    tag = f"dist={dist or 'default'}, pd={pd}, spectrum {how}"
    lam = None
    if how == "ew":
        kw["ew"], lam = arr(I, "ew", (n,))
    elif how == "list":
        vs = [fsym(f"ew{k}") for k in range(3)]
        kw["ew"] = I.mklist([F(v) for v in vs])
        lam = lambda k: sum((eq(k - i) * v for i, v in enumerate(vs)), ZERO)
    r, ex = I.run(lambda: I.call(f, [N(n)], kw))
    ck.no_raise("accepted", where, ex, tag)
    if r is MISSING:
        return ck.bad("accepted", where, tag)
    drs = draws(I)
    r = merge(I, r)
    if not isinstance(r, ARef) or len(r.dims) != 2:
        return ck.undecided("prescribed-spectrum", where, f"{tag}: {r!r}")
    ck.eq("shape", where, r.dims[0], n, detail=tag)
    ck.eq("shape", where, r.dims[1], n, detail=tag)
    i, j = fresh_index(n), fresh_index(n)
    A = lambda a, b: npm.elem(I, r, [a, b])
    ck.zero("symmetric", where, A(i, j) - A(j, i), detail=tag)
    body = A(i, j)
    if witness.tainted(body):
        return ck.undecided("prescribed-spectrum", where, f"{tag}: {sorted(witness.tainted(body))[:3]}")
    # the orthogonal factor
    orth = ortho_tensors(body)
    if len(orth) != 1:
        return ck.undecided("prescribed-spectrum", where, f"{tag}: orthogonal factors {orth}")
    q = orth[0]
    clip = bool(pd)
    if lam is None:
        used = {x.name: x for x in drs if x.law in ("U01",) and x.name in tensors_of(body) and len(x.dims) == 1}
        if not used and not {x.name for x in drs if x.law != "haar"} & tensors_of(body):
            return ck.bad("default-spectrum", where, f"{tag}: the eigenvalues are not drawn, A = {body!r}"[:300])
        if len(used) != 1:
            return ck.undecided("default-spectrum", where, f"{tag}: drawn from {[(x.law, len(x.dims)) for x in drs]}")
        u = next(iter(used))
        low = ZERO if pd else P(-1)
        if fn == "haar":
            low = P(-1)
        lam = lambda k: low + (ONE - low) * el(u, (P(k),))
    if clip:
        eps = P_of(user(I, "import numpy as np\nr = np.finfo(np.float64).eps")["r"])
        lam0 = lam
        lam = lambda k: pmax(lam0(k), eps)
        # any tiny positive bound is acceptable: try the bound the code uses
        bounds = clip_bounds(body)
        if bounds and eps not in bounds and all(b.is_const() and 0 < b.cval() < Fr(1, 10 ** 6) for b in bounds):
            lam = lambda k: pmax(lam0(k), bounds[0])
    want = S(lambda k: el(q, (i, k)) * lam(k) * el(q, (j, k)), n)
    ck.zero("prescribed-spectrum" if how != "default" else "default-spectrum", where, body - want, detail=f"{tag}: Q diag(ew) Q'")


def tensors_of(p):
    out, todo, seen = set(), [p], set()

    def visit(x):
        if isinstance(x, Poly):
            todo.append(x)
        elif isinstance(x, tuple):
            for y in x:
                visit(y)
    while todo:
        q = todo.pop()
        for (fs, bs) in q.t:
            for a, _e in fs:
                if a in seen:
                    continue
                seen.add(a)
                at = ATOMS[a]
                if at.kind == "el":
                    out.add(at.args[0])
                if at.kind != "sym":
                    visit(at.args)
            for _b, hi in bs:
                visit(hi)
    return out


def ortho_tensors(p):
    return sorted(x for x in tensors_of(p) if x in TENSORS and TENSORS[x].ortho)


def clip_bounds(p):
    """Constants a value is compared with."""
    out, todo, seen = [], [p], set()
    while todo:
        q = todo.pop()
        for (fs, bs) in q.t:
            for a, _e in fs:
                if a in seen:
                    continue
                seen.add(a)
                at = ATOMS[a]
                if at.kind == "gt":
                    c = at.args[0].t.get(((), ()))
                    lead = [k for (f2, b2), k in at.args[0].t.items() if f2 and not b2]
                    if c is not None and len(lead) == 1:
                        b = P(-Fr(c) / Fr(lead[0]))
                        if b not in out:
                            out.append(b)
    return out


def c12_bad(ck):
    for bad in ("gaussian", "", "cauchy"):
        I = ck.interp()
        f = ck.public(I, "random", "symmetric")
        _, ex = I.run(lambda: I.call(f, [N(isym("n", 2))], {"dist": bad, "seed": urng()}))
        rejected(ck, "distribution-rejected", "primate.random.symmetric", ex, f"dist={bad!r}")
    I = ck.interp()
    f = ck.public(I, "random", "haar")
    n, k = isym("n", 2), isym("k", 1)
    w, _ = arr(I, "ew", (k,))
    with_facts([n - k - 1], lambda: (lambda r: rejected(ck, "spectrum-length-rejected", "primate.random.haar", r[1], "a spectrum shorter than n", [n - k - 1]))(I.run(lambda: I.call(f, [N(n)], {"ew": w, "seed": urng()}))))


# -------------------------------------------------------------------------------------------------------------------- C10
def rng_root(g):
    while g.parent is not None and isinstance(g.parent, Rng):
        g = g.parent
    return g


def c10_cases():
    for pdf in ("rademacher", "sphere", "normal"):
        for how in ("size", "curried", "out"):
            yield "primate.random.isotropic", f"pdf={pdf}, {how}", ("iso", pdf, how)
        for T in (None, 1, 3):
            yield "primate.random.Isotropic", f"pdf={pdf}, threads={T or 'any'}", ("buffer", pdf, T)
    for dist in ("normal", "uniform"):
        for pd in (False, True):
            yield "primate.random.symmetric", f"dist={dist}, pd={pd}", ("call", "random", "symmetric", {"dist": dist, "pd": pd})
    yield "primate.random.haar", "default", ("call", "random", "haar", {})
    for op in ("array", "operator", "quad"):
        for full in (False, True):
            for conv in ("default", "count", "user"):
                yield "primate.trace.hutch", f"{op}, full={full}, converge={conv}", ("est", "trace", "hutch", op, conv, {"full": full})
        for pdf in ("sphere", "normal"):
            yield "primate.trace.hutch", f"{op}, pdf={pdf}", ("est", "trace", "hutch", op, "count", {"pdf": pdf})
        for mode in ("reduced", "full"):
            for full in (False, True):
                yield "primate.trace.hutchpp", f"{op}, mode={mode}, full={full}", ("est", "trace", "hutchpp", op, None, {"mode": mode, "full": full})
        for full in (False, True):
            yield "primate.diagonal.diag", f"{op}, full={full}", ("est", "diagonal", "diag", op, "user", {"full": full})
        for pdf in ("sphere", "rademacher"):
            yield "primate.trace.xtrace", f"{op}, pdf={pdf}", ("est", "trace", "xtrace", op, "default", {"pdf": pdf, "batch": 2})
        yield "primate.lanczos.lanczos", f"{op}", ("call", "lanczos", "lanczos", op)
        yield "primate.lanczos.rayleigh_ritz", f"{op}", ("call", "lanczos", "rayleigh_ritz", op)
    yield "primate.diagonal.xdiag", "array", ("est", "diagonal", "xdiag", "array", None, {})


@prop("C10", "Every public sampler, generator, estimator and Lanczos driver is analysed with a given integer seed and with a given generator. "
      "Provenance is propagated through every generator object: each draw must come from the caller's generator, from the one generator built "
      "from the caller's seed, or from children spawned from it; draws from an operating-system seeded or process-wide generator, from two "
      "generators built separately from the same seed, or from a generator built inside the sampling loop are reported, and no clock, "
      "process-identity or address dependent value may occur in a result.")
def c10(ck):
    for where, tag, case in c10_cases():
        for sd in ("integer seed", "generator"):
            ck.attempt("seeded", where, lambda: c10_case(ck, where, f"{tag}, {sd}", case, sd))


def c10_case(ck, where, tag, case, sd):
    I = ck.interp()
    s = isym("seed", 0)
    seed = N(s) if sd == "integer seed" else urng()
    roots = {("user",)} if sd == "generator" else {("seed", npm.akey(I, N(s)))}
    n, m = isym("n", 6), isym("m")

    def go():
        k = case[0]
        if k == "iso":
            f = ck.public(I, "random", "isotropic")
            kw = {"pdf": case[1], "seed": seed}
            if case[2] == "out":
                o, _ = arr(I, "out", (n, m))
                I.call(f, [], {**kw, "out": o})
                return o
            if case[2] == "size":
                return I.call(f, [(N(n), N(m))], kw)
            g = I.call(f, [], kw)
            return (I.call(g, [(N(n), N(m))], {}), I.call(g, [(N(n), N(m))], {}))
        if k == "buffer":
            c = ck.public(I, "random", "Isotropic")
            o = I.call(c, [(N(n), N(m))], {"pdf": case[1], "seed": seed, "threads": N(isym("T", 1) if case[2] is None else case[2])})
            v = I.getattr(o, "values")
            if isinstance(v, ARef):
                I.regions_only.add(v.buf)
            method(I, o, "fill")
            return v
        if k == "call":
            f = ck.public(I, case[1], case[2])
            if isinstance(case[3], dict):
                return I.call(f, [N(n)], {**case[3], "seed": seed})
            return I.call(f, [operator(I, case[3], n)], {"seed": seed, "deg": N(isym("deg", 3))})
        _, mod, fn, op, conv, kw = case
        f = ck.public(I, mod, fn)
        kw = dict(kw)
        if conv == "user":
            kw["converge"] = criterion(I)[0]
        elif conv == "count":
            kw["converge"], kw["count"] = "count", N(isym("count", 1))
        if fn == "xtrace":
            I.while_mode, I.let_at = ("unroll", 1), 3
        return I.call(f, [operator(I, op, n)], {**kw, "seed": seed})
    r, ex = I.run(go)
    if r is MISSING:
        return ck.undecided("seeded", where, f"{tag}: no result")
    drs = draws(I)
    news = {e.gen.uid: e for e in I.events if e.kind == "rng-new"}
    if not drs:
        return ck.undecided("seeded", where, f"{tag}: no draw was seen")
    for e in drs:
        rt = root(e.gen)
        if isinstance(rt, tuple) and rt and rt[0] in ("entropy", "global") or rt in roots:
            ck.zero("seeded", where, ZERO if rt in roots else e.guard, detail=f"{tag}: a {e.law} draw at {e.pos[0]}:{e.pos[1]} comes from {'the process-wide generator' if rt[0] == 'global' else 'an unseeded generator'}")
        elif rt[0] == "seed":
            ck.bad("seeded", where, f"{tag}: a {e.law} draw at {e.pos[0]}:{e.pos[1]} comes from a generator seeded otherwise ({rt})")
        else:
            ck.undecided("seeded", where, f"{tag}: draw from {rt}")
        w = news.get(rng_root(e.gen).uid)
        if w is not None and w.loops and e.loops and w.loops[0][0] == e.loops[0][0]:
            ck.bad("re-seeded", where, f"{tag}: the generator drawn from at {e.pos[0]}:{e.pos[1]} is built inside the sampling loop")
    by = {}
    for e in drs:
        by.setdefault(root(e.gen), set()).add(rng_root(e.gen).uid)
    for k, v in by.items():
        if isinstance(k, tuple) and k[0] == "seed":
            ck.require("re-seeded", where, len(v) == 1, f"{tag}: {len(v)} generators built separately from the same seed are drawn from")
    seen = [e for e in I.events if e.kind == "global-draw" and e.fn == "seed"]
    ck.require("process-wide-state", where, not seen, f"{tag}: re-seeds the process-wide generator")
    bad = sorted({x for p in polys(I, r) for x in syms_in(p) if x.split("~")[0] in AMBIENT})
    ck.require("ambient", where, not bad, f"{tag}: the result depends on {bad}")


AMBIENT = {"time.time", "time.perf_counter", "time.time_ns", "os.getpid", "os.urandom", "time.monotonic", "id", "hash"}


def polys(I, v, depth=0, seen=None):
    """Every normal form reachable from a value."""
    seen = set() if seen is None else seen
    p = P_of(v)
    if p is not None:
        return [p]
    if isinstance(v, ARef):
        return [I.heap[v.buf].body] + list(v.dims)
    if isinstance(v, tuple):
        return [p for x in v for p in polys(I, x, depth, seen)]
    if isinstance(v, PhiV):
        return [v.c] + polys(I, v.a, depth, seen) + polys(I, v.b, depth, seen)
    if isinstance(v, ORef) and v.id not in seen and depth < 6:
        seen.add(v.id)
        return [p for x in I.heap[v.id].fields.values() for p in polys(I, x, depth + 1, seen)]
    return []


def syms_in(p):
    out, todo, seen = set(), [p], set()

    def visit(x):
        if isinstance(x, Poly):
            todo.append(x)
        elif isinstance(x, tuple):
            for y in x:
                visit(y)
    while todo:
        q = todo.pop()
        for (fs, bs) in q.t:
            for a, _e in fs:
                if a in seen:
                    continue
                seen.add(a)
                at = ATOMS[a]
                if at.kind == "sym":
                    out.add(at.args[0])
                else:
                    visit(at.args)
            for _b, hi in bs:
                visit(hi)
    return out
