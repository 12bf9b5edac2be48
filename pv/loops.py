"""Summaries of loops over symbolic ranges.

The body is analysed from an arbitrary iteration: everything it modifies is first replaced by unknown functions of the
iteration counter, then recognised recurrences (accumulation, element stores, appends, last-value) are replaced by their
closed forms and the body is analysed again, until nothing changes.
"""
from . import poly
from .poly import Fr
from .poly import (P, Poly, sym, subst, fresh_index, fresh_name, aid_of, gt, ge, eq, phi, ATOMS, SYMS, FACTS, el, tensor,
                   TENSORS, sum_over, prove_ge0, linear_in, TooBig, atoms_of, opaque_bool, cofactor, is_zero)
from .values import *


def mentions(p, names):
    return any(ATOMS[a].kind == "el" and ATOMS[a].args[0] in names for a in poly.atoms_deep(p))


def linear_part(p, x):
    """(A, B) with p = A*x + B and x, an atom, in neither; None otherwise."""
    a = {}
    b = {}
    for (fs, bs), c in p.t.items():
        if bs and any(x in poly.atoms_deep(Poly({(fs, bs): c})) for _ in (0,)):
            return None
        rest = tuple(f for f in fs if f[0] != x)
        if len(rest) == len(fs):
            b[(fs, bs)] = c
        elif (x, 1) in fs or any(f[0] == x and f[1] == 1 for f in fs):
            a[(rest, bs)] = a.get((rest, bs), 0) + c
        else:
            return None
    return Poly(a), Poly(b)


def subst_cells(I, heap, m, only=None):
    out = dict(heap)
    for k, c in heap.items():
        if only is not None and k not in only:
            continue
        if isinstance(c, Buf):
            out[k] = Buf([subst(d, m) for d in c.dims], c.ivs, subst(c.body, m), c.dtype, c.order, c.note)
    return out


def clone_value(I, v, m, memo):
    """Copies a value with symbols substituted; buffers and objects it reaches are cloned (sharing preserved by memo)."""
    if isinstance(v, Sc):
        return sc(subst(v.p, m), v.ty)
    if isinstance(v, tuple):
        return tuple(clone_value(I, x, m, memo) for x in v)
    if isinstance(v, ARef):
        if not (set().union(*[d.free() for d in v.dims], *[b.free() for b in v.bidx], I.heap[v.buf].body.free(), *[d.free() for d in I.heap[v.buf].dims]) & m.keys()):
            return v
        nb = memo.get(("b", v.buf))
        if nb is None:
            c = I.heap[v.buf]
            I.nid += 1
            nb = memo[("b", v.buf)] = I.nid
            I.heap[nb] = Buf([subst(d, m) for d in c.dims], c.ivs, subst(c.body, m), c.dtype, c.order, c.note)
        return ARef(nb, [subst(d, m) for d in v.dims], v.ivs, [subst(b, m) for b in v.bidx])
    if isinstance(v, PhiV):
        return I.join_val(subst(v.c, m), clone_value(I, v.a, m, memo), clone_value(I, v.b, m, memo))
    if isinstance(v, ORef):
        n = memo.get(("o", v.id))
        if n is not None:
            return n
        c = I.heap[v.id]
        memo[("o", v.id)] = v
        f = {k: clone_value(I, x, m, memo) for k, x in c.fields.items()}
        if all(veq(f[k], c.fields[k]) for k in f):
            return v
        n = I.new(ObjC(c.cls, f))
        memo[("o", v.id)] = n
        return n
    return v


class Head:
    """What a modified location holds at the head of iteration j."""

    def __init__(self, kind, at, names=()):
        self.kind, self.at, self.names = kind, at, set(names)  # at(j) -> value / Buf / segs


def generic_loop(I, node, N, setup, test, body):
    rec = I._rec(node)
    entry = I.take()
    guard0 = I.guard
    rec.guard0 = I.full_guard()
    whileloop = N is None
    if whileloop:
        N = sym(fresh_name("iters"), integer=True, lo=0)
    j = fresh_index(N, "j")
    rec.N, rec.j = N, j
    heads = {}
    ev_mark, ex_mark = len(I.events), len(I.frame.exits)
    rec_mark = len(I.loop_records)
    unsolvable = set()
    path = I.loop_path(node)
    for it in range(20):
        I.put(entry)
        I.guard = guard0
        install(I, heads, j)
        I.loops.append((j, N, rec))
        I.passes.append((path, {}))
        rec.head = I.take()
        try:
            c = None
            dead_test = False
            if test is not None:
                c = I.norm(I.truth(I.ev(test)))
                rec.cond = c
                I.guard = I._gmul(I.guard, c) if not c.is_const() else I.guard
                I.assume_true(c)
                rec.head = I.take()
            if setup is not None:
                setup(j)
            live, breaks = I.exec_body(body)
        finally:
            I.loops.pop()
            I.passes.pop()
        post = I.take() if live else None
        head = rec.head
        if post is None:
            changed = {}
        else:
            changed = diff(I, head, post)
        new = [l for l in changed if l not in heads]
        if new:
            for l in new:
                h = havoc(I, l, entry, head, post, j)
                heads[l] = h
            del I.events[ev_mark:]
            del I.frame.exits[ex_mark:]
            del I.loop_records[rec_mark:]
            continue
        allnames = set().union(*[h.names for h in heads.values()]) if heads else set()
        progress = False
        for l, h in list(heads.items()):
            if h.kind == "dict" and l in changed:
                more = dict_changed(entry.heap[l[1]], post.heap[l[1]]) - h.changed
                if more:
                    h.changed = h.changed | more
                    progress = True
            if h.kind != "havoc" or l in unsolvable:
                continue
            if l not in changed:
                # modified only in an earlier approximation
                cf = Head("closed", const_entry(I, l, entry))
            else:
                cf = closed(I, l, entry, head, post, j, allnames, h)
            if cf is not None:
                heads[l] = cf
                progress = True
        if progress:
            del I.events[ev_mark:]
            del I.frame.exits[ex_mark:]
            del I.loop_records[rec_mark:]
            continue
        break
    if whileloop and not breaks and post is not None:
        count = trip_count(rec.cond, j)
        if count is not None:
            I.put(entry)
            I.guard = guard0
            del I.events[ev_mark:]
            del I.frame.exits[ex_mark:]
            del I.loop_records[rec_mark - 1:]
            return generic_loop(I, node, count, None, None, body)
    rec.post, rec.heads = post, heads
    rec.events = I.events[ev_mark:]
    rec.breaks = breaks
    rec.names = {n: l for l, h in heads.items() for n in h.names}
    # exit state: heads at j = N
    exit_entry = entry
    I.put(entry)
    I.guard = guard0
    if post is not None:
        install_exit(I, heads, j, N, entry, post)
    I.put_breaks = breaks
    if test is not None:
        I.in_exit_test = True
        try:
            c2 = I.norm(I.truth(I.ev(test)))
        finally:
            I.in_exit_test = False
        rec.exit_cond = c2
        I.assume_true(poly.Poly.const(1) - c2)
    rec.exit = I.take()
    # leaving early from an iteration nobody knows: the state there is kept, at an unknown iteration, behind an unknown condition
    m = None
    out = []
    for g, st in breaks:
        if m is None:
            m = {aid_of(j): sym(fresh_name("unknown_iteration"), integer=True, lo=0)}
        b = opaque_bool("unk", fresh_name("left early"))
        out.append((I._gmul(I.guard, b), subst_state(st, m)))
        I.guard = I._gmul(I.guard, ONE_ - b)
    for k in range(ex_mark, len(I.frame.exits)):
        e = I.frame.exits[k]
        if e.kind == "return":
            rec.returns.append((e.guard, e.state))
            if m is None:
                m = {aid_of(j): sym(fresh_name("unknown_iteration"), integer=True, lo=0)}
            b = opaque_bool("unk", fresh_name("returned early"))
            I.frame.exits[k] = Exit("return", I._gmul(I.guard, b), subst_val(e.value, m), subst_state(e.state, m), e.pos)
            I.guard = I._gmul(I.guard, ONE_ - b)
    return out


ONE_ = Poly.const(1)


def subst_val(v, m):
    if isinstance(v, Sc):
        return sc(subst(v.p, m), v.ty)
    if isinstance(v, tuple):
        return tuple(subst_val(x, m) for x in v)
    if isinstance(v, ARef):
        return ARef(v.buf, [subst(d, m) for d in v.dims], v.ivs, [subst(b, m) for b in v.bidx])
    if isinstance(v, PhiV):
        return PhiV(subst(v.c, m), subst_val(v.a, m), subst_val(v.b, m))
    return v


def subst_state(st, m):
    heap = {}
    for k, c in st.heap.items():
        if isinstance(c, Buf):
            c = Buf([subst(d, m) for d in c.dims], c.ivs, subst(c.body, m), c.dtype, c.order, c.note)
        elif isinstance(c, ObjC):
            c = ObjC(c.cls, {f: subst_val(v, m) for f, v in c.fields.items()})
        heap[k] = c
    return type(st)(heap, {n: subst_val(v, m) for n, v in st.env.items()}, st.facts, st.assume, st.truths)


def trip_count(c, j):
    """Number of iterations of a counting loop whose test is c(j), or None."""
    ja = aid_of(j)
    if len(c.t) == 1:
        strict, q = True, c
    else:
        strict, q = False, ONE_ - c
    if len(q.t) != 1:
        return None
    ((fs, bs), k), = q.t.items()
    if k != 1 or bs or len(fs) != 1 or fs[0][1] != 1 or ATOMS[fs[0][0]].kind != "gt":
        return None
    x = ATOMS[fs[0][0]].args[0]
    if not strict:
        x = 1 - x  # not (x > 0)  for integers
        # continues while 1 - x > 0
    if not poly.is_integer(x):
        return None
    lin = linear_in(x, ja)
    if lin is None:
        return None
    a = lin[0].cval() if isinstance(lin[0], Poly) and lin[0].is_const() else (Fr(lin[0]) if not isinstance(lin[0], Poly) else None)
    if a is None or a >= 0 or ja in lin[1].free() or witness_tainted(lin[1]):
        return None
    r = lin[1]
    n = r if a == -1 else poly.fun("ceil", r.scale(Fr(1) / -a))
    return poly.pmax(n, Poly.const(0))


def witness_tainted(p):
    from .witness import tainted
    return tainted(p)


def dict_changed(a, b):
    return {k for k, v in a.items.items() if not (k in b.items and veq(v, b.items[k]))}


def dict_exit(I, h, entry, post, N):
    """A mapping filled by the loop: one new distinct key per iteration, or unknown further keys."""
    e, b = entry, post
    new = [k for k in b.items if k not in e.items]
    base = h.at(N)
    if len(new) == 1 and isinstance(b.items[new[0]], (Sc, int, float, tuple, ORef, ARef, Model, Unk, type(None))) and not h.changed:
        key = new[0]
        if isinstance(key, Model) and getattr(key, "fresh_in_loop", None) == len(I.loops) + 1:
            return DictC(base.items, e.kind, e.extra + (("sym", N, lambda j: key),))
    return base


def const_entry(I, loc, entry):
    kind = loc[0]
    if kind == "env":
        v = entry.env.get(loc[1], MISSING)
    elif kind == "field":
        v = entry.heap[loc[1]].fields.get(loc[2], MISSING)
    else:
        v = entry.heap[loc[1]]
    return lambda j: v


def install(I, heads, j):
    for loc, h in heads.items():
        put_loc(I, loc, h.at(j))


def put_loc(I, loc, v):
    if loc[0] == "env":
        if v is MISSING:
            I.frame.env.pop(loc[1], None)
        else:
            I.frame.env[loc[1]] = v
    elif loc[0] == "field":
        c = I.heap[loc[1]]
        f = dict(c.fields)
        f[loc[2]] = v
        I.heap[loc[1]] = ObjC(c.cls, f)
    else:
        I.heap[loc[1]] = v


def get_loc(st, loc):
    if loc[0] == "env":
        return st.env.get(loc[1], MISSING)
    if loc[0] == "field":
        c = st.heap.get(loc[1])
        return c.fields.get(loc[2], MISSING) if isinstance(c, ObjC) else MISSING
    return st.heap.get(loc[1])


def install_exit(I, heads, j, N, entry, post):
    ja = aid_of(j)
    last = {ja: N - 1}
    memo = {}
    pending = []
    for loc, h in heads.items():
        if h.kind in ("closed", "havoc"):
            put_loc(I, loc, h.at(N))
        elif h.kind == "last":
            pending.append(loc)
        elif h.kind == "dict":
            put_loc(I, loc, dict_exit(I, h, entry.heap[loc[1]], post.heap[loc[1]], N))
    for k, c in post.heap.items():
        if k not in I.heap:
            I.heap[k] = c  # cells created by the body
    for loc in pending:
        pv, evv = get_loc(post, loc), get_loc(entry, loc)
        v = clone_value(I, pv, last, memo)
        c = gt(N)
        if evv is MISSING:
            put_loc(I, loc, v if c.is_const() or loc[0] == "env" else PhiV(c, v, MISSING))
        else:
            put_loc(I, loc, I.join_val(c, v, evv))


def diff(I, a, b):
    """Locations of state a whose content differs in b."""
    out = {}
    for n in a.env.keys() | b.env.keys():
        x, y = a.env.get(n, MISSING), b.env.get(n, MISSING)
        if not veq(x, y):
            out[("env", n)] = 1
    for k, x in a.heap.items():
        y = b.heap.get(k)
        if x is y or y is None:
            continue
        if isinstance(x, Buf):
            if x.dims != y.dims or not same_body(x, y):
                out[("buf", k)] = 1
        elif isinstance(x, ObjC):
            for f in x.fields.keys() | y.fields.keys():
                if not veq(x.fields.get(f, MISSING), y.fields.get(f, MISSING)):
                    out[("field", k, f)] = 1
        elif isinstance(x, ListC):
            if x.segs != y.segs:
                out[("list", k)] = 1
        elif isinstance(x, DictC):
            if x.items.keys() != y.items.keys() or not all(veq(x.items[i], y.items[i]) for i in x.items) or x.extra != y.extra:
                out[("dict", k)] = 1
    return out


def same_body(x, y):
    if x.ivs == y.ivs:
        return x.body == y.body or is_zero(x.body - y.body)
    yb = subst(y.body, {aid_of(p): q for p, q in zip(y.ivs, x.ivs)})
    return x.body == yb or is_zero(x.body - yb)


def loc_name(loc):
    return loc[1] if loc[0] == "env" else (loc[2] if loc[0] == "field" else loc[0])


def havoc(I, loc, entry, head, post, j):
    kind = loc[0]
    pre = I.loopidx()
    if kind in ("buf",):
        x, y = entry.heap.get(loc[1]) or head.heap[loc[1]], post.heap[loc[1]]
        return havoc_buf(I, x, y, pre, "carried")
    if kind == "list":
        x = entry.heap[loc[1]]
        n = fresh_name("carriedlist")
        return Head("havoc", lambda jj: ListC(x.segs + (("opq", n, jj),)), {n})
    if kind == "dict":
        e0 = entry.heap[loc[1]]
        h = Head("dict", None)
        h.changed = dict_changed(e0, post.heap[loc[1]])
        h.at = lambda jj: DictC({k: (Unk("loop-carried item") if k in h.changed else v) for k, v in e0.items.items()}, e0.kind, e0.extra + (("opq", jj),))
        return h
    x, y = get_loc(entry, loc), get_loc(post, loc)
    return havoc_val(I, x, y, pre, loc_name(loc), entry, post)


def havoc_val(I, x, y, pre, nm, entry, post):
    px, py = P_of(x), P_of(y)
    if px is not None and py is not None:
        ty = ty_join(ty_of(x), ty_of(y))
        name = fresh_name("carried." + str(nm))
        t = tensor(name, (None,) * (len(pre) + 1))
        t.integer = ty in ("int", "bool")
        return Head("havoc", lambda jj: Sc(el(name, pre + (jj,)), ty), {name})
    if isinstance(x, ARef) and isinstance(y, ARef) and len(x.dims) == len(y.dims):
        bx, by = entry.heap.get(x.buf), post.heap[y.buf]
        if bx is None:
            bx = by
        name = fresh_name("carried." + str(nm))
        tensor(name, (None,) * (len(pre) + 1 + len(x.dims)))
        dimsyms = []
        names = {name}
        for k, (d1, d2) in enumerate(zip(x.dims, y.dims)):
            if d1 == d2:
                dimsyms.append(lambda jj, d1=d1: d1)
            else:
                dn = fresh_name(f"dim{k}." + str(nm))
                t = tensor(dn, (None,) * (len(pre) + 1))
                t.integer = t.nonneg = True
                names.add(dn)
                dimsyms.append(lambda jj, dn=dn: el(dn, pre + (jj,)))
        cache = {}

        def at(jj):
            if jj in cache:
                b, ar = cache[jj]
                I.heap.setdefault(ar.buf, b)
                return ar
            dims = [f(jj) for f in dimsyms]
            ivs = [fresh_index(d) for d in dims]
            I.nid += 1
            b = Buf(dims, ivs, el(name, pre + (jj,) + tuple(ivs)), by.dtype, by.order, ("carried", nm))
            I.heap[I.nid] = b
            iv2 = [fresh_index(d) for d in dims]
            ar = ARef(I.nid, dims, iv2, iv2)
            cache[jj] = (b, ar)
            return ar
        return Head("havoc", at, names)
    if isinstance(x, ORef) and isinstance(y, ORef):
        cx, cy = entry.heap.get(x.id), post.heap.get(y.id)
        if cx is not None and cy is not None and cx.cls is cy.cls:
            fs = {}
            names = set()
            for f in cy.fields:
                a, b = cx.fields.get(f, MISSING), cy.fields[f]
                if f not in cx.fields:
                    fs[f] = Head("havoc", lambda jj: Unk("loop-carried field"))
                elif veq(a, b):
                    fs[f] = Head("havoc", lambda jj, a=a: a)
                else:
                    fs[f] = havoc_deep(I, a, b, pre, f"{nm}.{f}", entry, post)
                names |= fs[f].names
            cache = {}

            def at_obj(jj):
                vals = {f: h.at(jj) for f, h in fs.items()}
                if jj in cache:
                    r = cache[jj]
                    I.heap[r.id] = ObjC(cy.cls, vals)
                    return r
                r = I.new(ObjC(cy.cls, vals))
                cache[jj] = r
                return r
            return Head("havoc", at_obj, names)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        hs = [havoc_deep(I, a, b, pre, nm, entry, post) for a, b in zip(x, y)]
        return Head("havoc", lambda jj: tuple(h.at(jj) for h in hs), set().union(*[h.names for h in hs]))
    if x is MISSING:
        return Head("last", lambda jj: MISSING)
    return Head("last", lambda jj: Unk(f"loop-carried {nm}"))


def havoc_deep(I, a, b, pre, nm, entry, post):
    if veq(a, b):
        return Head("havoc", lambda jj: a)
    if isinstance(a, LRef) and isinstance(b, LRef):
        return Head("havoc", lambda jj: I.new(ListC([("opq", fresh_name("l"), jj)]), LRef))
    return havoc_val(I, a, b, pre, nm, entry, post)


def havoc_buf(I, x, y, pre, nm):
    name = fresh_name(nm)
    tensor(name, (None,) * (len(pre) + 1 + len(x.dims)))
    if x.dims != y.dims:
        return Head("havoc", lambda jj: Buf(x.dims, x.ivs, sym("unknown_resized"), y.dtype, y.order), {name})
    return Head("havoc", lambda jj: Buf(x.dims, x.ivs, el(name, pre + (jj,) + tuple(x.ivs)), y.dtype, x.order, x.note), {name})


def closed(I, loc, entry, head, post, j, names, h):
    """Closed form of a carried location, or None."""
    ja = aid_of(j)
    kind = loc[0]
    if kind == "list":
        a, b = head.heap[loc[1]].segs, post.heap[loc[1]].segs
        if len(b) == len(a) + 1 and b[:len(a)] == a and b[-1][0] == "v":
            snap = I.npm.snap(I, b[-1][1], post.heap)
            if snap is None or snap_mentions(snap, names):
                return None
            base = entry.heap[loc[1]].segs
            t = fresh_index(SYMS[ATOMS[ja].args[0]].hi, "t")
            s2 = snap_subst(snap, {ja: t})
            return Head("closed", lambda jj: ListC(base + (("gen", jj, t, s2),)))
        return None
    if kind == "buf":
        x, y = head.heap[loc[1]], post.heap[loc[1]]
        e = entry.heap[loc[1]]
        if x.dims != y.dims:
            return None
        yb = y.body if y.ivs == x.ivs else subst(y.body, {aid_of(p): q for p, q in zip(y.ivs, x.ivs)})
        eb = e.body if e.ivs == x.ivs else subst(e.body, {aid_of(p): q for p, q in zip(e.ivs, x.ivs)})
        f = closed_poly(x.body, yb, eb, j, ja, names, x.ivs)
        if f is None:
            return None
        return Head("closed", lambda jj: Buf(x.dims, x.ivs, f(jj), y.dtype, x.order, x.note))
    a, b, e = get_loc(head, loc), get_loc(post, loc), get_loc(entry, loc)
    pa, pb, pe = P_of(a), P_of(b), P_of(e)
    if pa is not None and pb is not None and pe is not None:
        f = closed_poly(pa, pb, pe, j, ja, names, ())
        if f is None:
            return None
        ty = ty_join(ty_of(a), ty_of(e))
        return Head("closed", lambda jj: sc(f(jj), ty))
    if isinstance(a, ARef) and isinstance(b, ARef) and isinstance(e, ARef) and len(b.dims) == len(e.dims) and all(x == y for x, y in zip(b.dims, e.dims)):
        # replaced in every iteration by a freshly computed array that does not depend on the previous one
        if b.buf in head.heap or b.buf not in post.heap or e.buf not in entry.heap:
            return None
        cb, ce = post.heap[b.buf], entry.heap[e.buf]
        if mentions(cb.body, names) or any(mentions(d, names) for d in b.dims + b.bidx) or any(ja in d.free() for d in b.dims):
            return None
        ivs = [fresh_index(d) for d in b.dims]
        val = lambda x, c: subst(subst(c.body, {aid_of(v): i for v, i in zip(c.ivs, x.bidx)}), {aid_of(v): i for v, i in zip(x.ivs, ivs)})
        vb, ve = val(b, cb), val(e, ce)
        cache = {}

        def at(jj):
            if jj in cache:
                buf, ar = cache[jj]
                I.heap.setdefault(ar.buf, buf)
                return ar
            I.nid += 1
            buf = Buf(b.dims, ivs, phi(gt(jj), subst(vb, {ja: jj - 1}), ve), cb.dtype, cb.order, cb.note)
            I.heap[I.nid] = buf
            i2 = [fresh_index(d) for d in b.dims]
            ar = ARef(I.nid, b.dims, i2, i2)
            cache[jj] = (buf, ar)
            return ar
        return Head("closed", at)
    return None


def closed_poly(x, y, e, j, ja, names, ivs):
    delta = y - x
    if not mentions(delta, names):
        if ja not in delta.free():
            return lambda jj: e + delta * jj
        t = fresh_index(SYMS[ATOMS[ja].args[0]].hi, "t")
        d2 = subst(delta, {ja: t})
        return lambda jj: e + sum_over(d2, t, jj)
    if not mentions(y, names):
        return lambda jj: phi(gt(jj), subst(y, {ja: jj - 1}), e)
    # element store: y = phi(c, v, x) with c an equation between an index and the loop counter
    if ivs:
        for a in sorted(poly.indicators(delta)):
            at = ATOMS[a]
            if at.kind != "eq" or ja not in at.free or not any(aid_of(i) in at.free for i in ivs):
                continue
            lin = linear_in(at.args[0], ja)
            if lin is None or abs(lin[0]) != 1:
                continue
            off = cofactor(y, a, False)
            if off != x and not is_zero(off - x):
                continue
            v = cofactor(y, a, True)
            if mentions(v, names):
                # the stored value may still contain the old value under other conditions: that of the entry, as no other
                # iteration stores here
                lp = linear_part(v, aid_of(x)) if len(x.t) == 1 else None
                if lp is None or mentions(lp[0], names) or mentions(lp[1], names):
                    continue
                v = lp[0] * e + lp[1]
            sol = (-lin[1]).scale(Fr(1) / lin[0])

            def f(jj, sol=sol, v=v):
                return phi(ge(sol) * gt(jj - sol), subst(v, {ja: sol}), e)
            return f
    return None


def snap_mentions(s, names):
    if s[0] == "s":
        return mentions(s[1], names)
    if s[0] == "a":
        return mentions(s[3], names) or any(mentions(d, names) for d in s[1])
    if s[0] == "t":
        return any(snap_mentions(x, names) for x in s[1])
    if s[0] == "f":
        return snap_mentions(s[2], names)
    return False


def snap_subst(s, m):
    if s[0] == "s":
        return ("s", subst(s[1], m), s[2])
    if s[0] == "a":
        return ("a", tuple(subst(d, m) for d in s[1]), s[2], subst(s[3], m), s[4])
    if s[0] == "t":
        return ("t", tuple(snap_subst(x, m) for x in s[1]))
    if s[0] == "f":
        return ("f", s[1], snap_subst(s[2], m))
    return s
