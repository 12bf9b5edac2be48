"""Abstract values and the heap of the abstract interpreter."""
from .poly import P, Poly, Fr, sym, subst, fresh_index, aid_of, gt, eq, ge, phi, is_zero, ATOMS, SYMS


class Undecided(Exception):
    """A construct the interpreter does not model; the obligation that needed it stays undecided."""


class Dead(Exception):
    """The current path has no continuation."""


class Unk:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Unk({self.why})"


class StrV(Unk):
    """A formatted string: the literal pieces and the values formatted into it."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        Unk.__init__(self, "str")
        self.parts = tuple(parts)


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class Sc:
    """A scalar: normal form plus a Python type tag."""
    __slots__ = ("p", "ty")

    def __init__(self, p, ty="float"):
        self.p, self.ty = p, ty

    def __eq__(self, o):
        return isinstance(o, Sc) and self.p == o.p and self.ty == o.ty

    def __hash__(self):
        return hash((self.p, self.ty))

    def __repr__(self):
        return f"Sc<{self.ty}>({self.p})"


def sc(p, ty="float"):
    if isinstance(p, Poly) and p.is_const():
        c = p.cval()
        if ty == "int" and c.denominator == 1:
            return int(c)
        if ty == "bool" and c in (0, 1):
            return bool(c)
    return Sc(p, ty)


class ARef:
    """A (view of a) buffer: element [i0,i1,..] is buffer element bidx(i0,i1,...)."""
    __slots__ = ("buf", "dims", "ivs", "bidx")

    def __init__(self, buf, dims, ivs, bidx):
        self.buf, self.dims, self.ivs, self.bidx = buf, tuple(dims), tuple(ivs), tuple(bidx)

    def __eq__(self, o):
        if not isinstance(o, ARef) or self.buf != o.buf or len(self.dims) != len(o.dims) or self.dims != o.dims:
            return False
        if self.ivs == o.ivs:
            return self.bidx == o.bidx
        m = {aid_of(a): b for a, b in zip(o.ivs, self.ivs)}
        return self.bidx == tuple(subst(x, m) for x in o.bidx)

    def __hash__(self):
        return hash((self.buf, self.dims))

    def __repr__(self):
        return f"ARef(#{self.buf}, dims={self.dims})"


class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return type(self) is type(o) and self.id == o.id

    def __hash__(self):
        return hash((type(self).__name__, self.id))

    def __repr__(self):
        return f"{type(self).__name__}({self.id})"


class ORef(Ref):
    __slots__ = ()


class LRef(Ref):
    __slots__ = ()


class DRef(Ref):
    __slots__ = ()


class Buf:
    __slots__ = ("dims", "ivs", "body", "dtype", "order", "note")

    def __init__(self, dims, ivs, body, dtype="float64", order="C", note=None):
        self.dims, self.ivs, self.body, self.dtype, self.order, self.note = tuple(dims), tuple(ivs), body, dtype, order, note

    def with_body(self, body):
        return Buf(self.dims, self.ivs, body, self.dtype, self.order, self.note)


class ObjC:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class ListC:
    """segs: ('v', value) | ('arr', dims, ivs, body, dtype): the rows of an array | ('gen', N, j, value, heapcopy) | ('phi', c, segs, segs)"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)


class DictC:
    __slots__ = ("items", "kind", "extra")

    def __init__(self, items, kind="dict", extra=()):
        self.items, self.kind, self.extra = items, kind, tuple(extra)


class PhiV:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PhiV) and self.c == o.c and veq(self.a, o.a) and veq(self.b, o.b)

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return f"PhiV({self.c} ? {self.a!r} : {self.b!r})"


class Frame:
    __slots__ = ("env", "module", "parent", "exits", "func", "globals_decl", "nonlocal_decl")

    def __init__(self, module, parent=None, func=None):
        self.env, self.module, self.parent, self.func = {}, module, parent, func
        self.exits = []
        self.globals_decl, self.nonlocal_decl = set(), set()


class Exit:
    __slots__ = ("kind", "guard", "value", "state", "pos")

    def __init__(self, kind, guard, value, state, pos):
        self.kind, self.guard, self.value, self.state, self.pos = kind, guard, value, state, pos


class FuncV:
    __slots__ = ("node", "frame", "module", "name", "qual", "defaults", "kwdefaults", "owner")

    def __init__(self, node, frame, module, name, qual, defaults, kwdefaults, owner=None):
        self.node, self.frame, self.module, self.name, self.qual = node, frame, module, name, qual
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults, owner

    def __repr__(self):
        return f"FuncV({self.qual})"


class BoundV:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and self.fn is o.fn and self.self_ == o.self_

    def __hash__(self):
        return hash(id(self.fn))

    def __repr__(self):
        return f"BoundV({self.fn!r}, {self.self_!r})"


class ClassV:
    def __init__(self, name, bases, ns, module, qual=None):
        self.name, self.bases, self.ns, self.module, self.qual = name, bases, ns, module, qual or name
        self.dataclass_fields = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if isinstance(b, ModV)]
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"ClassV({self.qual})"


class PropV:
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class SuperV:
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ModV:
    """A dotted external name (module, function, class or constant of a library)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ModV) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"ModV({self.name})"


class PkgV:
    """A module of the analysed package."""
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod

    def __eq__(self, o):
        return isinstance(o, PkgV) and self.mod is o.mod

    def __hash__(self):
        return hash(id(self.mod))


class PrimV:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"PrimV({self.name})"


class PartialV:
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class DtV:
    """A symbolic dtype."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DtV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"DtV({self.name})"


class SpecV:
    """The discrete Fourier transform of an array (kept symbolic: products become circular convolutions)."""
    __slots__ = ("dims", "ivs", "body")

    def __init__(self, dims, ivs, body):
        self.dims, self.ivs, self.body = dims, ivs, body


class Model:
    """An opaque object (user operator, callback, generator ...); subclasses define get/call/etc."""
    tag = "model"

    def get(self, I, name):
        return MISSING

    def isa(self, dotted):
        return False


def P_of(v):
    """The polynomial of a scalar value, or None."""
    if isinstance(v, Sc):
        return v.p
    if isinstance(v, bool):
        return P(int(v))
    if isinstance(v, (int, float, Fr)):
        return P(v)
    return None


def veq(a, b):
    """Structural equality of abstract values (references compare by identity)."""
    if a is b:
        return True
    pa, pb = P_of(a), P_of(b)
    if pa is not None and pb is not None:
        return pa == pb
    if (pa is None) != (pb is None):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, (Unk, FuncV, PrimV, ClassV, Model)):
        return False if not isinstance(a, (FuncV,)) else (a.node is b.node and a.frame is b.frame and a.defaults == b.defaults)
    if isinstance(a, SliceV):
        return veq(a.lo, b.lo) and veq(a.hi, b.hi) and veq(a.step, b.step)
    try:
        return a == b
    except TypeError:
        return False


def ty_join(a, b):
    if a == b:
        return a
    order = ["bool", "int", "float", "np"]
    if a in order and b in order:
        return order[max(order.index(a), order.index(b))]
    return "any"


def ty_of(v):
    if isinstance(v, Sc):
        return v.ty
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    return "float"
