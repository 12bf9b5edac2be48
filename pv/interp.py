"""Abstract interpreter for the Python subset used by the package.

Values are gated polynomial normal forms (poly.py); branches are joined with phi, loops over symbolic ranges are
summarised from an arbitrary iteration, calls are analysed interprocedurally (inlined).  Nothing of the package runs.
"""
import ast
import os
from . import poly
from .poly import (P, Poly, Fr, sym, subst, fresh_index, fresh_name, aid_of, gt, ge, eq, phi, is_zero, ATOMS, SYMS, FACTS,
                   el, tensor, TENSORS, sum_over, prove_ge0, opaque_bool, linear_in, TooBig, fun, power, cofactor,
                   cofactor_raw, indicators, atoms_of)
from .values import *

ZEROP, ONEP = Poly.const(0), Poly.const(1)


class St:
    __slots__ = ("heap", "env", "facts", "assume", "truths")

    def __init__(self, heap, env, facts, assume, truths):
        self.heap, self.env, self.facts, self.assume, self.truths = heap, env, facts, assume, truths


class Ev:
    __slots__ = ("kind", "d", "guard", "loops", "pos", "seq")

    def __init__(self, kind, d, guard, loops, pos, seq):
        self.kind, self.d, self.guard, self.loops, self.pos, self.seq = kind, d, guard, loops, pos, seq

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f"Ev({self.kind}, {self.d}, loops={[str(l[0]) for l in self.loops]}, pos={self.pos})"


def own_jumps(stmts):
    """break and continue statements belonging to the loop whose body contains the statements."""
    out = []
    for s in stmts:
        if isinstance(s, (ast.Break, ast.Continue)):
            out.append(s)
        elif isinstance(s, (ast.For, ast.While)):
            out += own_jumps(s.orelse)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            pass
        else:
            for f in ("body", "orelse", "finalbody"):
                out += own_jumps(getattr(s, f, []) or [])
            for h in getattr(s, "handlers", []) or []:
                out += own_jumps(h.body)
    return out


def rotate(s):
    """`while True: S1; if c: X; break;  S2`  as  `S1; while not c: S2; S1`  followed by X (None when not of that form)."""
    if not (isinstance(s.test, ast.Constant) and s.test.value):
        return None
    for i, t in enumerate(s.body):
        if isinstance(t, ast.If):
            break
    else:
        return None
    stop = lambda b: b and isinstance(b[-1], (ast.Break, ast.Return, ast.Raise)) and not own_jumps(b[:-1])
    if stop(t.body):
        neg, X, other = True, t.body, t.orelse
    elif stop(t.orelse):
        neg, X, other = False, t.orelse, t.body
    else:
        return None
    S1, S2 = s.body[:i], list(other) + s.body[i + 1:]
    X = X[:-1] if isinstance(X[-1], ast.Break) else X
    jumps = own_jumps(S1) + own_jumps(S2)
    if any(isinstance(x, ast.Continue) for x in jumps) and S1 or any(isinstance(x, ast.Break) for x in own_jumps(S1)):
        return None
    if X and any(isinstance(x, ast.Break) for x in jumps):
        return None
    test = ast.UnaryOp(ast.Not(), t.test) if neg else t.test
    w = ast.While(test=test, body=S2 + S1 or [ast.Pass()], orelse=[])
    ast.copy_location(w, t)
    ast.copy_location(test, t.test)
    ast.fix_missing_locations(w)
    return S1 + [w] + X


class Failure(str):
    """Exception a library routine may raise."""


class LoopRec:
    def __init__(self, node, pos):
        self.node, self.pos = node, pos
        self.entry = self.head = self.post = self.exit = None
        self.cond = self.N = self.j = None
        self.events = []
        self.names = {}
        self.breaks, self.returns = [], []
        self.iters = []  # unrolled records: (cond, head state, post state, events)


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.frame = Frame(self)
        self.loaded = False


EXC_PARENTS = {"AssertionError": "Exception", "ValueError": "Exception", "TypeError": "Exception", "RuntimeError": "Exception",
               "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception",
               "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "NotImplementedError": "RuntimeError",
               "LinAlgError": "ValueError", "StopIteration": "Exception", "Exception": "BaseException", "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "FloatingPointError": "ArithmeticError", "OverflowError": "ArithmeticError"}


def exc_is(name, handler):
    while name:
        if name == handler:
            return True
        name = EXC_PARENTS.get(name)
    return False


class Interp:
    MAXDEPTH = 40

    def __init__(self, root, while_mode="generic", unroll=16):
        from . import npm
        self.root = root
        self.modules = {}
        self.heap = {}
        self.nid = 0
        self.regions_only = set()
        self.let_joins = False  # ... after joins, too
        self.log_div = False    # record the denominators of scalar divisions
        self.let_scalar = None  # likewise for scalars
        self.let_at = None  # name intermediate arrays whose element terms are larger than this
        self.events = []
        self.frame = Frame(None)
        self.guard = ONEP
        self.assume, self.truths = {}, []
        self.loops = []
        self.loop_records = []
        self.passes, self.site_names, self.nloops = [], {}, 0
        self.while_mode, self.unroll = while_mode, unroll
        self.depth = 0
        self.callstack = []
        self.trydepth = 0
        self.handling = None
        self.incomplete = []
        self.attr_functions = set()     # functions given attributes of their own
        self.hooks = {}      # qualname -> fn(I, func, args, kwargs) returning a value or NotImplemented
        self.watch = {}      # qualname -> True: log call events
        self.seq = 0
        self.funcs_seen = set()
        self.models = npm.MODELS
        self.consts = npm.CONSTS
        self.npm = npm
        self.pos = ("?", 0, "?")
        self.stubs = {}      # dotted submodule -> value
        self.while_limit = None
        self.calls_seen = 0
        self.recent, self.splits, self.split_depth = [], 0, 0
        FACTS.clear()

    # ------------------------------------------------------------------------------------------------------- modules
    def module(self, name):
        """Loads a module of the package by its dotted name relative to the package ('' is the package itself)."""
        if name in self.modules:
            m = self.modules[name]
        else:
            path = os.path.join(self.root, (name.replace(".", "/") if name else "__init__") + ".py")
            if not os.path.exists(path):
                return None
            src = open(path).read()
            tree = ast.parse(src, path)
            m = self.modules[name] = Module(name, path, tree)
        if not m.loaded:
            m.loaded = True
            saved = (self.frame, self.guard, self.pos)
            self.frame, self.guard = m.frame, ONEP
            try:
                self.exec_block(m.tree.body)
            except Dead:
                pass
            finally:
                self.frame, self.guard, self.pos = saved
        return m

    def public(self, mod, name):
        m = self.module(mod)
        if m is None or name not in m.frame.env:
            raise KeyError(f"{mod}.{name}")
        return m.frame.env[name]

    # ---------------------------------------------------------------------------------------------------------- state
    def new(self, cell, cls=ORef):
        self.nid += 1
        self.heap[self.nid] = cell
        return cls(self.nid)

    def take(self):
        return St(dict(self.heap), dict(self.frame.env), list(FACTS), dict(self.assume), list(self.truths))

    def put(self, st, env=True):
        self.heap = dict(st.heap)
        if env:
            self.frame.env = dict(st.env)
        FACTS[:] = st.facts
        self.assume, self.truths = dict(st.assume), list(st.truths)

    def event(self, kind, **d):
        self.seq += 1
        self.events.append(Ev(kind, d, self.full_guard(), tuple(self.loops), self.pos, self.seq))
        return self.events[-1]

    def full_guard(self):
        g = self.guard
        for x in self.callstack:
            try:
                g = g * x[1]
            except TooBig:
                pass
        return g

    def norm(self, c):
        """Simplifies an indicator-valued polynomial under the current assumptions."""
        if c.is_const():
            return c
        for _ in range(4):
            c0 = c
            for a in sorted(indicators(c)):
                v = self.assume.get(a)
                if v is not None:
                    c = cofactor(c, a, v) if not c.is_const() else c
            c = poly.resimplify(c)
            if c.is_const() or c == c0:
                break
        if not c.is_const():
            for t in self.truths:
                if c == t:
                    return ONEP
                if c == ONEP - t:
                    return ZEROP
            # implied by assumed comparison atoms
            for a in sorted(indicators(c)):
                for b, v in self.assume.items():
                    if ATOMS[a].kind == "bl" or ATOMS[b].kind == "bl":
                        continue
                    iv = poly.implied(ATOMS[b], v, ATOMS[a])
                    if iv is not None:
                        c = cofactor_raw(c, a, iv)
                        break
        return c

    def assume_true(self, c):
        if c.is_const():
            return
        self.truths.append(c)
        if len(c.t) == 1:
            ((fs, bs), k), = c.t.items()
            if k == 1 and not bs:
                for a, _e in fs:
                    if ATOMS[a].kind in ("gt", "eq", "bl"):
                        self.assume[a] = True
                        FACTS.extend(poly.fact_of(a, True))
        else:
            d = ONEP - c
            if len(d.t) == 1:
                ((fs, bs), k), = d.t.items()
                if k == 1 and not bs and len(fs) == 1:
                    a = fs[0][0]
                    if ATOMS[a].kind in ("gt", "eq", "bl"):
                        self.assume[a] = False
                        FACTS.extend(poly.fact_of(a, False))

    # ---------------------------------------------------------------------------------------------------------- joins
    def join_states(self, c, a, b):
        heap = {}
        for k in a.heap.keys() | b.heap.keys():
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None or x is y:
                heap[k] = x if x is not None else y
            else:
                heap[k] = self.join_cell(c, x, y)
        env = {}
        for k in a.env.keys() | b.env.keys():
            x, y = a.env.get(k, MISSING), b.env.get(k, MISSING)
            env[k] = x if x is y else self.join_val(c, x, y)
        n = 0
        while n < len(a.facts) and n < len(b.facts) and a.facts[n] == b.facts[n]:
            n += 1
        assume = {k: v for k, v in a.assume.items() if b.assume.get(k) == v}
        truths = [t for t in a.truths if t in b.truths]
        return St(heap, env, a.facts[:n], assume, truths)

    def join_cell(self, c, x, y):
        if type(x) is not type(y):
            return x
        if isinstance(x, Buf):
            if len(x.dims) != len(y.dims) or x.dims != y.dims:
                self.incomplete.append("join of resized buffers")
                return Buf(x.dims, x.ivs, sym("unknown_join"), x.dtype, x.order)
            yb = subst(y.body, {aid_of(p): q for p, q in zip(y.ivs, x.ivs)}) if y.ivs != x.ivs else y.body
            b = phi(c, x.body, yb)
            if self.let_joins and x.dims and self.npm.weight(b) > self.let_at:
                b = self.npm.let(self, x.dims, x.ivs, b)
            return x.with_body(b)
        if isinstance(x, ObjC):
            f = {}
            for k in list(x.fields) + [k for k in y.fields if k not in x.fields]:
                f[k] = self.join_val(c, x.fields.get(k, MISSING), y.fields.get(k, MISSING))
            return ObjC(x.cls, f)
        if isinstance(x, ListC):
            if x.segs == y.segs:
                return x
            n = 0
            while n < len(x.segs) and n < len(y.segs) and seg_eq(x.segs[n], y.segs[n]):
                n += 1
            if len(x.segs) == len(y.segs) and all(s[0] == "v" for s in x.segs[n:] + y.segs[n:]):
                return ListC(x.segs[:n] + tuple(("v", self.join_val(c, s[1], t[1])) for s, t in zip(x.segs[n:], y.segs[n:])))
            return ListC(x.segs[:n] + (("phi", c, x.segs[n:], y.segs[n:]),))
        if isinstance(x, DictC):
            it = {}
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                it[k] = self.join_val(c, x.items.get(k, MISSING), y.items.get(k, MISSING))
            return DictC(it, x.kind, x.extra if x.extra == y.extra else x.extra + y.extra)
        return x

    def join_val(self, c, x, y):
        if c.is_const():
            return x if c.cval() else y
        if veq(x, y):
            return x
        self.recent.append(c)
        px, py = P_of(x), P_of(y)
        if px is not None and py is not None:
            return sc(phi(c, px, py), ty_join(ty_of(x), ty_of(y)))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.join_val(c, a, b) for a, b in zip(x, y))
        if isinstance(y, PhiV) and y.c == c:
            y = y.b
        if isinstance(x, PhiV) and x.c == c:
            x = x.a
        return PhiV(c, x, y)

    def split(self, c, f, g):
        """Runs f under c and g under not c from the same state and joins states and results."""
        c = self.norm(c)
        if c.is_const():
            return f() if c.cval() else g()
        base, guard0 = self.take(), self.guard
        self.guard = self._gmul(guard0, c)
        self.assume_true(c)
        va = vb = sa = sb = None
        try:
            va = f()
            sa = self.take()
        except Dead:
            pass
        ga = self.guard
        self.put(base)
        self.guard = self._gmul(guard0, ONEP - c)
        self.assume_true(ONEP - c)
        try:
            vb = g()
            sb = self.take()
        except Dead:
            pass
        gb = self.guard
        if sa is None and sb is None:
            raise Dead()
        if sa is None:
            return vb
        if sb is None:
            self.put(sa)
            self.guard = ga
            return va
        self.put(self.join_states(c, sa, sb))
        self.guard = ga + gb
        return self.join_val(c, va, vb)

    def _gmul(self, a, b):
        try:
            return a * b
        except TooBig:
            return opaque_bool("guard", fresh_name("g"))

    def lift(self, f, *args):
        """Applies f to arguments without gated alternatives."""
        for i, a in enumerate(args):
            if isinstance(a, PhiV):
                c = a.c
                return self.split(c, lambda: self.lift(f, *args[:i], a.a, *args[i + 1:]), lambda: self.lift(f, *args[:i], a.b, *args[i + 1:]))
        return f(*args)

    # ----------------------------------------------------------------------------------------------------------- exits
    def exit(self, kind, value=None):
        self.frame.exits.append(Exit(kind, self.guard, value, self.take(), self.pos))
        raise Dead()

    def raise_if(self, c, exc, msg=None):
        """Registers an exception raised when indicator c holds; the current path continues under not c."""
        c = self.norm(c)
        if c.is_const() and not c.cval():
            return
        if c.is_const():
            self.exit("raise", exc)
        st = self.take()
        self.frame.exits.append(Exit("raise", self._gmul(self.guard, c), exc, st, self.pos))
        self.guard = self._gmul(self.guard, ONEP - c)
        self.assume_true(ONEP - c)

    def may_raise(self, exc, *key):
        if self.trydepth:
            self.raise_if(opaque_bool("raises", exc, *key), Failure(exc))

    # ------------------------------------------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        self.pos = (self.frame.module.name if self.frame.module else "?", getattr(s, "lineno", 0), self.frame.func or "<module>")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(s).__name__} at {self.pos}")
        mark = self.mark()
        outer, self.recent = self.recent, []
        try:
            return m(s)
        except (Undecided, AttributeError, ValueError, TypeError, IndexError, KeyError) as e:
            if getattr(e, "_pv_final", False) or self.splits >= 40 or self.split_depth >= 4:
                raise
            failure = e
            cs = self.conditions(s)
        finally:
            self.recent = outer
        # the construct is not understood for a value with alternatives: each alternative is analysed on its own
        for c in cs:
            self.rollback(mark)
            self.splits += 1
            self.split_depth += 1
            try:
                return self.split(c, lambda: self.exec(s), lambda: self.exec(s))
            except (Undecided, AttributeError, ValueError, TypeError, IndexError, KeyError):
                if self.splits >= 40:
                    break
            finally:
                self.split_depth -= 1
        failure._pv_final = True
        raise failure

    def mark(self):
        fr = self.frame
        return (self.take(), self.guard, len(fr.exits), len(self.events), len(self.loop_records), len(self.incomplete), self.trydepth)

    def rollback(self, m):
        self.put(m[0])
        self.guard = m[1]
        del self.frame.exits[m[2]:], self.events[m[3]:], self.loop_records[m[4]:], self.incomplete[m[5]:]
        self.trydepth = m[6]

    def conditions(self, s):
        """Conditions the values used by a statement depend on and that are not settled on this path."""
        out, seen = [], set()

        def add(c):
            c = self.norm(c)
            if c.is_const() or c in out or (ONEP - c) in out or len(c.t) > 40:
                return
            bound = {aid_of(l[0]) for l in self.loops}
            if any(SYMS[ATOMS[a].args[0]].index and a not in bound for a in c.free() if ATOMS[a].kind == "sym"):
                return
            out.append(c)

        def visit(v, depth):
            if isinstance(v, PhiV):
                add(v.c)
                visit(v.a, depth)
                visit(v.b, depth)
            elif isinstance(v, Sc):
                for a in sorted(indicators(v.p)):
                    add(Poly.of_atom(ATOMS[a]))
            elif isinstance(v, tuple):
                for x in v[:6]:
                    visit(x, depth)
            elif isinstance(v, ARef):
                for d in v.dims:
                    for a in sorted(indicators(d)):
                        add(Poly.of_atom(ATOMS[a]))
            elif isinstance(v, ORef) and depth:
                for x in self.heap[v.id].fields.values():
                    visit(x, depth - 1)
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in seen:
                seen.add(n.id)
                fr = self.frame
                while fr is not None:
                    if n.id in fr.env:
                        visit(fr.env[n.id], 1)
                        break
                    fr = fr.parent
        for c in reversed(self.recent):
            add(c)
        return out[:4]

    def x_Expr(self, s):
        self.ev(s.value)

    def x_Pass(self, s):
        pass

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev(t.slice)
                if isinstance(o, DRef) and isinstance(k, str):
                    d = self.heap[o.id]
                    self.heap[o.id] = DictC({a: b for a, b in d.items.items() if a != k}, d.kind, d.extra)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, ORef):
                    c = self.heap[o.id]
                    self.heap[o.id] = ObjC(c.cls, {a: b for a, b in c.fields.items() if a != t.attr})

    def x_Global(self, s):
        self.frame.globals_decl |= set(s.names)

    def x_Nonlocal(self, s):
        self.frame.nonlocal_decl |= set(s.names)

    def x_Import(self, s):
        for a in s.names:
            top = a.name.split(".")[0]
            self.setname(a.asname or top, ModV(a.name if a.asname else top))

    def x_ImportFrom(self, s):
        mod = s.module or ""
        rel = s.level > 0 or mod.split(".")[0] == "primate"
        if not s.level and rel:
            mod = ".".join(mod.split(".")[1:])
        for a in s.names:
            if rel:
                v = self.from_pkg(mod, a.name)
            else:
                v = ModV(f"{mod}.{a.name}")
                if v.name in self.consts:
                    v = self.consts[v.name]
            if a.name == "*":
                m = self.module(mod)
                if m:
                    for k, x in m.frame.env.items():
                        self.setname(k, x)
                continue
            self.setname(a.asname or a.name, v)

    def from_pkg(self, mod, name):
        full = f"{mod}.{name}" if mod else name
        if full in self.stubs:
            return self.stubs[full]
        if mod in self.stubs:
            return self.getattr(self.stubs[mod], name)
        m = self.module(mod)
        if m is not None and name in m.frame.env:
            return m.frame.env[name]
        sub = self.module(full)
        if sub is not None:
            return PkgV(sub)
        if name == "_lanczos":
            return ModV("primate._lanczos")
        return Unk(f"import {full}")

    def x_FunctionDef(self, s):
        f = self.mkfunc(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s)
        self.setname(s.name, v)

    def decorate(self, d, v, s):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.ev(d.value)
            if isinstance(p, PropV):
                return PropV(p.fget, v) if d.attr == "setter" else p
        dv = self.ev(d)
        name = dv.name if isinstance(dv, (ModV, PrimV)) else ""
        if name in ("property", "functools.cached_property"):
            return PropV(v)
        if name == "staticmethod":
            return PrimV("staticmethod", v)
        if name == "classmethod":
            return PrimV("classmethod", v)
        if name in ("typing.no_type_check", "typing.runtime_checkable", "typing.overload", "abc.abstractmethod", "typing.final") or name.startswith("functools.lru_cache") or name == "functools.cache":
            return v
        if isinstance(dv, Unk):
            return v
        if name in ("dataclasses.dataclass",) or (isinstance(dv, PrimV) and dv.name == "dataclass"):
            return self.npm.dataclass(self, v)
        return self.call(dv, [v], {})

    def mkfunc(self, node, name):
        a = node.args
        defaults = tuple(self.ev(x) for x in a.defaults)
        kwd = {p.arg: (self.ev(d) if d is not None else MISSING) for p, d in zip(a.kwonlyargs, a.kw_defaults)}
        q = (self.frame.func + "." if self.frame.func else "") + name
        mod = self.frame.module
        f = FuncV(node, self.frame, mod, name, f"{mod.name if mod else '?'}.{q}", defaults, kwd)
        return f

    def x_ClassDef(self, s):
        bases = []
        for b in s.bases:
            v = self.ev(b)
            bases.append(v)
        mod = self.frame.module
        fr = Frame(mod, self.frame, (self.frame.func + "." if self.frame.func else "") + s.name)
        saved = self.frame
        self.frame = fr
        try:
            self.exec_block(s.body)
        finally:
            self.frame = saved
        cls = ClassV(s.name, [b for b in bases if isinstance(b, (ClassV, ModV))], fr.env, mod, f"{mod.name}.{s.name}")
        cls.ann = [(t.target.id, t.value) for t in s.body if isinstance(t, ast.AnnAssign) and isinstance(t.target, ast.Name)]
        for v in fr.env.values():
            for f in (v, getattr(v, "fget", None), getattr(v, "fset", None), v.fn if isinstance(v, PrimV) else None):
                if isinstance(f, FuncV) and f.owner is None:
                    f.owner = cls
        # methods close over the enclosing frame, not the class frame
        for v in fr.env.values():
            for f in (v, getattr(v, "fget", None), getattr(v, "fset", None), v.fn if isinstance(v, PrimV) else None):
                if isinstance(f, FuncV) and f.frame is fr:
                    f.frame = saved
        v = cls
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, s)
        self.setname(s.name, v)

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.exit("return", v)

    def x_Break(self, s):
        self.exit("break")

    def x_Continue(self, s):
        self.exit("continue")

    def x_Raise(self, s):
        name = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            v = self.ev(e)
            name = v.name.split(".")[-1] if isinstance(v, (ModV, PrimV, ClassV)) else (v if isinstance(v, str) else "Exception")
        elif self.handling is not None:
            name = self.handling  # raised again
            if isinstance(name, Failure):
                raise Dead()  # as where nothing is caught: library routines are assumed not to fail
        self.exit("raise", name)

    def x_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.raise_if(ONEP - c, "AssertionError")

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.getname(t.id)
            r = self.ev(s.value)
            self.setname(t.id, self.lift(lambda a, b: self.inplace(op, a, b), cur, r))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            r = self.ev(s.value)
            self.setattr(o, t.attr, self.lift(lambda a, b: self.inplace(op, a, b), cur, r))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            cur = self.getitem(o, k)
            r = self.ev(s.value)
            self.setitem(o, k, self.lift(lambda a, b: self.binop(op, a, b), cur, r))
        else:
            raise Undecided("augmented assignment target")

    def inplace(self, op, a, b):
        if isinstance(a, ARef):
            r = self.binop(op, a, b)
            if isinstance(r, PhiV):
                return self.lift(lambda x: self.inplace_store(a, x), r)
            return self.inplace_store(a, r)
        if isinstance(a, LRef) and op == "Add":
            self.npm.list_extend(self, a, b)
            return a
        if isinstance(a, DRef) and op == "BitOr":
            self.npm.dict_update(self, a, b)
            return a
        return self.binop(op, a, b)

    def inplace_store(self, a, r):
        self.npm.store(self, a, r)
        return a

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if self.let_scalar is not None and isinstance(v, Sc) and not self.loops and v.ty != "int" and v.ty != "bool":
                if self.npm.weight(v.p) > self.let_scalar:
                    v = Sc(self.npm.let(self, (), (), v.p), v.ty)
            self.setname(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]

            def go(v):
                return tuple(self.sequence(v, None if star else len(t.elts)))
            if isinstance(v, PhiV):
                v = self.lift(go, v)
                if isinstance(v, PhiV):
                    raise Undecided("unpacking alternatives of different lengths")
                items = list(v)
            else:
                items = list(go(v))
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                mid = items[k:len(items) - after]
                items = items[:k] + [self.mklist(mid)] + items[len(items) - after:]
                for x, y in zip(t.elts, items):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y)
                return
            if len(items) != len(t.elts):
                self.exit("raise", "ValueError")
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        else:
            raise Undecided(f"assignment target {type(t).__name__}")

    def mklist(self, vals):
        return self.new(ListC([("v", v) for v in vals]), LRef)

    def x_If(self, s):
        c = self.truth(self.ev(s.test))
        self.split(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def x_With(self, s):
        ms = []
        for it in s.items:
            v = self.ev(it.context_expr)
            ms.append(v)
            e = v
            if isinstance(v, Model) and v.get(self, "__enter__") is not MISSING:
                e = self.call(v.get(self, "__enter__"), [], {})
            elif isinstance(v, ORef):
                e = self.call(self.getattr(v, "__enter__"), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, e)
        self.exec_block(s.body)
        for v in reversed(ms):
            if isinstance(v, Model) and v.get(self, "__exit__") is not MISSING:
                self.call(v.get(self, "__exit__"), [None, None, None], {})
            elif isinstance(v, ORef):
                self.call(self.getattr(v, "__exit__"), [None, None, None], {})

    def x_Try(self, s):
        fr = self.frame
        mark = len(fr.exits)
        outs = []
        guard0 = self.guard
        base = self.take()
        self.trydepth += 1
        try:
            self.exec_block(s.body)
            self.exec_block(s.orelse)
            outs.append((self.guard, self.take()))
        except Dead:
            pass
        finally:
            self.trydepth -= 1
        new, fr.exits[mark:] = fr.exits[mark:], []
        for e in new:
            h = None
            if e.kind == "raise":
                for hd in s.handlers:
                    names = ["BaseException"]
                    if hd.type is not None:
                        v = self.ev(hd.type)
                        vs = v if isinstance(v, tuple) else (v,)
                        names = [getattr(x, "name", "?").split(".")[-1] for x in vs]
                    if any(exc_is(e.value, n) for n in names):
                        h = hd
                        break
            if h is None:
                fr.exits.append(e)
                continue
            self.put(e.state)
            self.guard = e.guard
            if h.name:
                self.setname(h.name, e.value)
            outer, self.handling = self.handling, e.value
            try:
                self.exec_block(h.body)
                outs.append((self.guard, self.take()))
            except Dead:
                pass
            finally:
                self.handling = outer
        if s.finalbody:
            fin = []
            for g, st in outs:
                self.put(st)
                self.guard = g
                self.exec_block(s.finalbody)
                fin.append((self.guard, self.take()))
            outs = fin
        self.join_outs(outs)

    def join_outs(self, outs):
        """Continues from the join of [(guard, state)] (mutually exclusive guards)."""
        if not outs:
            raise Dead()
        g, st = outs[-1]
        for g2, st2 in reversed(outs[:-1]):
            st = self.join_states(g2, st2, st)
            g = g + g2
        self.put(st)
        self.guard = g

    # ----------------------------------------------------------------------------------------------------------- loops
    def exec_body(self, body):
        """One execution of a loop body; returns (live, break exits)."""
        fr = self.frame
        mark = len(fr.exits)
        outs = []
        try:
            self.exec_block(body)
            outs.append((self.guard, self.take()))
        except Dead:
            pass
        new, fr.exits[mark:] = fr.exits[mark:], []
        breaks = []
        for e in new:
            if e.kind == "continue":
                outs.append((e.guard, e.state))
            elif e.kind == "break":
                breaks.append((e.guard, e.state))
            else:
                fr.exits.append(e)
        if not outs:
            return False, breaks
        self.join_outs(outs)
        return True, breaks

    def x_For(self, s):
        it = self.ev(s.iter)
        if isinstance(it, PhiV):
            c = it.c
            tmp = fresh_name("%it")

            def run(v):
                self.for_over(v, s)
            self.split(c, lambda: run(it.a), lambda: run(it.b))
            return
        self.for_over(it, s)

    def for_over(self, it, s):
        if isinstance(it, PhiV):
            return self.split(it.c, lambda: self.for_over(it.a, s), lambda: self.for_over(it.b, s))
        segs = self.iteration(it)
        breaks = []
        dead = False

        def side(segs):
            for seg in segs:
                if seg[0] == "v":
                    self.assign(s.target, seg[1])
                    live, br = self.exec_body(s.body)
                    breaks.extend(br)
                    if not live:
                        raise Dead()
                elif seg[0] == "alt":
                    self.split(seg[1], lambda: side(seg[2]), lambda: side(seg[3]))
                else:  # ('sym', N, fn j -> value)
                    N, fn = self.norm(seg[1]) if not seg[1].is_const() else seg[1], seg[2]
                    by_case = self.case_loop(N, fn, side)
                    if by_case:
                        continue
                    breaks.extend(self.generic_loop(s, N, lambda j: self.assign(s.target, fn(j)), None, s.body))
        try:
            side(segs)
        except Dead:
            dead = True
        outs = []
        if not dead:
            try:
                self.exec_block(s.orelse)
                outs.append((self.guard, self.take()))
            except Dead:
                pass
        self.join_outs(outs + breaks)

    def case_loop(self, N, fn, side):
        """A loop whose number of rounds is a choice between constants is unrolled case by case."""
        if N.is_const():
            if N.cval() < 0 or N.cval() > 8 or N.cval().denominator != 1:
                return False
            side([("v", self.settle(fn(P(k)))) for k in range(int(N.cval()))])
            return True
        at = {a for fs, bs in N.t for a, _e in fs}
        if len(at) > 3 or any(bs for _f, bs in N.t) or not all(ATOMS[a].kind in ("gt", "eq", "bl") for a in at):
            return False

        def sub():
            for k, v in list(self.frame.env.items()):
                if isinstance(v, Sc):
                    self.frame.env[k] = self.settle(v)
            n = self.norm(N)
            if not self.case_loop(n, fn, side):
                raise Undecided("loop bound")
        a = Poly.of_atom(ATOMS[min(at)])
        self.split(a, sub, sub)
        return True

    def settle(self, v):
        """A scalar under the current assumptions."""
        p = P_of(v)
        if p is None or p.is_const() or not isinstance(v, Sc):
            return v
        q = self.norm(p) if any(a in self.assume for fs, _b in p.t for a, _e in fs) else p
        return v if q is p else sc(q, ty_of(v))

    def x_While(self, s):
        seq = getattr(s, "_pv_seq", MISSING)
        if seq is MISSING:
            seq = s._pv_seq = rotate(s)
        if seq is not None:
            return self.exec_block(seq)
        # constant tests are unrolled
        rec = None
        breaks = []
        for k in range(200):
            ev_mark = len(self.events)
            head = self.take()
            saved_seq = self.seq
            exits_mark = len(self.frame.exits)
            g0 = self.guard
            c = self.norm(self.truth(self.ev(s.test)))
            if c.is_const() and self.while_limit is None:
                if not c.cval():
                    break
                live, br = self.exec_body(s.body)
                breaks += br
                if not live:
                    self.join_outs(breaks)
                    return
                if br and k > 20:
                    raise Undecided("unbounded loop")
                continue
            if self.while_mode == "generic":
                # roll back the test evaluation
                del self.events[ev_mark:]
                del self.frame.exits[exits_mark:]
                self.put(head)
                self.guard = g0
                br = self.generic_loop(s, None, None, s.test, s.body)
                breaks += br
                break
            # bounded unrolling with recorded iterations
            rec = rec or self._rec(s)
            K = self.while_mode[1]
            if k >= K:
                self.assume_true(ONEP - c)
                rec.exit = self.take()
                rec.exit_cond = c
                break
            if c.is_const() and not c.cval():
                break
            outs_exit = None
            if not c.is_const():
                st = self.take()
                outs_exit = (self._gmul(self.guard, ONEP - c), st)
                self.guard = self._gmul(self.guard, c)
                self.assume_true(c)
            m2 = len(self.events)
            self.iter_no = k
            live, br = self.exec_body(s.body)
            rec.iters.append((c, head, self.take() if live else None, self.events[ev_mark:], br))
            breaks += br
            if not live:
                self.join_outs(breaks)
                return
        else:
            raise Undecided("loop bound")
        outs = []
        try:
            self.exec_block(s.orelse)
            outs.append((self.guard, self.take()))
        except Dead:
            pass
        self.join_outs(outs + breaks)

    def _rec(self, s):
        rec = LoopRec(s, self.pos)
        self.loop_records.append(rec)
        return rec

    def generic_loop(self, node, N, setup, test, body):
        from .loops import generic_loop
        return generic_loop(self, node, N, setup, test, body)

    def iteration(self, it):
        """[('v', value) | ('sym', N, fn)] for an iterable value."""
        if isinstance(it, tuple):
            return [("v", v) for v in it]
        if isinstance(it, str):
            return [("v", ch) for ch in it]
        if isinstance(it, RangeV):
            lo, hi, st = P_of(it.lo), P_of(it.hi), P_of(it.step)
            if not st.is_const():
                raise Undecided("range step")
            k = st.cval()
            d = (hi - lo) if k > 0 else (lo - hi)
            d = poly.resimplify(d)
            if d.is_const() and d.cval() <= max(self.unroll, 0):
                n = max(0, -((-d.cval()) // abs(k)))
                return [("v", sc(lo + k * i, "int")) for i in range(int(n))]
            n = d if abs(k) == 1 else fun("ceil", d.scale(Fr(1) / abs(k)))
            n = poly.pmax(n, P(0))
            return [("sym", n, lambda j: sc(lo + j.scale(k), "int"))]
        if isinstance(it, ARef):
            n = it.dims[0] if it.dims else None
            if n is None:
                self.exit("raise", "TypeError")
            if n.is_const() and n.cval() <= self.unroll:
                return [("v", self.npm.getitem(self, it, i)) for i in range(int(n.cval()))]
            return [("sym", n, lambda j: self.npm.getitem(self, it, Sc(j, "int")))]
        if isinstance(it, LRef):
            return self.seg_iter(self.heap[it.id].segs)
        if isinstance(it, DRef):
            d = self.heap[it.id]
            return self.npm.optsegs(d.items.items()) + list(d.extra)
        if isinstance(it, Model):
            r = it.get(self, "__segs__")
            if r is not MISSING:
                return r(self)
        if isinstance(it, ORef):
            m = self.getattr(it, "__iter__", None)
            if m is not None:
                return self.iteration(self.call(m, [], {}))
        raise Undecided(f"iteration over {it!r} at {self.pos}")

    def seg_iter(self, segs):
        out = []
        for s in segs:
            if s[0] == "v":
                out.append(s)
            elif s[0] == "rows":
                out += self.iteration(s[1])
            elif s[0] == "gen":
                _, N, t, snap = s
                out.append(("sym", N, lambda j, snap=snap, t=t: self.npm.unsnap(self, snap, {aid_of(t): j})))
            elif s[0] == "arr":
                _, dims, ivs, body, dt = s
                arr = self.npm.new_array(self, dims, ivs, body, dt)
                n = dims[0]
                if n.is_const() and n.cval() <= self.unroll:
                    out += [("v", self.npm.getitem(self, arr, i)) for i in range(int(n.cval()))]
                else:
                    out.append(("sym", n, lambda j, arr=arr: self.npm.getitem(self, arr, Sc(j, "int"))))
            elif s[0] == "phi" and all(x[0] == "v" for y in s[2:4] for x in y) and sum(len(y) for y in s[2:4]) <= 8:
                out.append(("alt", s[1], list(s[2]), list(s[3])))
            else:
                raise Undecided("iteration over a joined list")
        return out

    def sequence(self, v, n=None):
        """A finite list of the elements of v."""
        if isinstance(v, ARef) and n is not None and v.dims:
            return [self.npm.getitem(self, v, i) for i in range(n)]
        segs = self.iteration(v)
        if any(s[0] != "v" for s in segs):
            raise Undecided("unpacking a symbolic sequence")
        return [s[1] for s in segs]

    # ----------------------------------------------------------------------------------------------------------- names
    def getname(self, n):
        f = self.frame
        while f is not None:
            if n in f.env:
                v = f.env[n]
                if v is MISSING:
                    raise Undecided(f"unbound local {n}")
                if isinstance(v, PhiV):
                    return self.drop_missing(v, n)
                return v
            f = f.parent
        m = self.frame.module
        if m is not None and n in m.frame.env:
            return m.frame.env[n]
        b = self.npm.BUILTINS.get(n)
        if b is not None:
            return b
        raise Undecided(f"name {n} at {self.pos}")

    def drop_missing(self, v, n):
        if isinstance(v, PhiV):
            if v.a is MISSING:
                return v.b
            if v.b is MISSING:
                return v.a
        return v

    def setname(self, n, v):
        fr = self.frame
        if n in fr.globals_decl:
            fr.module.frame.env[n] = v
            return
        if n in fr.nonlocal_decl:
            f = fr.parent
            while f is not None:
                if n in f.env:
                    f.env[n] = v
                    return
                f = f.parent
        fr.env[n] = v

    # ----------------------------------------------------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(e).__name__} at {self.pos}")
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return Sc(P(v), "float")
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, complex):
            return Unk("complex")
        return v

    def e_Name(self, e):
        return self.getname(e.id)

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.sequence(self.ev(x.value))
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        return self.mklist(self.elts(e.elts))

    def e_Set(self, e):
        return self.new(DictC({self.hkey(v): v for v in self.elts(e.elts)}, "set"), DRef)

    def hkey(self, v):
        p = P_of(v)
        if p is not None:
            return int(p.cval()) if p.is_int() else p
        if isinstance(v, (str, ModV, tuple, type(None), Ref, ClassV, DtV, Model, FuncV, PrimV)):
            return v
        return ("?", id(v))

    def e_Dict(self, e):
        it = {}
        ref = self.new(DictC({}), DRef)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.npm.dict_update(self, ref, self.ev(v))
                continue
            kk = self.ev(k)
            vv = self.ev(v)
            self.npm.dict_set(self, ref, kk, vv)
        return ref

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
                continue
            try:
                val = self.ev(v.value)
            except (Undecided, TooBig):
                parts.append(Unk("str"))
                continue
            spec = v.format_spec
            if spec is not None:
                spec = "".join(str(x.value) for x in spec.values) if all(isinstance(x, ast.Constant) for x in spec.values) else None
            parts.append(self.lift(lambda x: self.formatted(x, spec, v.conversion), val))
        out = []
        for p in parts:
            out += p.parts if isinstance(p, StrV) else [p]
        return "".join(out) if all(isinstance(p, str) for p in out) else StrV(out)

    def formatted(self, v, spec, conversion):
        if conversion == -1 and spec and spec[-1] in "eEfFgGdn%":
            if v is None or isinstance(v, (LRef, DRef, tuple)) or isinstance(v, ARef) and v.dims:
                self.exit("raise", "TypeError")
            if isinstance(v, (str, StrV)) or spec[-1] == "d" and self.npm.P_of(v) is not None and self.npm.ty_of(v) == "float":
                self.exit("raise", "ValueError")
        return v

    def e_Slice(self, e):
        f = lambda x: None if x is None else self.ev(x)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e):
        raise Undecided("starred")

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.setname(e.target.id, v)
        return v

    def e_Lambda(self, e):
        return self.mkfunc(e, "<lambda>")

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.split(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.split(c, lambda: go(i + 1), lambda: self.falsy(v))
            return self.split(c, lambda: self.truthy(v), lambda: go(i + 1))
        return go(0)

    def falsy(self, v):
        return False if (isinstance(v, (Sc, bool)) and ty_of(v) == "bool") else v

    def truthy(self, v):
        return True if (isinstance(v, (Sc, bool)) and ty_of(v) == "bool") else v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        op = type(e.op).__name__
        if op == "Not":
            return sc(ONEP - self.truth(v), "bool")
        return self.lift(lambda x: self.unary(op, x), v)

    def unary(self, op, x):
        if isinstance(x, Unk):
            return x
        if isinstance(x, ARef):
            if op == "USub":
                return self.npm.ew(self, lambda p: -p, x)
            if op == "Invert":
                return self.npm.ew(self, lambda p: ONEP - p, x, dtype="bool")
            return x
        p = P_of(x)
        if p is not None:
            if op == "USub":
                return sc(-p, ty_of(x) if ty_of(x) != "bool" else "int")
            if op == "UAdd":
                return x
            if op == "Invert":
                return sc(ONEP - p, "bool") if ty_of(x) == "bool" and isinstance(x, Sc) else sc(-p - 1, "int")
        if isinstance(x, ORef):
            nm = {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[op]
            m = self.getattr(x, nm, None)
            if m is not None:
                return self.call(m, [], {})
        if isinstance(x, Model):
            r = x.get(self, "__unary__")
            if r is not MISSING:
                return r(self, op)
        return Unk(f"unary {op}")

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        return self.lift(lambda x, y: self.binop(type(e.op).__name__, x, y), a, b)

    def binop(self, op, a, b):
        return self.npm.binop(self, op, a, b)

    def e_Compare(self, e):
        left = self.ev(e.left)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            v = self.lift(lambda x, y: self.compare(type(op).__name__, x, y), left, right)
            acc = v if acc is None else self.land(acc, v)
            left = right
        return acc

    def land(self, a, b):
        return sc(self.truth(a) * self.truth(b), "bool")

    def compare(self, op, a, b):
        return self.npm.compare(self, op, a, b)

    def truth(self, v):
        """Indicator polynomial of the truth value."""
        if isinstance(v, PhiV):
            return phi(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, bool):
            return P(int(v))
        p = P_of(v)
        if p is not None:
            if ty_of(v) in ("bool",) or (p.t and all(all(ATOMS[a].kind in ("gt", "eq", "bl") for a, _e in fs) and not bs for (fs, bs) in p.t) and not p.is_const()):
                return self.norm(p)
            return self.norm(ONEP - eq(p))
        if v is None:
            return ZEROP
        if isinstance(v, (str, tuple)):
            return P(int(len(v) > 0))
        if isinstance(v, LRef):
            n = self.npm.length(self, v)
            return self.truth(n)
        if isinstance(v, DRef):
            d = self.heap[v.id]
            return P(int(len(d.items) > 0)) if not d.extra else opaque_bool("dict", fresh_name("d"))
        if isinstance(v, ARef):
            if not v.dims or all(d == ONEP for d in v.dims):
                return self.truth(Sc(self.npm.elem(self, v, [ZEROP] * len(v.dims)), "bool" if self.heap[v.buf].dtype == "bool" else "float"))
            return opaque_bool("truth of array", fresh_name("a"))
        if isinstance(v, ORef):
            m = self.getattr(v, "__bool__", None)
            if m is not None:
                return self.truth(self.call(m, [], {}))
            m = self.getattr(v, "__len__", None)
            if m is not None:
                return self.truth(self.call(m, [], {}))
            return ONEP
        if isinstance(v, Unk):
            self.incomplete.append(f"branch on {v} at {self.pos}")
            return opaque_bool("unk", v.why, fresh_name("u"))
        if isinstance(v, Model):
            t = v.get(self, "__bool__")
            return ONEP if t is MISSING else self.truth(t)
        return ONEP

    # ------------------------------------------------------------------------------------------------------ attributes
    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def getattr(self, v, name, *default):
        if isinstance(v, PhiV):
            return self.lift(lambda x: self.getattr(x, name, *default), v)
        r = self.getattr0(v, name)
        if r is MISSING:
            if default:
                return default[0]
            if isinstance(v, Unk):
                return Unk(v.why)
            if isinstance(v, (ORef, ClassV)) or v is None or isinstance(v, (str, int, Sc, tuple)) or getattr(v, "strict", False):
                self.event("attr-error", obj=v, name=name)
                self.exit("raise", "AttributeError")
            if isinstance(v, (FuncV, BoundV)) and not name.startswith(("__", "im_")) and isinstance(v if isinstance(v, FuncV) else v.fn, FuncV) \
                    and (v if isinstance(v, FuncV) else v.fn).name not in self.attr_functions:
                self.event("attr-error", obj=v, name=name)
                self.exit("raise", "AttributeError")
            return Unk(f"attribute {name} of {v!r}")
        if isinstance(r, PhiV) and isinstance(v, ORef):
            if r.a is MISSING or r.b is MISSING:
                c = r.c if r.a is MISSING else ONEP - r.c
                if default:
                    return self.join_val(c, default[0], self.drop_missing(r, name))
                self.raise_if(c, "AttributeError")
                r = self.drop_missing(r, name)
        return r

    def getattr0(self, v, name):
        if isinstance(v, StrV) and name in ("strip", "lstrip", "rstrip", "ljust", "rjust", "center"):
            return PrimV("str." + name, lambda I, *a: v)
        if isinstance(v, Unk):
            return MISSING
        if isinstance(v, ORef):
            o = self.heap[v.id]
            if isinstance(o.cls, ClassV):
                c, owner = o.cls.lookup(name)
                if isinstance(c, PropV):
                    return self.call_func(c.fget, [v], {})
                if name in o.fields:
                    return o.fields[name]
                if c is not None:
                    return self.bind(c, v, o.cls)
                for b in o.cls.ext_bases():
                    r = self.npm.ext_attr(self, b.name, v, name)
                    if r is not MISSING:
                        return r
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    return self.new(DictC(dict(o.fields)), DRef)
            return MISSING
        if isinstance(v, ClassV):
            c, owner = v.lookup(name)
            if c is not None:
                if isinstance(c, PrimV) and c.name == "classmethod":
                    return BoundV(c.fn, v)
                if isinstance(c, PrimV) and c.name == "staticmethod":
                    return c.fn
                return c
            if name == "__name__":
                return v.name
            for b in v.ext_bases():
                r = self.npm.ext_attr(self, b.name, None, name)
                if r is not MISSING:
                    return r
            return MISSING
        if isinstance(v, SuperV):
            o = self.heap[v.self_.id]
            mro = o.cls.mro()
            k = mro.index(v.cls)
            for c in mro[k + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], v.self_, o.cls)
            for b in v.cls.ext_bases():
                r = self.npm.ext_attr(self, b.name, v.self_, name)
                if r is not MISSING:
                    return r
            if name == "__init__":
                return PrimV("object.__init__", lambda I, *a, **k: None)
            return MISSING
        if isinstance(v, PkgV):
            return v.mod.frame.env.get(name, MISSING)
        if isinstance(v, Model):
            return v.get(self, name)
        return self.npm.attr(self, v, name)

    def bind(self, c, v, cls):
        if isinstance(c, FuncV):
            return BoundV(c, v)
        if isinstance(c, PrimV) and c.name == "staticmethod":
            return c.fn
        if isinstance(c, PrimV) and c.name == "classmethod":
            return BoundV(c.fn, cls)
        if isinstance(c, PrimV) and c.name == "method":
            return BoundV(c, v)
        return c

    def setattr(self, o, name, v):
        if isinstance(o, PhiV):
            return self.split(o.c, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
        if isinstance(o, ORef):
            c = self.heap[o.id]
            d, _ = c.cls.lookup(name) if isinstance(c.cls, ClassV) else (None, None)
            if isinstance(d, PropV):
                if d.fset is None:
                    self.exit("raise", "AttributeError")
                self.call_func(d.fset, [o, v], {})
                return
            f = dict(c.fields)
            f[name] = v
            self.heap[o.id] = ObjC(c.cls, f)
            self.event("setattr", obj=o, name=name, value=v)
            return
        if isinstance(o, ClassV):
            self.event("class-write", cls=o, name=name)
            o.ns[name] = v
            return
        if isinstance(o, ARef) and name == "shape":
            raise Undecided("shape assignment")
        if isinstance(o, Unk) or isinstance(o, (ModV, FuncV)):
            self.incomplete.append(f"attribute store on {o!r}")
            if isinstance(o, FuncV):
                self.attr_functions.add(o.name)
            return
        if isinstance(o, PkgV):
            o.mod.frame.env[name] = v
            return
        if isinstance(o, Model):
            f = o.get(self, "__setattr__")
            if f is not MISSING:
                return f(self, name, v)
            self.incomplete.append(f"attribute store on {o!r}")
            return
        raise Undecided(f"attribute store on {o!r}")

    def hasattr(self, v, name):
        if isinstance(v, PhiV):
            return phi(v.c, self.hasattr(v.a, name), self.hasattr(v.b, name))
        if isinstance(v, Model):
            h = v.get(self, "__hasattr__")
            if h is not MISSING:
                return h(self, name)
        if isinstance(v, Unk):
            return opaque_bool("hasattr", v.why, name)
        if isinstance(v, ORef):
            o = self.heap[v.id]
            if name in o.fields:
                x = o.fields[name]
                if isinstance(x, PhiV) and (x.a is MISSING or x.b is MISSING):
                    return x.c if x.b is MISSING else ONEP - x.c
                return ONEP
            c, _ = o.cls.lookup(name)
            if c is not None:
                return ONEP
            for b in o.cls.ext_bases():
                if self.npm.ext_attr(self, b.name, v, name) is not MISSING:
                    return ONEP
            return ZEROP
        r = self.getattr0(v, name)
        return ZEROP if r is MISSING else ONEP

    # --------------------------------------------------------------------------------------------------------- subscripts
    def e_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(o, ModV) and o.name.startswith("typing"):
            return o
        k = self.ev(e.slice)
        return self.getitem(o, k)

    def getitem(self, o, k):
        if isinstance(k, tuple) and any(isinstance(x, PhiV) for x in k):
            return self.lift(lambda ob, *ks: self.npm.getitem(self, ob, tuple(ks)), o, *k)
        return self.lift(lambda x, y: self.npm.getitem(self, x, y), o, k)

    def setitem(self, o, k, v):
        if isinstance(k, tuple) and any(isinstance(x, PhiV) for x in k):
            return self.lift(lambda ob, vv, *ks: self.npm.setitem(self, ob, tuple(ks), vv), o, v, *k)
        if isinstance(o, (DRef, LRef)):
            return self.lift(lambda x, y: self.npm.setitem(self, x, y, v), o, k)
        return self.lift(lambda x, y, z: self.npm.setitem(self, x, y, z), o, k, v)

    # ------------------------------------------------------------------------------------------------- comprehensions
    def e_ListComp(self, e):
        return self.comp(e, "list")

    def e_GeneratorExp(self, e):
        return self.comp(e, "list")

    def e_SetComp(self, e):
        r = self.comp(e, "list")
        return self.npm.to_set(self, r)

    def e_DictComp(self, e):
        acc = "%acc" + fresh_name("d")
        ref = self.new(DictC({}), DRef)
        body = ast.Expr(ast.Call(ast.Name("%dictset", ast.Load()), [ast.Name(acc, ast.Load()), e.key, e.value], []))
        self.run_comp(e, acc, ref, body)
        return ref

    def comp(self, e, kind):
        acc = "%acc" + fresh_name("l")
        ref = self.mklist([])
        body = ast.Expr(ast.Call(ast.Name("%append", ast.Load()), [ast.Name(acc, ast.Load()), e.elt], []))
        self.run_comp(e, acc, ref, body)
        return ref

    def run_comp(self, e, acc, ref, body):
        stmt = body
        for g in reversed(e.generators):
            for cond in reversed(g.ifs):
                stmt = ast.If(cond, [stmt], [])
            stmt = ast.For(g.target, g.iter, [stmt], [])
        ast.copy_location(stmt, e)
        ast.fix_missing_locations(stmt)
        # the comprehension scope is a child frame
        fr = Frame(self.frame.module, self.frame, self.frame.func)
        saved = self.frame
        fr.env[acc] = ref
        outer_env = saved.env
        self.frame = fr
        g = self.guard
        try:
            self.exec(stmt)
        finally:
            self.frame = saved
        for x in fr.exits:
            x.state.env = dict(outer_env)
            saved.exits.append(x)

    def e_Await(self, e):
        raise Undecided("await")

    # ----------------------------------------------------------------------------------------------------------- calls
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = self.frame
            while f is not None and not (f.func and "__self__" in f.env):
                f = f.parent
            if f is None:
                raise Undecided("super()")
            return SuperV(f.env["__class__"], f.env["__self__"])
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return SuperV(self.ev(e.args[0]), self.ev(e.args[1]))
        pos = self.pos
        fn = self.ev(e.func)
        args = self.elts(e.args)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, DRef):
                    for kk, vv in self.heap[d.id].items.items():
                        kw[kk] = vv
                    if self.heap[d.id].extra:
                        self.incomplete.append("** of a partially unknown dict")
                else:
                    self.incomplete.append(f"** of {d!r}")
            else:
                kw[k.arg] = self.ev(k.value)
        self.pos = (pos[0], getattr(e, "lineno", pos[1]), pos[2])
        return self.call(fn, args, kw)

    def call(self, fn, args, kw):
        self.calls_seen += 1
        if isinstance(fn, PhiV):
            return self.lift(lambda f: self.call(f, args, kw), fn)
        if isinstance(fn, BoundV):
            return self.call(fn.fn, [fn.self_] + list(args), kw)
        if isinstance(fn, PartialV):
            return self.call(fn.fn, list(fn.args) + list(args), {**fn.kw, **kw})
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kw)
        if isinstance(fn, PrimV):
            if not callable(fn.fn):
                return self.call(fn.fn, args, kw)
            opt = [k for k, x in kw.items() if self.npm.optional(x)]
            if opt:
                x = kw[opt[0]]
                rest = {k: y for k, y in kw.items() if k != opt[0]}
                return self.split(x.c if x.b is MISSING else ONEP - x.c, lambda: self.call(fn, args, {**rest, opt[0]: self.npm.strip(x)}), lambda: self.call(fn, args, rest))
            return fn.fn(self, *args, **kw)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, ModV):
            return self.call_ext(fn.name, args, kw)
        if isinstance(fn, Model):
            f = fn.get(self, "__call__")
            if f is MISSING:
                return Unk(f"call of {fn!r}")
            return f(self, *args, **kw)
        if isinstance(fn, ORef):
            m = self.getattr(fn, "__call__")
            return self.call(m, args, kw)
        if isinstance(fn, Unk):
            self.event("unknown-call", fn=fn.why, args=args, kw=kw)
            self.npm.clobber(self, args, kw)
            self.incomplete.append(f"call of {fn.why}")
            return Unk(fn.why + "()")
        if isinstance(fn, (DtV,)):
            return args[0] if args else Unk("dtype")
        if fn is None or isinstance(fn, (int, str, Sc, ARef)):
            self.exit("raise", "TypeError")
        raise Undecided(f"call of {fn!r} at {self.pos}")

    def call_ext(self, name, args, kw):
        m = self.models.get(name) or self.models.get(self.npm.canon(name))
        if m is None:
            self.event("unknown-call", fn=name, args=args, kw=kw)
            self.npm.clobber(self, args, kw)
            self.incomplete.append(f"call of {name} at {self.pos}")
            return Unk(name + "()")
        # gated alternatives among the arguments are split unless the model wants them raw
        if getattr(m, "raw", False):
            return m(self, *args, **kw)
        keys = list(kw)
        return self.lift(lambda *vs: m(self, *vs[:len(args)], **{k: x for k, x in zip(keys, vs[len(args):]) if x is not MISSING}), *args, *[kw[k] for k in keys])

    def instantiate(self, cls, args, kw):
        h = self.hooks.get(cls.qual)
        if h is not None:
            r = h(self, cls, list(args), dict(kw))
            if r is not NotImplemented:
                return r
        ref = self.new(ObjC(cls, {}))
        self.event("new", cls=cls, obj=ref, args=tuple(args), kw=dict(kw))
        init, owner = cls.lookup("__init__")
        if init is not None:
            self.call(self.bind(init, ref, cls), args, kw)
        else:
            done = False
            for b in cls.ext_bases():
                r = self.npm.ext_attr(self, b.name, ref, "__init__")
                if r is not MISSING:
                    self.call(r, args, kw)
                    done = True
                    break
            if not done and (args or kw):
                raise Undecided(f"construction of {cls.qual}")
        return ref

    def bind_args(self, f, args, kw):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        n = len(params)
        if len(args) > n:
            if a.vararg is None:
                self.event("call-arity", fn=f.qual)
                self.exit("raise", "TypeError")
            env[a.vararg.arg] = tuple(args[n:])
            args = args[:n]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for p, v in zip(params, args):
            if p in kw:
                self.exit("raise", "TypeError")
            env[p] = v
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p in env:
                continue
            if p in kw:
                env[p] = self.optional_arg(kw.pop(p), f.defaults[i - (n - nd)] if i >= n - nd else MISSING)
            elif i >= n - nd:
                env[p] = f.defaults[i - (n - nd)]
            else:
                self.event("call-arity", fn=f.qual, missing=p)
                self.exit("raise", "TypeError")
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = self.optional_arg(kw.pop(p.arg), f.kwdefaults.get(p.arg, MISSING))
            elif f.kwdefaults.get(p.arg, MISSING) is not MISSING:
                env[p.arg] = f.kwdefaults[p.arg]
            else:
                self.exit("raise", "TypeError")
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new(DictC(kw), DRef)
        elif kw:
            self.event("call-arity", fn=f.qual, extra=sorted(kw))
            for x in kw.values():
                self.raise_if((x.c if x.b is MISSING else ONEP - x.c) if self.npm.optional(x) else ONEP, "TypeError")
        return env

    def optional_arg(self, v, default):
        if not self.npm.optional(v):
            return v
        c = v.c if v.b is MISSING else ONEP - v.c
        if default is MISSING:
            self.raise_if(ONEP - c, "TypeError")
            return self.npm.strip(v)
        return self.join_val(c, self.npm.strip(v), default)

    def call_func(self, f, args, kw):
        h = self.hooks.get(f.qual)
        if h is not None:
            r = h(self, f, list(args), dict(kw))
            if r is not NotImplemented:
                return r
        if self.depth > self.MAXDEPTH or sum(1 for x in self.callstack if x[0] is f.node) > 4:
            raise Undecided(f"recursion in {f.qual}")
        self.funcs_seen.add(f.qual)
        if f.qual in self.watch:
            self.event("call", fn=f.qual, args=tuple(args), kw=dict(kw), heap=dict(self.heap))
        is_gen = not isinstance(f.node, ast.Lambda) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))
        env = self.bind_args(f, args, kw)
        if is_gen:
            raise Undecided(f"generator {f.qual}")
        fr = Frame(f.module, f.frame if f.frame is not f.module.frame else None, f.qual.split(".", 1)[1] if "." in f.qual else f.qual)
        fr.env = env
        if f.owner is not None and args:
            env["__class__"] = f.owner
            env["__self__"] = args[0]
        saved, pos = self.frame, self.pos
        outer_guard = self.guard
        self.callstack.append((f.node, outer_guard))
        self.frame, self.guard = fr, ONEP
        self.depth += 1
        try:
            try:
                if isinstance(f.node, ast.Lambda):
                    v = self.ev(f.node.body)
                    fr.exits.append(Exit("return", self.guard, v, self.take(), self.pos))
                else:
                    self.exec_block(f.node.body)
                    fr.exits.append(Exit("return", self.guard, None, self.take(), self.pos))
            except Dead:
                pass
        finally:
            self.depth -= 1
            self.callstack.pop()
            self.frame = saved
            self.guard = outer_guard
            self.pos = pos
        rets = [e for e in fr.exits if e.kind == "return"]
        raises = [e for e in fr.exits if e.kind == "raise"]
        for e in raises:
            st = St(e.state.heap, dict(saved.env), e.state.facts, e.state.assume, e.state.truths)
            saved.exits.append(Exit("raise", self._gmul(outer_guard, e.guard), e.value, st, e.pos))
        if not rets:
            raise Dead()
        val, st = rets[-1].value, rets[-1].state
        for e in reversed(rets[:-1]):
            val = self.join_val(e.guard, e.value, val)
            st = self.join_states(e.guard, e.state, st)
        env0 = saved.env
        self.put(st, env=False)
        saved.env = env0
        if raises:
            ng = sum((e.guard for e in raises), ZEROP)
            self.guard = self._gmul(outer_guard, ONEP - ng)
            self.truths.append(ONEP - ng)
        return val

    # --------------------------------------------------------------------------------------------------------- drivers
    def run(self, thunk):
        """Runs thunk() with fresh exits; returns (value or MISSING, exits)."""
        self.base = list(FACTS)     # what is known whatever the run does
        fr = Frame(None)
        saved = self.frame
        self.frame = fr
        try:
            try:
                v = thunk()
            except Dead:
                v = MISSING
        finally:
            self.frame = saved
        return v, fr.exits

    def loopidx(self):
        return tuple(l[0] for l in self.loops)

    def site_name(self, base):
        """A fresh name; inside a loop the same one in every analysis pass over the body."""
        if not self.passes:
            return fresh_name(base)
        path, counts = self.passes[-1]
        k = (base, self.pos)
        counts[k] = counts.get(k, 0) + 1
        return self.site_names.setdefault(path + (k, counts[k]), fresh_name(base))

    def loop_path(self, node):
        if not self.passes:
            self.nloops += 1
            return (id(node), self.nloops)
        path, counts = self.passes[-1]
        k = ("loop", id(node))
        counts[k] = counts.get(k, 0) + 1
        return path + (k, counts[k])

    def fresh(self, base, dims, dtype=None, pos=None, **info):
        """A fresh tensor (indexed by the enclosing loop counters as well); returns (name, element function)."""
        name = self.site_name(base)
        pre = self.loopidx()
        t = tensor(name, tuple(dims) + tuple(l[1] for l in self.loops))
        for k, v in info.items():
            setattr(t, k, v)
        return name, lambda idx: el(name, tuple(idx) + pre)


def seg_eq(a, b):
    if a is b:
        return True
    if a[0] != b[0] or len(a) != len(b):
        return False
    return all((x is y) or (isinstance(x, Poly) and x == y) or veq(x, y) if not isinstance(x, (Poly, str)) else x == y for x, y in zip(a[1:], b[1:]))
