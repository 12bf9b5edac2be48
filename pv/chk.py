"""Obligations, verdicts and evidence of one property check."""
import json
import os
import sys
import time
import traceback
from . import poly, witness
from .poly import P, Poly, fresh_index, decide_zero, show, with_facts, TooBig, FACTS
from .values import *
from .interp import Interp

REPO = os.environ.get("PV_REPO", "/repo")
SRC = os.path.join(REPO, "src", "primate")
PROPS, TECH = {}, {}
ONEP, ZEROP = Poly.const(1), Poly.const(0)


class Anchor(Exception):
    """A public name the property is about does not exist any more."""


def prop(pid, rule, level="other", tech=None):
    def deco(f):
        PROPS[pid] = (f, rule, level)
        if tech:
            TECH[pid] = tech
        return f
    return deco


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []          # (rule, construct, status, detail)
        self.funcs = set()
        self.calls = 0
        self.notes = []
        self.interps = []
        self.where = "?"
        self.t0 = time.monotonic()

    def enough(self):
        """The verdict is settled and the report long enough."""
        return sum(o[2] == "violated" for o in self.obs[-400:]) >= 15

    # ------------------------------------------------------------------------------------------------------- interpreters
    def interp(self, **kw):
        I = Interp(SRC, **kw)
        self.interps.append(I)
        return I

    def public(self, I, mod, name):
        try:
            return I.public(mod, name)
        except KeyError:
            raise Anchor(f"primate.{mod}.{name}")

    def member(self, cls, name):
        v, _ = cls.lookup(name)
        if v is None:
            raise Anchor(f"{cls.qual}.{name}")
        return v

    # -------------------------------------------------------------------------------------------------------- obligations
    def ob(self, rule, construct, status, detail=""):
        self.obs.append((rule, construct, status, detail))
        return status in ("ok", "ok-eval")

    def ok(self, rule, construct, detail=""):
        return self.ob(rule, construct, "ok", detail)

    def bad(self, rule, construct, detail=""):
        return self.ob(rule, construct, "violated", detail)

    def undecided(self, rule, construct, detail=""):
        return self.ob(rule, construct, "undecided", detail)

    def require(self, rule, construct, cond, detail=""):
        return self.ob(rule, construct, "ok" if cond else "violated", detail)

    def zero(self, rule, construct, d, facts=(), truths=(), detail="", fixed=None, budget=None, base=None):
        """The polynomial d is identically zero (under the facts; with base, under those instead of what holds where the run went on)."""
        if base is not None:
            return poly.with_base(base, lambda: self.zero(rule, construct, d, facts, truths, detail, fixed, budget))
        if isinstance(d, (int, float)):
            d = P(d)
        try:
            return with_facts(list(facts), lambda: self._zero(rule, construct, d, truths, detail, fixed, budget))
        except TooBig as e:
            return self.undecided(rule, construct, f"{detail} term too large")

    def _zero(self, rule, construct, d, truths, detail, fixed, budget=None):
        ok = False
        if not d.t:
            return self.ok(rule, construct, detail)
        t = witness.tainted(d)
        if not t:
            w, v = witness.refute(d, want=3, seed=self.seed, truths=truths, fixed=fixed)
            if w is not None:
                return self.bad(rule, construct, f"{detail}: difference {show(d, 6)[:400]} is {v:.4g} at {witness.describe(w)}")
        try:
            ok, w = poly.budget((budget or 6) if self.tier == "quick" else 60, lambda: decide_zero(d))
        except (TooBig, ZeroDivisionError):
            ok = False
        if ok:
            if self.tier == "thorough":
                w, v = witness.refute(d, want=6, seed=self.seed, truths=truths, fixed=fixed)
                if w is not None:
                    return self.undecided(rule, construct, f"{detail} INTERNAL: proof contradicted by evaluation at {witness.describe(w)}")
            return self.ok(rule, construct, detail)
        if t:
            return self.undecided(rule, construct, f"{detail} depends on unmodelled {sorted(t)[:3]}")
        w, v = witness.refute(d, seed=self.seed, truths=truths, fixed=fixed)
        if w is not None:
            return self.bad(rule, construct, f"{detail}: difference {show(d, 6)[:400]} is {v:.4g} at {witness.describe(w)}")
        if v >= 10:
            return self.ob(rule, construct, "ok-eval", f"{detail} (equal under {v} interpretations; not reduced to a common normal form)")
        return self.undecided(rule, construct, f"{detail} neither proved nor refuted ({v} interpretations): {show(d, 6)[:300]}")

    def eq(self, rule, construct, a, b, **kw):
        return self.zero(rule, construct, P(a) - P(b), **kw)

    def never(self, rule, construct, guard, **kw):
        """The indicator guard never holds."""
        return self.zero(rule, construct, guard, **kw)

    def same(self, rule, construct, I, a, b, guard=ONEP, detail="", **kw):
        """Two abstract values are equal (arrays: same shape and elements)."""
        if isinstance(a, PhiV):
            r = self.same(rule, construct, I, a.a, b, guard * a.c, detail, **kw)
            return self.same(rule, construct, I, a.b, b, guard * (ONEP - a.c), detail, **kw) and r
        if isinstance(b, PhiV):
            r = self.same(rule, construct, I, a, b.a, guard * b.c, detail, **kw)
            return self.same(rule, construct, I, a, b.b, guard * (ONEP - b.c), detail, **kw) and r
        if guard.is_const() and not guard.cval():
            return True
        if isinstance(a, Unk) or isinstance(b, Unk):
            return self.undecided(rule, construct, f"{detail} unmodelled value {a if isinstance(a, Unk) else b}")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return self.zero(rule, construct, guard, detail=f"{detail} tuple lengths {len(a)} and {len(b)}", **kw)
            return all([self.same(rule, construct, I, x, y, guard, f"{detail}[{k}]", **kw) for k, (x, y) in enumerate(zip(a, b))])
        if isinstance(a, ARef) or isinstance(b, ARef):
            if not (isinstance(a, ARef) and isinstance(b, ARef)):
                s, t = (a, b) if isinstance(a, ARef) else (b, a)
                if P_of(t) is not None and len(s.dims) == 0:
                    return self.zero(rule, construct, guard * (I.npm.elem(I, s, []) - P_of(t)), detail=detail, **kw)
                return self.zero(rule, construct, guard, detail=f"{detail} array against {t!r}", **kw)
            if len(a.dims) != len(b.dims):
                return self.zero(rule, construct, guard, detail=f"{detail} ranks {len(a.dims)} and {len(b.dims)}", **kw)
            r = True
            for k, (x, y) in enumerate(zip(a.dims, b.dims)):
                if x != y:
                    r = self.zero(rule, construct, guard * (x - y), detail=f"{detail} axis {k} length", **kw) and r
            if not r:
                return False
            ix = [fresh_index(d) for d in a.dims]
            if self.empty(a):
                return self.ok(rule, construct, detail)
            return self.zero(rule, construct, guard * (I.npm.elem(I, a, ix) - I.npm.elem(I, b, ix)), detail=detail, **kw)
        pa, pb = P_of(a), P_of(b)
        if pa is not None and pb is not None:
            return self.zero(rule, construct, guard * (pa - pb), detail=detail, **kw)
        if isinstance(a, LRef) and isinstance(b, LRef):
            return self.same(rule, construct, I, I.npm.asarr(I, a), I.npm.asarr(I, b), guard, detail, **kw)
        if veq(a, b):
            return self.ok(rule, construct, detail)
        return self.zero(rule, construct, guard, detail=f"{detail} {a!r} against {b!r}", **kw)

    def empty(self, a):
        return any(d.is_const() and d.cval() == 0 for d in a.dims)

    def no_raise(self, rule, construct, exits, detail="", **kw):
        """None of the exits of a run is an exception."""
        r = True
        for e in exits:
            if e.kind == "raise":
                # under what was known on the way to the exception, not what holds where the run went on
                r = poly.with_base(e.state.facts, lambda: self.zero(rule, construct, e.guard, detail=f"{detail} raises {e.value} at {e.pos[0]}:{e.pos[1]}", **kw)) and r
        return r

    def attempt(self, rule, construct, thunk):
        """Runs an analysis step; constructs outside the modelled language leave the obligation undecided."""
        if self.enough():
            return MISSING
        if time.monotonic() - self.t0 > (640 if self.tier == "quick" else 5000):
            self.undecided(rule, construct, "not analysed: out of time")
            return MISSING
        try:
            return thunk()
        except (Undecided, TooBig) as e:
            self.undecided(rule, construct, f"not modelled: {e}")
        except Anchor:
            raise
        except Dead:
            self.undecided(rule, construct, "no continuation")
        except Exception as e:
            if os.environ.get("PV_DEBUG"):
                traceback.print_exc()
            self.undecided(rule, construct, f"analysis error {type(e).__name__}: {e}")
        return MISSING

    # ------------------------------------------------------------------------------------------------------------ verdict
    def summary(self):
        st = {}
        for o in self.obs:
            st[o[2]] = st.get(o[2], 0) + 1
        for I in self.interps:
            self.funcs |= I.funcs_seen
            self.calls += I.calls_seen
        return st


def load_known():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                d = dict(x.split("=", 1) for x in line[9:].split(" | ") if "=" in x)
                out.append(d)
    return out


def run(pid, tier="quick", seed=1, root=None):
    sys.setrecursionlimit(20000)
    t0 = time.time()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    f, rule, level = PROPS[pid]
    ck = Check(pid, tier, seed)
    witness.LIMIT = 2.0 if tier == "quick" else 30.0
    code = 0
    try:
        f(ck)
    except Anchor as e:
        print(f"ERROR property={pid} public name {e} not found: nothing was analysed")
        code = 2
    st = ck.summary()
    viol = [o for o in ck.obs if o[2] == "violated"]
    known = [k for k in load_known() if k.get("property") == pid]
    hit, new = [], []
    for o in viol:
        k = next((k for k in known if k.get("rule") == o[0] and k.get("construct") == o[1]), None)
        (hit if k else new).append((o, k))
    for k in known:
        if any(kk is k for _o, kk in hit):
            print(f"KNOWN-FINDING: property={pid} {k.get('what', '')}")
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    seen = {}
    for o in ck.obs:
        seen.setdefault((o[0], o[1]), []).append(o)
    viols = [{"rule": o[0], "construct": o[1], "detail": o[3]} for o, _k in new]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level,
          "coverage": {"explanation": rule, "functions_analysed": sorted(ck.funcs), "calls_resolved": ck.calls,
                       "obligations": len(ck.obs), "discharged": st.get("ok", 0) + st.get("ok-eval", 0),
                       "proved_by_normal_form": st.get("ok", 0), "agreed_by_evaluation": st.get("ok-eval", 0),
                       "undecided": st.get("undecided", 0), "known_findings": len(hit),
                       "undecided_detail": [f"{o[0]} @ {o[1]}: {o[3]}" for o in ck.obs if o[2] == "undecided"][:40],
                       "rules": [{"rule": k[0], "construct": k[1], "instances": len(v), "status": sorted({x[2] for x in v})} for k, v in sorted(seen.items())],
                       "notes": ck.notes},
          "wall_s": round(time.time() - t0, 2), "violations": viols}
    path = os.path.join(here, "evidence", f"{pid}.json")
    with open(path, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{pid}: {len(ck.obs)} obligations, " + ", ".join(f"{v} {k}" for k, v in sorted(st.items())) + f"; {len(ck.funcs)} functions analysed, {time.time() - t0:.1f} s")
    if os.environ.get("PV_VERBOSE"):
        for o in ck.obs:
            print("  ", o)
    for o in ck.obs:
        if o[2] == "undecided":
            print(f"  undecided: {o[0]} @ {o[1]}: {o[3][:300]}")
    for o, _k in new[:20]:
        print(f"  violated: {o[0]} @ {o[1]}: {o[3][:600]}")
    if new:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if not ck.obs and code == 0:
        print(f"ERROR property={pid}: no obligation was generated")
        return 2
    return code
