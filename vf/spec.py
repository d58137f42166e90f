"""Contract vocabulary used by the property modules."""
import z3
from .ast import load, Unsupported, ExtractionError
from .engine import Exec, Ref, State, Dead, Obligation
from .loops import Fold, Cand, simplify_select, consts
from .values import *
from .types import strip


class Ctx:
    """One proof unit: executions, their obligations and lemmas."""

    def __init__(self, name, files, tier):
        self.name, self.files, self.tier = name, files, tier
        self.execs = []
        self.notes = []
        self.assumptions = []
        self.reach = []

    def exec(self, fp="real", files=None, track_overflow=False, **kw):
        ex = Exec([load(f) for f in (files or self.files)], fp=fp, **kw)
        ex.track_overflow = track_overflow
        self.execs.append(ex)
        return ex

    def finish(self):
        for ex in self.execs:
            if getattr(ex, "_pending_reach", None):
                for nm, pc in ex._pending_reach:
                    self._reach(ex, nm, pc)
            ex.discharge()

    def _reach(self, ex, nm, pc):
        r, m = ex.check(pc, z3.BoolVal(False), 3000)
        o = Obligation("reachable: " + nm, z3.BoolVal(True), [], kind="vacuity")
        o.status = "refuted" if r == "proved" else "proved"
        ex.obls.append(o)


def obj(ex, t, hint):
    """Root holding an arbitrary object of type t; returns (Ref, value)."""
    v = ex.sym(t, hint)
    loc = ex.new_root(v, hint)
    return Ref(loc), v


def put(ex, ref, v):
    ex.st.roots[ref.loc.root] = ex.put(ex.st.roots[ref.loc.root], ref.loc.path, v)


def ptr(ex, ref):
    v = ex.nav(ex.root_val(ex.st, ref.loc.root), ref.loc.path)
    return ex.addr_of_loc(ref.loc, v.cls if isinstance(v, Struct) else "?")


def call(ex, name, this=None, args=(), nth=0, sig=None, fn=None):
    """Execute the real function from ex.st.  Returns its value; ex.st is the
    post state, or None when no path returns."""
    f = fn or ex.index.find(name, nth, sig)
    if f is None:
        raise ExtractionError("function %s not found" % name)
    n = len(ex.aborts)
    try:
        r = ex.invoke(f, this, list(args))
    except Dead:
        ex.st = None
        r = None
    ex.call_aborts = ex.aborts[n:]
    return r


def post(ex, name, goal):
    """Postcondition in the current state."""
    if ex.st is None:
        o = Obligation(name + " (no path returns)", z3.BoolVal(False), [], kind="post")
        o.status = "refuted"
        ex.obls.append(o)
        return
    ex.oblige(name, goal, kind="post")


def reach(ex, name, cond=None):
    if ex.st is None:
        o = Obligation("reachable: " + name, z3.BoolVal(False), [], kind="vacuity")
        o.status = "refuted"
        ex.obls.append(o)
        return
    ex._pending_reach = getattr(ex, "_pending_reach", [])
    ex._pending_reach.append((name, list(ex.st.pc) + ([cond] if cond is not None else [])))


def no_abort(ex, name):
    """No path ends in a failed CHECK / exception."""
    for s in list(ex.aborts) + list(ex.throws):
        o = Obligation("no abort: " + name, z3.BoolVal(False), list(s.pc), kind="no-abort")
        ex.obls.append(o)
    if not ex.aborts and not ex.throws:
        o = Obligation("no abort: " + name, z3.BoolVal(True), [], kind="no-abort")
        ex.obls.append(o)


def aborts_iff(ex, name, cond):
    """The run ends in a failed CHECK exactly when cond (over the inputs)."""
    for s in ex.aborts:
        ex.obls.append(Obligation("abort only if: " + name, cond, list(s.pc), kind="no-abort"))
    if ex.st is not None:
        ex.obls.append(Obligation("abort if: " + name, z3.Not(cond), list(ex.st.pc), kind="no-abort"))


def lemma(ex, name, hyps, goal):
    ex.obls.append(Obligation("lemma: " + name, goal, list(hyps), kind="lemma"))


def state_val(ex, ref):
    return ex.nav(ex.root_val(ex.st, ref.loc.root), ref.loc.path)


def frame(ex, name, before, after, except_=()):
    """Frame condition: every field outside except_ is unchanged."""
    goals = []
    for k, v in before.f.items():
        if k in except_:
            continue
        w = after.f.get(k)
        if w is v:
            continue
        try:
            goals.append(eq(v, w))
        except Exception:
            goals.append(z3.BoolVal(False))
    post(ex, name, z3.And(*goals) if goals else z3.BoolVal(True))


def index_fold(ex, name, keep, val, init=None):
    """Fold collecting val(k) for the indices k with keep(k), in order."""
    proto = val(z3.IntVal(0))
    el = lift_default(norm(proto))
    s0 = init if init is not None else Seq("vector", z3.IntVal(0), el)

    def step(s, k):
        x = val(k)
        pushed = Seq(s.kind, s.n + 1, sto(s.el, s.n, norm(x)))
        return ite(keep(k), pushed, s)
    f = Fold(ex, name, s0, step)
    ex.folds.append(f)
    return f


def make(ex, cls, args=(), sig=None):
    """Runs the real constructor; returns (Ref, value) or (None, None) when no
    path returns."""
    rec = ex.index.record(cls)
    if rec is None:
        raise ExtractionError("class %s not found" % cls)
    name = rec.name + "::" + rec.name
    fn = ex.index.find(name, 0, sig)
    if fn is None:
        raise ExtractionError("constructor of %s not found" % cls)
    n = len(ex.aborts)
    o = ex.raw_object(rec)
    loc = ex.new_root(o, rec.name)
    try:
        ex.ctor_into(fn, rec, Ref(loc), list(args))
    except Dead:
        ex.st = None
        ex.call_aborts = ex.aborts[n:]
        return None, None
    ex.call_aborts = ex.aborts[n:]
    r = Ref(loc)
    return r, state_val(ex, r)


def ring_eq(ex, name, a, b, ring):
    """Polynomial identity a == b: decided by normalisation (vf/ring.py), left
    to the solver when that does not settle it."""
    if ex.st is None:
        return post(ex, name, z3.BoolVal(False))
    o = Obligation(name, a == b, list(ex.st.pc), kind="post")
    if ring.equal(a, b):
        o.status = "proved"
        o.reason = "ring"
    ex.obls.append(o)


def sel_map(m, ks):
    """(presence, value) of a map at a flattened key."""
    from .types import msel
    return msel(m.pres, ks), rebuild(m.el, [msel(a, ks) for a in leaves(m.el)])


def forall(vs, body, *pats):
    """Quantified formula; terms that cannot be patterns are left out."""
    return z3.ForAll(vs, body, patterns=[p for p in pats if usable_pattern(p)])


def usable_pattern(p):
    todo = [p]
    while todo:
        t = todo.pop()
        if z3.is_bool(t) and t.num_args() and t.decl().kind() not in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
            return False
        if z3.is_quantifier(t) or z3.is_app_of(t, z3.Z3_OP_ITE):
            return False
        todo.extend(t.children())
    return True
