"""Verification-condition generator: symbolic execution with state merging."""
import re
import time
import z3
from .ast import Node, Unsupported, FUNCS, TU
from .values import *
from .types import Types, strip, is_ref, template, base_name, int_info, msel, msto, lift_leaf
from .num import Num, wrap
from .index import Index


class Dead(Exception):
    """The current path ended inside an expression."""


class State:
    __slots__ = ("roots", "pc")

    def __init__(self, roots=None, pc=None):
        self.roots = roots if roots is not None else {}
        self.pc = pc if pc is not None else []

    def copy(self):
        return State(dict(self.roots), list(self.pc))


class Ref:
    """lvalue: guarded set of locations."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts if isinstance(alts, list) else [(None, alts)]

    def map(self, fn):
        return Ref([(g, fn(l)) for g, l in self.alts])

    @property
    def loc(self):
        if len(self.alts) != 1:
            raise Unsupported("ambiguous location")
        return self.alts[0][1]

    def __repr__(self):
        return "Ref%s" % self.alts


class Frame:
    def __init__(self, fn, this, parent=None):
        self.fn = fn
        self.this = this          # Ref or None
        self.parent = parent      # enclosing frame (lambdas)
        self.vars = {}
        self.returns = []
        self.loops = []           # stack of (breaks, continues, scope depth)
        self.scopes = []
        self.caller = None

    def lookup(self, did):
        f = self
        while f is not None:
            if did in f.vars:
                return f.vars[did]
            f = f.parent
        return None


class Obligation:
    __slots__ = ("name", "goal", "pc", "where", "status", "time", "model", "reason", "kind", "nax")

    def __init__(self, name, goal, pc, where="", kind="post"):
        self.name, self.goal, self.pc, self.where, self.kind = name, goal, pc, where, kind
        self.status = None
        self.time = 0.0
        self.model = None
        self.reason = ""


from .loops import LoopMixin          # noqa: E402
from .lib import LibMixin             # noqa: E402
from .eigen import EigenMixin         # noqa: E402
from .stream import StreamMixin       # noqa: E402
from .xml import XmlMixin             # noqa: E402
from .locks import LockMixin          # noqa: E402
from .tasks import TaskMixin          # noqa: E402


class Exec(LoopMixin, LibMixin, EigenMixin, StreamMixin, XmlMixin, LockMixin, TaskMixin):
    patience = 1              # multiplies every solver time limit

    def __init__(self, tus, fp="real", contracts=None, safety=True, unroll=None,
                 timeout=20000):
        self.index = Index(tus)
        self.fp = fp
        self.axioms = []
        self.num = Num(fp, self.axioms)
        self.num.within = self.within
        self._within = {}
        self.types = Types(self.index, fp)
        self.contracts = contracts or {}
        self.safety = safety
        self.unroll = unroll
        self.timeout = timeout
        self.st = State()
        self.base = {}            # heap roots (initial arrays)
        self.addr = {}            # address constant -> Loc
        self.addr_cls = {}
        self.next_addr = -1
        self.cnt = 0
        self.obls = []
        self.dry = 0
        self.wlog = None
        self.rlog = None
        self.critical = 0
        self.frame = Frame(None, None)
        self.folds = []
        self.extra_cands = []
        self.aborts = []
        self.throws = []
        self.functions = set()    # repo functions whose body was executed
        self.assumed = set()      # library contracts used
        self.notes = set()
        self.depth = 0
        self.loops_seen = 0
        self.houdini = {"cands": 0, "kept": 0}
        self.solver_time = 0.0
        self.queries = 0
        self.timeouts = 0
        self.accesses = []        # of the guarded object's fields (vf/locks.py)
        self.volatile = set()     # fields of the guarded object set by other threads
        self.cut = 0              # depth of loops cut by invariants
        self.loopinfo = []
        self.literals = set()
        self.heap_alloc = {}
        self.parallel_checks = 0
        self.track_overflow = False

    # ------------------------------------------------------------- symbols
    def fresh_name(self, hint):
        self.cnt += 1
        return "%s!%d" % (hint, self.cnt)

    def fresh(self, sort, hint="t"):
        return z3.Const(self.fresh_name(hint), sort)

    def sym(self, t, hint, pc=None):
        """Fresh symbolic value of C++ type t with its range facts."""
        facts = []

        def leaf(sort, h, rng):
            c = z3.Const(self.fresh_name(h), sort)
            if rng is not None:
                facts.append(self.range_fact(c, rng))
            return c
        v = self.types.shape(t, leaf, hint)
        (self.st.pc if pc is None else pc).extend(facts)
        return v

    def range_fact(self, c, rng):
        lo, hi = rng
        s = c.sort()
        if s == Int:
            return z3.And(c >= lo, c <= hi)
        ks = []
        t = c
        while isinstance(t.sort(), z3.ArraySortRef):
            k = z3.Const("k!%d" % len(ks), t.sort().domain())
            ks.append(k)
            t = z3.Select(t, k)
        if t.sort() != Int:
            return z3.BoolVal(True)
        return z3.ForAll(ks, z3.And(t >= lo, t <= hi), patterns=[t])

    def default(self, t, hint="d"):
        """Default-initialised value: containers empty, scalars arbitrary."""
        arr = []

        def leaf(sort, h, rng):
            if isinstance(sort, z3.ArraySortRef):
                return default_of(sort)
            if h.endswith(".len") or h.endswith(".size") or h.endswith(".cols") or h.endswith(".rows"):
                return z3.IntVal(0)
            if sort == Str:
                return str_term("")
            if sort == Bool and h.endswith(".has"):
                return z3.BoolVal(False)
            c = z3.Const(self.fresh_name("uninit_" + h), sort)
            if rng is not None and sort == Int:
                self.axioms.append(self.range_fact(c, rng))
            return c
        v = self.types.shape(t, leaf, hint)
        return self._null_ptrs(v)

    def _null_ptrs(self, v):
        if isinstance(v, Ptr):
            return v if isinstance(v.t.sort(), z3.ArraySortRef) else Ptr(z3.IntVal(0), v.cls)
        if isinstance(v, Struct):
            if v.cls in ("PointXYZ", "PointXYZI", "PCLHeader", "PointCloud"):
                return Struct(v.cls, {k: tmap(lambda t: default_of(t.sort()), x) if z3.is_expr(x)
                                      else self._null_ptrs(x) for k, x in v.f.items()})
            return Struct(v.cls, {k: self._null_ptrs(x) for k, x in v.f.items()})
        return v

    def zero(self, t, hint="z"):
        return self.types.shape(t, lambda s, h, r: default_of(s), hint)

    # ------------------------------------------------------------- memory
    def new_root(self, v, hint="tmp"):
        name = self.fresh_name(hint)
        self.st.roots[name] = norm(v)
        return Loc(name)

    def new_object(self, v, hint="obj", cls=None):
        """Allocate an object; returns its Ptr."""
        if self.cut:
            return self.heap_object(v, cls or v.cls)
        loc = self.new_root(v, hint)
        return self.addr_of_loc(loc, cls or (v.cls if isinstance(v, Struct) else "?"))

    def heap_object(self, v, cls):
        """Object allocated in the body of a cut loop: its address is the next
        of a counter, so that objects of different iterations differ."""
        a = self.st.roots["alloc"]
        self.write_loc(Loc("alloc"), z3.simplify(a + 1))
        self.write_loc(Loc("heap:" + cls, (("i", a),)), v)
        return Ptr(a, cls)

    def addr_of_loc(self, loc, cls):
        for a, l in self.addr.items():
            if l == loc:
                return Ptr(z3.IntVal(a), cls)
        a = self.next_addr
        self.next_addr -= 1
        self.addr[a] = loc
        self.addr_cls[a] = cls
        return Ptr(z3.IntVal(a), cls)

    def root_val(self, st, root):
        if root in st.roots:
            return st.roots[root]
        if root.startswith("heap:"):
            if root not in self.base:
                cls = root[5:]
                facts = []

                def leaf(sort, h, rng):
                    c = z3.Const("H_" + h, z3.ArraySort(Int, sort))
                    if rng is not None:
                        facts.append(self.range_fact(c, rng))
                    return c
                el = self.types.shape(cls, leaf, cls)
                self.axioms.extend(facts)
                self.base[root] = Seq("heap", z3.IntVal(-1), el)
            return self.base[root]
        if root.startswith("global:") and root in self.base:
            return self.base[root]
        raise Unsupported("unknown root " + root)

    def nav(self, v, path, st=None):
        for k, x in path:
            v = self.step(v, k, x)
        return v

    def step(self, v, k, x):
        if k == "f":
            if isinstance(v, Struct):
                return v.get(x)
            raise Unsupported("field %s of %r" % (x, v))
        if k == "i":
            if isinstance(v, Seq):
                return sel(v.el, x)
            raise Unsupported("index into %r" % (v,))
        if k == "m":
            ks = x
            return tmap(lambda a: msel(a, ks), v.el)
        if k == "e":
            if isinstance(v, Mat):
                if isinstance(x, int):
                    return v.e[x]
                r = v.e[-1]
                for i in range(len(v.e) - 2, -1, -1):
                    r = z3.If(x == i, v.e[i], r)
                return r
            if isinstance(v, Seq):
                return sel(v.el, x if z3.is_expr(x) else z3.IntVal(x))
            raise Unsupported("coefficient of %r" % (v,))
        if k == "b":
            if not isinstance(v, Mat):
                raise Unsupported("block of %r" % (v,))
            r0, c0, nr, nc = x
            if r0 < 0 or c0 < 0 or r0 + nr > v.r or c0 + nc > v.c:
                raise Unsupported("block out of range")
            return Mat(nr, nc, [v.at(r0 + i, c0 + j) for i in range(nr) for j in range(nc)], v.sc)
        if k == "dr":
            return Seq("dynmat", v.n, Mat(x[1], 1, v.el.e[x[0]:x[0] + x[1]], v.el.sc))
        raise Unsupported("path step " + k)

    def put(self, v, path, new):
        if not path:
            new = norm(new)
            if isinstance(v, Mat) and isinstance(new, Mat) and (v.r, v.c) != (new.r, new.c):
                if v.r * v.c == new.r * new.c:
                    return Mat(v.r, v.c, new.e, v.sc)
                raise Unsupported("matrix size mismatch in assignment")
            if isinstance(v, Struct) and isinstance(new, Struct) and v.cls != new.cls \
                    and set(v.f) != set(new.f):
                # slicing assignment
                return Struct(v.cls, {k: new.f.get(k, x) for k, x in v.f.items()})
            return new
        (k, x), rest = path[0], path[1:]
        if k == "f":
            return v.set(x, self.put(v.get(x), rest, new))
        if k == "i":
            if not isinstance(v, Seq):
                raise Unsupported("store into %r" % (v,))
            cur = sel(v.el, x) if rest else None
            nv = self.put(cur, rest, new) if rest else norm(new)
            return Seq(v.kind, v.n, sto(v.el, x, nv))
        if k == "m":
            cur = tmap(lambda a: msel(a, x), v.el)
            nv = norm(self.put(cur, rest, new))
            le, ln = leaves(v.el), leaves(nv)
            return Map(v.kind, v.kproto, v.pres,
                       rebuild(v.el, [msto(a, list(x), b) for a, b in zip(le, ln)]), v.size)
        if k == "e":
            if rest:
                raise Unsupported("path below coefficient")
            if isinstance(v, Seq):
                return Seq(v.kind, v.n, sto(v.el, x if z3.is_expr(x) else z3.IntVal(x), new))
            if isinstance(x, int):
                e = list(v.e)
                e[x] = new
                return Mat(v.r, v.c, e, v.sc)
            return Mat(v.r, v.c, [z3.If(x == i, new, t) for i, t in enumerate(v.e)], v.sc)
        if k == "b":
            r0, c0, nr, nc = x
            sub = self.step(v, k, x)
            nb = self.put(sub, rest, new)
            e = list(v.e)
            for i in range(nr):
                for j in range(nc):
                    e[(r0 + i) * v.c + c0 + j] = nb.at(i, j)
            return Mat(v.r, v.c, e, v.sc)
        if k == "dr":
            if rest or not isinstance(new, Seq) or new.el.r != x[1]:
                raise Unsupported("assignment to rows")
            self.safe(new.n == v.n, "equal number of columns")
            e = list(v.el.e)
            e[x[0]:x[0] + x[1]] = new.el.e
            return Seq("dynmat", v.n, Mat(v.el.r, 1, e, v.el.sc))
        raise Unsupported("path step " + k)

    def read_loc(self, loc):
        if self.rlog is not None:
            self.rlog.append(loc)
        if self.guarded is not None:
            if not self.dry:
                self.check_guard(loc, False)
            if loc.root == self.guarded and loc.path and loc.path[0][1] in self.volatile:
                v = self.nav(self.root_val(self.st, loc.root), loc.path)
                return rebuild(v, [self.fresh(l.sort(), "volatile") for l in leaves(v)])
        v = self.nav(self.root_val(self.st, loc.root), loc.path)
        if isinstance(v, Seq) and z3.is_select(v.n) and any(k == "m" for k, _ in loc.path):
            f = z3.And(v.n >= 0, v.n <= 2 ** 31 - 1)          # sizes are never negative
            if not any(f.eq(p) for p in self.st.pc):
                self.st.pc.append(f)
        return v

    def write_loc(self, loc, v):
        if self.wlog is not None:
            self.wlog.append((loc, self.critical > 0))
        if self.guarded is not None and not self.dry:
            self.check_guard(loc, True)
        root = self.root_val(self.st, loc.root)
        self.st.roots[loc.root] = self.put(root, loc.path, v)

    def read(self, ref):
        v = None
        for g, l in reversed(ref.alts):
            x = self.read_loc(l)
            v = x if v is None or g is None else ite(g, x, v)
        return v

    def write(self, ref, v):
        v = norm(v)
        if len(ref.alts) == 1 and ref.alts[0][0] is None:
            l = ref.alts[0][1]
            if z3.is_expr(v) and l.path and l.path[-1][0] == "f":
                old = self.nav(self.root_val(self.st, l.root), l.path)
                if z3.is_expr(old) and old.sort() != v.sort():
                    if self.valid(z3.BoolVal(False)):        # unreachable
                        raise Dead()
                    raise Unsupported("write of a value of another type")
            self.write_loc(l, v)
            return
        before = []
        for g, l in ref.alts:
            here = z3.And(*([z3.Not(b) for b in before] + ([g] if g is not None else [])))
            if g is not None:
                before.append(g)
            try:
                new = ite(here, v, self.read_loc(l))
            except Unsupported:
                if self.valid(z3.Not(here)):     # target of another type: not this one
                    continue
                raise
            self.write_loc(l, new)

    def val(self, x):
        return self.read(x) if isinstance(x, Ref) else x

    def ref(self, x, hint="tmp"):
        if isinstance(x, Ref):
            return x
        return Ref(self.new_root(x, hint))

    def deref(self, p, why="pointer"):
        """Ptr or Iter -> Ref."""
        if isinstance(p, Iter):
            return self.deref_iter(p)
        if not isinstance(p, Ptr):
            raise Unsupported("dereference of %r" % (p,))
        alts = []
        nulls = []
        self._targets(p.t, [], alts, nulls, p.cls)
        if nulls:
            self.safe(z3.Not(z3.Or(*nulls)) if len(nulls) > 1 else z3.Not(nulls[0]),
                      "non-null " + why)
        sym = [z3.And(*gs) if gs else z3.BoolVal(True) for gs, l in alts if l.root.startswith("heap:")]
        if not alts:
            raise Dead()
        if len(alts) == 1:
            return Ref(alts[0][1])
        out = []
        for i, (gs, l) in enumerate(alts):
            out.append((None if i == len(alts) - 1 else (z3.And(*gs) if len(gs) != 1 else gs[0]), l))
        return Ref(out)

    def _targets(self, t, gs, alts, nulls, cls):
        t = unfold_select(z3.simplify(t))
        if z3.is_int_value(t):
            a = t.as_long()
            if a == 0:
                nulls.append(z3.And(*gs) if gs else z3.BoolVal(True))
            elif a in self.addr:
                alts.append((gs, self.addr[a]))
            else:
                alts.append((gs, Loc("heap:" + cls, (("i", t),))))
            return
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            self._targets(a, gs + [c], alts, nulls, cls)
            self._targets(b, gs + [z3.Not(c)], alts, nulls, cls)
            return
        nulls.append(z3.And(*(gs + [t == 0])))
        alts.append((gs, Loc("heap:" + cls, (("i", t),))))

    # ------------------------------------------------------------- logic
    def oblige(self, name, goal, kind="post", where=""):
        if self.dry or self.st is None:
            return
        goal = z3.simplify(goal) if z3.is_expr(goal) else z3.BoolVal(bool(goal))
        o = Obligation(name, goal, list(self.st.pc), where, kind)
        self.obls.append(o)
        return o

    def valid(self, c):
        """c holds on the current path (quick, syntactic or by solver)."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        return self.check(self.st.pc, c, 1000)[0] == "proved"

    def safe(self, cond, what):
        """Safety side condition: checked (if enabled), then assumed."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if self.safety and not self.dry:
            self.oblige("safety: %s in %s" % (what, self.where()), cond, kind="safety")
        self.st.pc.append(cond)
        if z3.is_false(c):
            raise Dead()

    def assume(self, c):
        self.st.pc.append(c)

    def where(self):
        f = self.frame
        while f is not None and f.fn is None:
            f = f.parent
        return self.index.qual(f.fn).replace("static_map::", "") if f is not None and f.fn is not None else "?"

    def solver(self, pc, timeout=None):
        s = z3.SolverFor("ALL") if False else z3.Solver()
        s.set("timeout", int((timeout or self.timeout) * Exec.patience))
        s.set("smt.mbqi", False)
        s.set("smt.random_seed", 1)
        for a in self.axioms:
            s.add(a)
        for a in str_axioms():
            s.add(a)
        if self.num.mode == "uf":
            for a in lit_axioms():
                s.add(a)
        for p in pc:
            s.add(p)
        return s

    def check(self, pc, goal, timeout=None):
        """'proved' | 'refuted' | 'unknown', model."""
        if z3.is_true(goal):
            return "proved", None
        t0 = time.time()
        if not has_quant(goal):
            # quantifier-free hypotheses alone often suffice
            qf = [p for p in pc if not has_quant(p)]
            if len(qf) < len(pc):
                s = self.solver(qf, 1000)
                s.add(z3.Not(goal))
                self.queries += 1
                if s.check() == z3.unsat:
                    self.solver_time += time.time() - t0
                    return "proved", None
        s = self.solver(pc, timeout)
        s.add(z3.Not(goal))
        r = s.check()
        self.queries += 1
        self.solver_time += time.time() - t0
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat:
            return "refuted", s.model()
        self.out_of_time(s)
        return "unknown", None

    def out_of_time(self, s):
        """Notes that an answer was cut off by the clock (and not by incompleteness)."""
        if "timeout" in s.reason_unknown() or "canceled" in s.reason_unknown():
            self.timeouts += 1

    def discharge(self):
        given_up = False        # one is open already: less effort for the rest
        for o in self.obls:
            if o.status is not None:
                continue
            t0 = time.time()
            if given_up:
                o.status, o.model = self.check(o.pc, o.goal, 5000)
            else:
                o.status, o.model = self.check(o.pc, o.goal)
                if o.status == "unknown":
                    o.status, o.model = self.retry(o)
                given_up = o.status == "unknown"
            o.time = time.time() - t0
        return all(o.status == "proved" for o in self.obls)

    def retry(self, o):
        """Second attempt: simplified, quantifier-instantiating configuration."""
        for seed, mbqi in ((7, False), (13, True)):
            s = self.solver(o.pc, self.timeout)
            s.set("smt.random_seed", seed)
            s.set("smt.mbqi", mbqi)
            s.add(z3.Not(o.goal))
            t0 = time.time()
            r = s.check()
            self.queries += 1
            self.solver_time += time.time() - t0
            if r == z3.unsat:
                return "proved", None
            if r == z3.sat:
                return "refuted", s.model()
        return "unknown", None

    # ------------------------------------------------------------- merging
    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        ga = z3.And(*ra) if len(ra) != 1 else ra[0]
        gb = z3.And(*rb) if len(rb) != 1 else rb[0]
        if not ra:
            ga = z3.BoolVal(True)
        if not rb:
            gb = z3.BoolVal(True)
        # the branch condition alone selects the side
        cond = ra[0] if ra else z3.Not(rb[0]) if rb else z3.BoolVal(True)
        if ra and rb and z3.simplify(z3.Not(ra[0])).eq(z3.simplify(rb[0])):
            pass
        else:
            cond = ga
        roots = {}
        for k in self.locks or ():
            for s in (a, b):
                s.roots.setdefault(k, z3.BoolVal(False))
        for k in a.roots:
            if k in b.roots:
                x, y = a.roots[k], b.roots[k]
                try:
                    roots[k] = x if x is y else ite(cond, x, y)
                except Unsupported:
                    roots[k] = Opaque("unmergeable " + k)
            else:
                roots[k] = a.roots[k] if not k.startswith("heap:") else \
                    ite(cond, a.roots[k], self.root_val(b, k))
        for k in b.roots:
            if k not in a.roots:
                roots[k] = b.roots[k] if not k.startswith("heap:") else \
                    ite(cond, self.root_val(a, k), b.roots[k])
        m = z3.simplify(z3.Or(ga, gb))
        pc = a.pc[:n]
        if not z3.is_true(m):
            pc.append(z3.Or(ga, gb))
        return State(roots, pc)

    def branch(self, cond, f1, f2):
        """Run f1 / f2 under cond / not cond; merge states and results."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return f1()
        if z3.is_false(c):
            return f2()
        s0 = self.st
        res = []
        sts = []
        for g, fn in ((cond, f1), (z3.Not(cond), f2)):
            self.st = s0.copy()
            self.st.pc.append(g)
            try:
                r = fn()
                res.append(r)
                sts.append(self.st)
            except Dead:
                res.append(None)
                sts.append(None)
        if sts[0] is None and sts[1] is None:
            self.st = None
            raise Dead()
        self.st = self.merge(sts[0], sts[1])
        if sts[0] is None:
            return res[1]
        if sts[1] is None:
            return res[0]
        return self.merge_results(cond, res[0], res[1])

    def merge_results(self, cond, a, b):
        if a is None and b is None:
            return None
        if isinstance(a, Ref) and isinstance(b, Ref):
            out = []
            for g, l in a.alts:
                out.append((cond if g is None else z3.And(cond, g), l))
            for g, l in b.alts:
                out.append((g, l))
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
                return a
            return Ref(out)
        return ite(cond, self.val(a), self.val(b))

    # ------------------------------------------------------------- statements
    def block(self, n):
        self.frame.scopes.append([])
        for c in n.inner:
            if self.st is None:
                break
            self.stmt(c)
        sc = self.frame.scopes.pop()
        if self.st is not None:
            self.release(sc)

    def release(self, sc):
        for fn in reversed(sc):
            fn()

    def stmt(self, n):
        if self.st is None:
            return
        try:
            self._stmt(n)
        except Dead:
            self.st = None

    def _stmt(self, n):
        k = n.kind
        if k == "CompoundStmt":
            self.block(n)
        elif k == "DeclStmt":
            for d in n.inner:
                self.decl(d)
        elif k == "IfStmt":
            self.if_stmt(n)
        elif k == "ReturnStmt":
            self.return_stmt(n)
        elif k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            self.loop_stmt(n)
        elif k in ("OMPParallelForDirective", "OMPForDirective", "OMPParallelDirective",
                   "OMPCriticalDirective", "OMPAtomicDirective"):
            self.omp(n)
        elif k == "BreakStmt":
            brk, cont, depth = self.frame.loops[-1]
            for sc in reversed(self.frame.scopes[depth:]):
                self.release(sc)
            brk.append(self.st)
            self.st = None
        elif k == "ContinueStmt":
            i = len(self.frame.loops) - 1
            while self.frame.loops[i][1] is None:
                i -= 1
            brk, cont, depth = self.frame.loops[i]
            for sc in reversed(self.frame.scopes[depth:]):
                self.release(sc)
            cont.append(self.st)
            self.st = None
        elif k == "SwitchStmt":
            self.switch_stmt(n)
        elif k in ("NullStmt", ""):
            pass
        elif k == "CXXTryStmt":
            self.stmt(n.inner[0])
        elif k in ("AttributedStmt", "LabelStmt"):
            self.stmt(n.inner[-1])
        else:
            self.e(n)

    def if_stmt(self, n):
        inner = [c for c in n.inner]
        i = 0
        if n.get("hasInit"):
            self.stmt(inner[0])
            i += 1
        if n.get("hasVar"):
            self.stmt(inner[i])
            i += 1
        cond = self.cond(inner[i])
        then = inner[i + 1]
        els = inner[i + 2] if len(inner) > i + 2 else None
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.stmt(then)
            return
        if z3.is_false(c):
            if els is not None:
                self.stmt(els)
            return
        s0 = self.st
        self.st = s0.copy()
        self.st.pc.append(cond)
        self.stmt(then)
        a = self.st
        self.st = s0.copy()
        self.st.pc.append(z3.Not(cond))
        if els is not None:
            self.stmt(els)
        b = self.st
        self.st = self.merge(a, b)

    def switch_stmt(self, n):
        v = self.ev(n.inner[0] if n.inner[0].kind != "DeclStmt" else n.inner[1])
        body = n.inner[-1]
        # flatten cases: list of (labels, index); statements list
        stmts = []
        labels = []          # (value node or None, position)

        def flat(c):
            if c.kind == "CaseStmt":
                labels.append((c.inner[0], len(stmts)))
                flat(c.inner[-1])
            elif c.kind == "DefaultStmt":
                labels.append((None, len(stmts)))
                flat(c.inner[-1])
            else:
                stmts.append(c)
        for c in body.inner:
            flat(c)
        vals = [(self.ev(l) if l is not None else None, p) for l, p in labels]
        conds = [v == x for x, p in vals if x is not None]
        s0 = self.st
        out = None
        brk = []
        starts = []
        for x, p in vals:
            if x is not None:
                starts.append((v == x, p))
        dflt = [p for x, p in vals if x is None]
        starts.append((z3.Not(z3.Or(*conds)) if conds else z3.BoolVal(True),
                       dflt[0] if dflt else len(stmts)))
        ends = []
        depth = len(self.frame.scopes)
        for c, p in starts:
            if z3.is_false(z3.simplify(c)):
                continue
            self.st = s0.copy()
            self.st.pc.append(c)
            self.frame.loops.append((brk, None, depth))
            self.frame.scopes.append([])
            for s in stmts[p:]:
                if self.st is None:
                    break
                self.stmt(s)
            self.frame.scopes.pop()
            self.frame.loops.pop()
            if self.st is not None:
                ends.append(self.st)
        for e in ends + brk:
            out = self.merge(out, e)
        self.st = out

    def return_stmt(self, n):
        v = None
        if n.inner:
            rt = self.frame.fn.type if self.frame.fn is not None else ""
            ret = rt.split("(")[0].strip()
            x = self.e(n.inner[0])
            if is_ref(ret) and isinstance(x, Ref):
                v = x
            else:
                v = self.val(x)
                if v is not None:
                    v = norm(v)
        for sc in reversed(self.frame.scopes):
            self.release(sc)
        self.frame.returns.append((self.st, v))
        self.st = None

    def decl(self, d):
        if d.kind != "VarDecl":
            return
        ty = d.dtype
        ini = [c for c in d.inner if not c.kind.endswith("Attr") and c.kind != "FullComment"]
        if d.get("storageClass") == "static":
            key = ("static", d.id)
            if key in self.base:
                self.frame.vars[d.id] = Ref(self.base[key])
                return
        init = ini[0] if ini and d.get("init") else None
        if is_ref(d.type) or is_ref(ty):
            x = self.e(init)
            self.frame.vars[d.id] = self.ref(x, d.name)
            return
        if init is None:
            v = self.default_obj(ty, d.name, node=d)
        elif re.match(r"std::(vector|deque|list|basic_string|string|map|set|unordered_map)\b.*\[\d+\]$", strip(ty)) \
                and init.kind == "CXXConstructExpr":
            v = self.default(ty, d.name)
        else:
            v = self.val(self.e(init))
            if v is None:
                v = Opaque(ty)
            v = self.coerce(v, ty)
        loc = self.new_root(v, d.name or "v")
        self.frame.vars[d.id] = Ref(loc)
        if isinstance(v, Struct) and v.cls == "lock":
            self.frame.scopes[-1].append(lambda: self.unlock(v, loc))

    def coerce(self, v, ty):
        """Fit an initialiser to a declared type (Eigen expressions etc.)."""
        t, a = template(ty)
        if isinstance(v, Mat) and a and t.split("::")[-1] == "Matrix":
            try:
                r, c = int(a[1]), int(a[2])
            except ValueError:
                return v
            if r > 0 and c > 0 and (v.r, v.c) != (r, c):
                if r * c == v.r * v.c:
                    return Mat(r, c, v.e, strip(a[0]))
                raise Unsupported("matrix size mismatch in initialisation")
            return Mat(v.r, v.c, v.e, strip(a[0]))
        if isinstance(v, Seq) and a and t.split("::")[-1] == "vector" and v.kind == "init":
            return Seq("vector", v.n, v.el)
        return v

    def default_obj(self, ty, hint, node=None):
        t = strip(ty)
        if "[" in t and t.endswith("]"):
            dim = t[t.rindex("[") + 1:-1]
            v = self.sym(t, hint)
            if not dim.isdigit() and isinstance(v, Seq):
                # variable length array: the extent is an earlier expression
                n = self.vla_extent(node, dim)
                v = Seq("array", n, v.el)
            return v
        rec = self.index.record(t)
        if rec is not None and rec.kind != "EnumDecl":
            return self.construct(rec, [], None)
        return self.default(t, hint)

    def vla_extent(self, node, dim):
        f = self.frame
        while f is not None:
            for did, r in f.vars.items():
                if self.vname(did, node) == dim:
                    v = self.val(r)
                    if z3.is_expr(v) and v.sort() == Int:
                        return v
            f = f.parent
        n = self.fresh(Int, "vla")
        return n

    def vname(self, did, node):
        for tu in self.index.tus:
            n = tu.by_id.get(did)
            if n is not None:
                return n.name
        return None

    # ------------------------------------------------------------- expressions
    def ev(self, n):
        v = self.val(self.e(n))
        return v

    def lv(self, n):
        return self.ref(self.e(n))

    def cond(self, n):
        v = norm(self.ev(n))
        if isinstance(v, (Ptr,)):
            return v.t != 0
        if isinstance(v, Opaque):
            return self.fresh(Bool, "opaque_cond")
        if not z3.is_expr(v):
            raise Unsupported("condition %r" % (v,))
        return self.num.to_bool(v)

    def e(self, n):
        m = getattr(self, "x_" + n.kind, None)
        if m is None:
            raise Unsupported("expression %s in %s" % (n.kind, self.where()))
        return m(n)

    def x_ParenExpr(self, n):
        return self.e(n.inner[0])

    x_ExprWithCleanups = x_CXXBindTemporaryExpr = x_ConstantExpr = x_ParenExpr
    x_SubstNonTypeTemplateParmExpr = x_ParenExpr
    x_CXXStdInitializerListExpr = x_ParenExpr
    x_FullExpr = x_ParenExpr

    def x_SubstNonTypeTemplateParmExpr(self, n):
        return self.e(n.inner[-1])

    def x_MaterializeTemporaryExpr(self, n):
        x = self.e(n.inner[0])
        return self.ref(x)

    def x_IntegerLiteral(self, n):
        v = int(n.get("value"))
        self.literals.add(v)
        return z3.IntVal(v)

    def x_CharacterLiteral(self, n):
        return z3.IntVal(int(n.get("value")))

    def x_FloatingLiteral(self, n):
        v = float(n.get("value"))
        self.literals.add(v)
        return self.num.const(v, n.dtype)

    def x_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n.get("value")))

    def x_StringLiteral(self, n):
        s = n.get("value", '""')
        try:
            import json
            s = json.loads(s)
        except Exception:
            s = s.strip('"')
        return StrLit(s)

    def x_CXXNullPtrLiteralExpr(self, n):
        return Ptr(z3.IntVal(0), "null")

    x_GNUNullExpr = x_CXXNullPtrLiteralExpr

    def x_PredefinedExpr(self, n):
        return StrLit("__func__")

    def x_CXXThisExpr(self, n):
        f = self.frame
        while f is not None and f.this is None:
            f = f.parent
        if f is None:
            raise Unsupported("this outside a method")
        r = f.this
        p = None
        for g, l in reversed(r.alts):
            q = self.addr_of_loc(l, base_name(n.type.rstrip("* ")))
            p = q if p is None else ite(g, q, p)
        return p

    def x_DeclRefExpr(self, n):
        d = n.get("referencedDecl", {})
        did, name = d.get("id"), d.get("name")
        r = self.frame.lookup(did)
        if r is not None:
            return r
        if d.get("kind") in FUNCS:
            return FuncRef(name, did, n)
        if d.get("kind") == "EnumConstantDecl":
            return self.enum_const(n, did, name)
        g = self.global_var(n, did, name, d)
        if g is not None:
            return g
        raise Unsupported("variable %s in %s" % (name, self.where()))

    def enum_const(self, n, did, name):
        c = n.tu.by_id.get(did)
        if c is None:
            return self.lib_enum(name)
        e = c.parent
        val = -1
        for k in e.inner:
            if k.kind != "EnumConstantDecl":
                continue
            lit = None
            for x in k.walk():
                if x.kind == "ConstantExpr" and x.get("value") is not None:
                    lit = int(x.get("value"))
                    break
                if x.kind == "IntegerLiteral":
                    lit = int(x.get("value"))
                    break
            val = lit if lit is not None else val + 1
            if k.id == did:
                return z3.IntVal(val)
        raise Unsupported("enumerator " + name)

    def lib_enum(self, name):
        return z3.IntVal(abs(hash("enum" + name)) % 1000003)

    def global_var(self, n, did, name, d):
        key = ("global", name)
        if key in self.base:
            return Ref(self.base[key])
        node = n.tu.by_id.get(did)
        if node is None or node.kind != "VarDecl":
            # library constants
            t = (d.get("type") or {}).get("qualType", "")
            if name in ("GLOG_INFO", "GLOG_WARNING", "GLOG_ERROR", "GLOG_FATAL"):
                return z3.IntVal({"GLOG_INFO": 0, "GLOG_WARNING": 1, "GLOG_ERROR": 2, "GLOG_FATAL": 3}[name])
            if name in ("cout", "cerr", "endl"):
                return Opaque("std::" + name)
            return Opaque("global " + str(name))
        init = [c for c in node.inner if not c.kind.endswith("Attr")]
        sf = self.frame
        self.frame = Frame(None, None)
        self.frame.scopes.append([])
        if not init or not node.get("init"):
            v = self.default_obj(node.dtype, name, node)
            # a mutable global: arbitrary contents
            v = tmap(lambda t: self.fresh(t.sort(), "g_" + name), v)
        elif "const" in node.type or "constexpr" in str(node.get("constexpr", "")) or node.get("constexpr"):
            v = self.ev(init[0])
        else:
            v = self.ev(init[0])
            v = tmap(lambda t: self.fresh(t.sort(), "g_" + name), norm(v))
        self.frame = sf
        loc = Loc("global:" + name)
        self.st.roots[loc.root] = norm(v)
        self.base[loc.root] = norm(v)
        self.base[key] = loc
        self.globals_init = getattr(self, "globals_init", {})
        self.globals_init[loc.root] = norm(v)
        return Ref(loc)

    def x_MemberExpr(self, n):
        name = n.name
        base = n.inner[0]
        mid = n.get("referencedMemberDecl")
        md = n.tu.by_id.get(mid) if mid else None
        if n.type == "<bound member function type>" or (md is not None and md.kind in FUNCS):
            raise Unsupported("bound member outside call")
        if n.get("isArrow"):
            r = self.deref(self.ptr(self.e(base)))
        else:
            r = self.lv(base)
        if not name:          # anonymous union / struct member
            return r
        if md is not None and md.kind == "VarDecl":   # static member
            g = self.global_var(n, mid, name, {"type": {"qualType": md.type}})
            if g is not None:
                return g
        return r.map(lambda l: self.member_loc(l, name))

    def ptr(self, x):
        v = self.val(x)
        if isinstance(v, Seq):     # array used as pointer
            return Iter(x.loc, z3.IntVal(0))
        return v

    def x_ImplicitCastExpr(self, n):
        return self.cast(n)

    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_ImplicitCastExpr
    x_CXXConstCastExpr = x_ImplicitCastExpr
    x_CXXReinterpretCastExpr = x_ImplicitCastExpr
    x_BuiltinBitCastExpr = x_ImplicitCastExpr

    def cast(self, n):
        ck = n.get("castKind")
        sub = n.inner[0]
        if ck == "LValueToRValue":
            v = self.ev(sub)
            return v
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion",
                  "UserDefinedConversion", "BaseToDerived", "Dependent"):
            return self.e(sub)
        if ck == "BitCast":
            return self.bitcast(n, sub)
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.e(sub)
        if ck == "ArrayToPointerDecay":
            x = self.e(sub)
            if isinstance(x, StrLit):
                return x
            if isinstance(x, Ref):
                return Iter(x.loc, z3.IntVal(0))
            return x
        if ck == "NullToPointer":
            return Ptr(z3.IntVal(0), "null")
        if ck in ("IntegralCast", "IntegralToBoolean", "IntegralToFloating", "FloatingToIntegral",
                  "FloatingCast", "FloatingToBoolean", "BooleanToSignedIntegral"):
            v = self.ev(sub)
            if isinstance(v, Opaque):
                return v
            if not z3.is_expr(v):
                raise Unsupported("numeric cast of %r" % (v,))
            return self.num.cast(v, sub.dtype, n.dtype)
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            v = self.ev(sub)
            if isinstance(v, Ptr):
                return v.t != 0
            if isinstance(v, Iter):
                return z3.BoolVal(True)
            if z3.is_expr(v) and v.sort() == Bool:
                return v
            v = norm(v)
            if z3.is_expr(v) and v.sort() == Str:
                return v != null_str()
            raise Unsupported("pointer test of %r" % (v,))
        if ck == "ToVoid":
            self.e(sub)
            return None
        if ck == "Dynamic":
            raise Unsupported("dynamic cast")
        raise Unsupported("cast " + str(ck))

    def bitcast(self, n, sub):
        """reinterpret_cast: pointers keep their target."""
        return self.e(sub)

    def x_UnaryOperator(self, n):
        op = n.get("opcode")
        sub = n.inner[0]
        if op == "*":
            return self.deref(self.ptr(self.e(sub)))
        if op == "&":
            x = self.e(sub)
            if isinstance(x, FuncRef):
                return x
            r = self.ref(x)
            return self.addr_of(r, n)
        if op == "!":
            return z3.Not(self.cond(sub))
        if op == "-":
            v = self.ev(sub)
            if v.sort() == Int:
                return z3.simplify(-v) if z3.is_int_value(v) else self.intop(-v, n)
            return self.num.neg(v)
        if op == "+":
            return self.ev(sub)
        if op in ("++", "--"):
            r = self.lv(sub)
            old = self.read(r)
            if isinstance(old, Iter):
                d = 1 if op == "++" else -1
                if old.rev:
                    d = -d
                new = self.iter_add(old, d)
            elif old.sort() == Int:
                new = self.intop(old + 1 if op == "++" else old - 1, n)
            elif old.sort() == Bool:
                new = z3.BoolVal(True)
            else:
                one = self.num.const(1, n.dtype)
                new = self.num.add(old, one) if op == "++" else self.num.sub(old, one)
            self.write(r, new)
            return old if n.get("isPostfix") else r
        if op == "~":
            v = self.ev(sub)
            return self.intop(-v - 1, n)
        if op in ("__extension__", "__real"):
            return self.e(sub)
        raise Unsupported("unary " + op)

    def addr_of(self, r, n=None):
        p = None
        for g, l in reversed(r.alts):
            if l.path and l.path[-1][0] == "i" and not l.root.startswith("heap:"):
                q = Iter(Loc(l.root, l.path[:-1]), l.path[-1][1])
                if len(r.alts) == 1:
                    return q
                raise Unsupported("ambiguous element address")
            if l.root.startswith("heap:") and len(l.path) == 1:
                q = Ptr(l.path[0][1], l.root[5:])
            else:
                v = self.nav(self.root_val(self.st, l.root), l.path)
                q = self.addr_of_loc(l, v.cls if isinstance(v, Struct) else "?")
            p = q if p is None else ite(g, q, p)
        return p

    def within(self, a, lo, hi):
        """The path condition (its quantifier-free part) bounds a by [lo, hi]."""
        if self.st is None:
            return False
        key = (a.get_id(), lo, hi, tuple(p.get_id() for p in self.st.pc))
        if key not in self._within:
            s = z3.Solver()
            s.set("timeout", 300)
            for p in self.st.pc:
                if not has_quant(p):
                    s.add(p)
            s.add(z3.Or(a < lo, a > hi))
            t0 = time.time()
            self._within[key] = s.check() == z3.unsat
            self.queries += 1
            self.solver_time += time.time() - t0
        return self._within[key]

    def intop(self, v, n):
        """Result of an integer operation in n's type."""
        ii = int_info(n.dtype)
        v = z3.simplify(v)
        if ii is None:
            return v
        b, signed = ii
        if z3.is_int_value(v):
            return wrap(v, ii, None)
        if signed:
            if self.track_overflow and not self.dry:
                self.oblige("no signed overflow in " + self.where(),
                            z3.And(v >= -(2 ** (b - 1)), v <= 2 ** (b - 1) - 1), kind="safety")
            return v
        if b >= 64:
            # sizes and indices: only wrap below zero
            return v if self.within(v, 0, 2 ** b) else z3.If(v >= 0, v, v + 2 ** b)
        return wrap(v, ii, None, self.within)

    def x_BinaryOperator(self, n):
        op = n.get("opcode")
        a, b = n.inner
        if op == "=":
            r = self.lv(a)
            v = self.ev(b)
            self.write(r, v)
            return r
        if op in ("&&", "||"):
            c = self.cond(a)
            cs = z3.simplify(c)
            if op == "&&":
                if z3.is_false(cs):
                    return z3.BoolVal(False)
                return self.branch(c, lambda: self.cond(b), lambda: z3.BoolVal(False)) \
                    if self.has_effect(b) else z3.And(c, self.pure_under(c, b))
            if z3.is_true(cs):
                return z3.BoolVal(True)
            return self.branch(c, lambda: z3.BoolVal(True), lambda: self.cond(b)) \
                if self.has_effect(b) else z3.Or(c, self.pure_under(z3.Not(c), b))
        if op == ",":
            self.e(a)
            return self.e(b)
        x, y = self.ev(a), self.ev(b)
        return self.binop(op, x, y, n, a.dtype)

    def pure_under(self, c, b):
        """Evaluate a side-effect free condition with c assumed meanwhile."""
        s0 = self.st
        self.st = s0.copy()
        self.st.pc.append(c)
        k = len(self.st.pc)
        try:
            v = self.cond(b)
        finally:
            new = self.st
            self.st = s0
        for r, x in new.roots.items():
            if r not in s0.roots:
                s0.roots[r] = x
        return v

    def has_effect(self, n):
        for x in n.walk():
            if x.kind in ("BinaryOperator", "CompoundAssignOperator") and \
                    (x.get("opcode", "").endswith("=") and x.get("opcode") not in ("==", "!=", "<=", ">=")):
                return True
            if x.kind == "UnaryOperator" and x.get("opcode") in ("++", "--"):
                return True
            if x.kind in ("CXXMemberCallExpr", "CallExpr", "CXXOperatorCallExpr", "CXXConstructExpr",
                          "LambdaExpr", "CXXNewExpr", "CXXTemporaryObjectExpr"):
                if not self.pure_call(x):
                    return True
        return False

    PURE = {"size", "empty", "operator bool", "operator->", "operator*", "operator[]", "at", "get",
            "operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "back",
            "front", "count", "load", "abs", "fabs", "sqrt", "min", "max", "x", "y", "z", "norm",
            "operator()", "begin", "end", "find", "is_initialized", "has_value", "value", "isnan",
            "isfinite", "isinf", "operator-", "operator+"}

    def pure_call(self, x):
        c = x.inner[0] if x.inner else None
        while c is not None and c.kind in ("ImplicitCastExpr", "ParenExpr"):
            c = c.inner[0]
        if c is None:
            return False
        if c.kind == "MemberExpr":
            return c.name in self.PURE and n_repo(c) is None
        if c.kind == "DeclRefExpr":
            d = c.get("referencedDecl", {})
            return d.get("name") in self.PURE and self.index.resolve(c.tu, d.get("id")) is None
        return False

    def binop(self, op, x, y, n, ta):
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return self.fresh(Bool, "opaque_cmp")
            return Opaque("arith")
        for p, q in ((x, y), (y, x)):
            if isinstance(p, Ptr) and p.cls == "null" and op in ("==", "!=") and not isinstance(q, Ptr):
                q = norm(q)
                if z3.is_expr(q) and q.sort() == Str:
                    return q == null_str() if op == "==" else q != null_str()
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and op in ("==", "!="):
                c = x.t == y.t
                return c if op == "==" else z3.Not(c)
            raise Unsupported("pointer arithmetic")
        if isinstance(x, Iter) or isinstance(y, Iter):
            return self.iter_op(op, x, y, n)
        x, y = norm(x), norm(y)
        if not (z3.is_expr(x) and z3.is_expr(y)):
            raise Unsupported("operands of %s: %r %r" % (op, x, y))
        if x.sort() == Bool and y.sort() == Bool:
            if op == "==":
                return x == y
            if op == "!=":
                return x != y
            if op in ("&", "|", "^"):
                return {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](x, y)
        if x.sort() == Bool:
            x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if y.sort() == Bool:
            y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
        if x.sort() == Int and y.sort() == Int:
            return self.int_binop(op, x, y, n)
        if x.sort() == Int:
            x = self.num.cast(x, None, "double" if y.sort() != F32 else "float")
        if y.sort() == Int:
            y = self.num.cast(y, None, "double" if x.sort() != F32 else "float")
        N = self.num
        if op == "+":
            return N.add(x, y)
        if op == "-":
            return N.sub(x, y)
        if op == "*":
            return N.mul(x, y)
        if op == "/":
            return N.div(x, y)
        if op == "<":
            return N.lt(x, y)
        if op == "<=":
            return N.le(x, y)
        if op == ">":
            return N.lt(y, x)
        if op == ">=":
            return N.le(y, x)
        if op == "==":
            return N.feq(x, y)
        if op == "!=":
            return z3.Not(N.feq(x, y))
        raise Unsupported("float operator " + op)

    def int_binop(self, op, x, y, n):
        if op == "+":
            return self.intop(x + y, n)
        if op == "-":
            return self.intop(x - y, n)
        if op == "*":
            return self.intop(x * y, n)
        if op in ("/", "%"):
            self.safe(y != 0, "division by zero")
            if z3.is_int_value(x) and z3.is_int_value(y) and y.as_long() != 0:
                a, b = x.as_long(), y.as_long()
                q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                return z3.IntVal(q if op == "/" else a - q * b)
            # C++ truncates toward zero; z3 div is Euclidean
            ax = z3.If(x >= 0, x, -x)
            if z3.is_int_value(y):
                b = abs(y.as_long())
                q = ax / b
                neg = x < 0 if y.as_long() > 0 else x >= 0
                sq = z3.If(neg, -q, q)
            else:
                ay = z3.If(y >= 0, y, -y)
                q = ax / ay
                sq = z3.If((x >= 0) == (y >= 0), q, -q)
            if op == "/":
                return self.intop(sq, n)
            return x - sq * y
        if op == "<":
            return x < y
        if op == "<=":
            return x <= y
        if op == ">":
            return x > y
        if op == ">=":
            return x >= y
        if op == "==":
            return x == y
        if op == "!=":
            return x != y
        if op == "<<" and z3.is_int_value(y):
            return self.intop(x * (2 ** y.as_long()), n)
        if op == ">>" and z3.is_int_value(y):
            return x / (2 ** y.as_long())
        if op in ("&", "|", "^"):
            if z3.is_int_value(x) and z3.is_int_value(y):
                a, b = x.as_long(), y.as_long()
                return z3.IntVal({"&": a & b, "|": a | b, "^": a ^ b}[op])
            if op == "&" and z3.is_int_value(y) and (y.as_long() + 1) & y.as_long() == 0:
                return x % (y.as_long() + 1)
            f = z3.Function("bit" + {"&": "and", "|": "or", "^": "xor"}[op], Int, Int, Int)
            return f(x, y)
        raise Unsupported("integer operator " + op)

    def x_CompoundAssignOperator(self, n):
        op = n.get("opcode")[:-1]
        r = self.lv(n.inner[0])
        rhs = self.ev(n.inner[1])
        old = self.read(r)
        lt = n.inner[0].dtype
        if isinstance(old, Iter):
            k = rhs if op == "+" else -rhs
            new = self.iter_add(old, k)
        else:
            ct = (n.get("computeLHSType") or {}).get("qualType", lt)
            a = self.num.cast(old, lt, ct) if strip(ct) != strip(lt) else old

            class _N:
                dtype = strip(ct)
                type = strip(ct)
            v = self.binop(op, a, rhs, _N, ct)
            new = self.num.cast(v, ct, lt) if strip(ct) != strip(lt) else v
        self.write(r, new)
        return r

    def x_ConditionalOperator(self, n):
        c = self.cond(n.inner[0])
        return self.branch(c, lambda: self.e(n.inner[1]), lambda: self.e(n.inner[2]))

    x_BinaryConditionalOperator = None

    def x_ArraySubscriptExpr(self, n):
        a = self.e(n.inner[0])
        if strip(n.dtype) == "char" and not isinstance(a, Iter):
            s = norm(self.val(a))
            if z3.is_expr(s) and s.sort() == Str:
                return self.char_at(s, self.ev(n.inner[1]))
        a = self.ptr(a)
        i = self.ev(n.inner[1])
        if isinstance(a, Iter):
            return self.deref_iter(self.iter_add(a, i))
        raise Unsupported("subscript of %r" % (a,))

    def x_InitListExpr(self, n):
        return self.init_list(n)

    def x_ImplicitValueInitExpr(self, n):
        return self.zero(n.dtype)

    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr

    def x_CXXDefaultInitExpr(self, n):
        raise Unsupported("default member initialiser outside constructor")

    def x_LambdaExpr(self, n):
        return Lambda(n, self.frame, None)

    def x_UnaryExprOrTypeTraitExpr(self, n):
        t = (n.get("argType") or {}).get("desugaredQualType") or (n.get("argType") or {}).get("qualType")
        if t is None and n.inner:
            t = n.inner[0].dtype
        return z3.IntVal(self.sizeof(t))

    def sizeof(self, t):
        t = strip(t or "")
        ii = int_info(t)
        if ii:
            return max(1, ii[0] // 8)
        if t == "float":
            return 4
        if t == "double":
            return 8
        if t.endswith("*"):
            return 8
        rec = self.index.record(t)
        if rec is not None:
            return sum(self.sizeof(ft) for _, ft in self.index.fields(rec))
        raise Unsupported("sizeof " + t)

    def x_CXXThrowExpr(self, n):
        if self.locks is not None:
            f = self.frame
            while f is not None:
                for sc in reversed(f.scopes):
                    self.release(sc)
                f = f.caller
        self.throws.append(self.st)
        self.st = None
        raise Dead()

    def x_CXXNewExpr(self, n):
        t = strip(n.dtype).rstrip("* ").strip()
        ini = [c for c in n.inner]
        v = self.ev(ini[-1]) if ini else self.default_obj(t, "new")
        return self.new_object(v, "new_" + base_name(t), base_name(t))

    def x_CXXDeleteExpr(self, n):
        self.e(n.inner[0])
        return None

    def x_CXXTypeidExpr(self, n):
        if n.inner:
            v = self.ev(n.inner[0])
            return StrLit("typeid:" + (v.cls if isinstance(v, Struct) else "?"))
        t = (n.get("typeArg") or {}).get("qualType", "?")
        return StrLit("typeid:" + base_name(t))

    # ------------------------------------------------------------- calls
    def strip_casts(self, c):
        while c.kind in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
            c = c.inner[0]
        return c

    def x_CallExpr(self, n):
        c = self.strip_casts(n.inner[0])
        args = n.inner[1:]
        if c.kind == "DeclRefExpr" and c.get("referencedDecl", {}).get("kind") in FUNCS:
            d = c.get("referencedDecl")
            return self.call_named(n, c.tu, d.get("id"), d.get("name"), None, args, c)
        f = self.ev(n.inner[0])
        return self.call_value(f, args, n)

    def call_value(self, f, args, n):
        if isinstance(f, Lambda):
            return self.call_lambda(f, [self.e(a) for a in args])
        if isinstance(f, FuncRef):
            return self.call_named(n, f.node.tu, f.decl, f.name, None, args, f.node)
        if isinstance(f, Opaque):
            for a in args:
                self.e(a)
            self.assumed.add("opaque callable " + f.tag)
            return Opaque("call")
        raise Unsupported("call of %r" % (f,))

    def call_named(self, n, tu, did, name, this, args, cnode=None):
        fn = self.index.resolve(tu, did)
        dn = tu.by_id.get(did)
        q = self.index.qual(fn) if fn is not None else (tu.qual.get(did, name) if dn is not None else name)
        h = self.contract_for(q)
        if h is not None:
            a = [self.e(x) for x in self.full_args(args, fn or dn)]
            return h(self, this, a, n)
        if fn is not None:
            return self.invoke(fn, this, [self.e(x) for x in self.full_args(args, fn)], n)
        if dn is not None and dn.kind in FUNCS and this is None:
            # declared in the repository, defined elsewhere
            raise Unsupported("no body or contract for " + q)
        return self.lib_call(name, args, n, cnode)

    def full_args(self, args, fn):
        out = []
        params = [p for p in fn.inner if p.kind == "ParmVarDecl"] if fn is not None else []
        for i, a in enumerate(args):
            if a.kind == "CXXDefaultArgExpr" and not a.inner:
                p = params[i]
                x = [c for c in p.inner]
                if not x and fn.get("previousDecl"):
                    pn = fn.tu.by_id.get(fn.get("previousDecl"))
                    ps = [p for p in pn.inner if p.kind == "ParmVarDecl"]
                    x = [c for c in ps[i].inner]
                if not x:
                    raise Unsupported("default argument")
                out.append(x[0])
            elif a.kind == "CXXDefaultArgExpr":
                out.append(a.inner[0])
            else:
                out.append(a)
        return out

    def contract_for(self, q):
        for k, h in self.contracts.items():
            if q == k or q.endswith("::" + k):
                return h
        return None

    def invoke(self, fn, this, args, n=None, top=False):
        """Execute a repository function body (inlined)."""
        if self.depth > 40:
            raise Unsupported("call depth (recursion without contract) in " + self.index.qual(fn))
        self.functions.add(self.index.qual(fn))
        fr = Frame(fn, this, None)
        params = [p for p in fn.inner if p.kind == "ParmVarDecl"]
        if len(args) < len(params):
            raise Unsupported("argument count of " + self.index.qual(fn))
        for p, a in zip(params, args):
            if is_ref(p.type) or is_ref(p.dtype):
                fr.vars[p.id] = self.ref(a, p.name or "p")
            else:
                v = self.val(a)
                v = self.coerce(norm(v), p.dtype)
                fr.vars[p.id] = Ref(self.new_root(v, p.name or "p"))
        return self.run_body(fr, TU._body(fn), fn)

    def run_body(self, fr, body, fn):
        sf = self.frame
        fr.caller = sf
        self.frame = fr
        self.depth += 1
        fr.scopes.append([])
        try:
            self.stmt(body)
        finally:
            self.depth -= 1
            self.frame = sf
        outs = list(fr.returns)
        if self.st is not None:
            outs.append((self.st, None))
        if not outs:
            self.st = None
            raise Dead()
        st, v = outs[0]
        for s2, v2 in outs[1:]:
            st, v = self.merge_ret(st, v, s2, v2)
        self.st = st
        return v

    def merge_ret(self, s1, v1, s2, v2):
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n].eq(s2.pc[n]):
            n += 1
        ra = s1.pc[n:]
        g = z3.And(*ra) if len(ra) != 1 else ra[0]
        if not ra:
            rb = s2.pc[n:]
            g = z3.Not(z3.And(*rb))
        m = self.merge(s1, s2)
        if v1 is None and v2 is None:
            return m, None
        if isinstance(v1, Ref) and isinstance(v2, Ref):
            return m, self.merge_results(g, v1, v2)
        # evaluate references in their own states
        if isinstance(v1, Ref):
            self.st = s1
            v1 = self.read(v1)
        if isinstance(v2, Ref):
            self.st = s2
            v2 = self.read(v2)
        if v1 is None:
            return m, v2
        if v2 is None:
            return m, v1
        return m, ite(g, v1, v2)

    def call_lambda(self, lam, args):
        rec = lam.node.inner[0]
        op = None
        for c in rec.walk():
            if c.kind == "CXXMethodDecl" and c.name == "operator()" and TU._body(c) is not None:
                op = c
                # generic lambdas: prefer an instantiation
                if op.get("mangledName"):
                    break
        if op is None:
            raise Unsupported("lambda body")
        fr = Frame(op, None, lam.frame)
        params = [p for p in op.inner if p.kind == "ParmVarDecl"]
        for p, a in zip(params, args):
            if is_ref(p.type) or is_ref(p.dtype):
                fr.vars[p.id] = self.ref(a, p.name or "p")
            else:
                fr.vars[p.id] = Ref(self.new_root(norm(self.val(a)), p.name or "p"))
        return self.run_body(fr, TU._body(op), op)

    def x_CXXMemberCallExpr(self, n):
        m = self.strip_casts(n.inner[0])
        args = n.inner[1:]
        if m.kind != "MemberExpr":
            raise Unsupported("member call through " + m.kind)
        base = m.inner[0]
        if m.get("isArrow"):
            p = self.ptr(self.e(base))
            obj = self.deref(p) if isinstance(p, (Ptr, Iter)) else self.ref(p)
        else:
            obj = self.lv(base)
        mid = m.get("referencedMemberDecl")
        return self.method(n, m, obj, mid, m.name, args)

    def method(self, n, m, obj, mid, name, args):
        md = m.tu.by_id.get(mid) if mid else None
        if md is not None and md.kind in FUNCS:
            fn = self.index.resolve(m.tu, mid)
            # virtual dispatch on the dynamic class, when it is known
            qualified = self.qualified_call(m)
            dyn = self.dyn_class(obj)
            if not qualified and dyn is not None and self.is_virtual(md):
                ov = self.index.override(dyn, name, md)
                if ov is not None:
                    fn = ov
            q = self.index.qual(fn) if fn is not None else m.tu.qual.get(mid, name)
            h = self.contract_for(q)
            if h is not None:
                a = [self.e(x) for x in self.full_args(args, fn or md)]
                return h(self, obj, a, n)
            if fn is not None:
                return self.invoke(fn, obj, [self.e(x) for x in self.full_args(args, fn)], n)
            if self.implicit(md):
                return self.lib_method(obj, name, args, n)
            raise Unsupported("no body or contract for " + q)
        return self.lib_method(obj, name, args, n)

    def implicit(self, md):
        return bool(md.get("isImplicit") or md.get("explicitlyDefaulted"))

    def qualified_call(self, m):
        # explicit Base::f() — not represented in the JSON dump; detect by source text
        return False

    def is_virtual(self, md):
        if md.get("virtual") or md.get("pure"):
            return True
        return any(c.kind in ("OverrideAttr", "FinalAttr") for c in md.inner)

    def dyn_class(self, obj):
        if len(obj.alts) != 1:
            return None
        v = self.nav(self.root_val(self.st, obj.alts[0][1].root), obj.alts[0][1].path)
        if isinstance(v, Struct) and not obj.alts[0][1].root.startswith("heap:"):
            return v.cls
        return None

    def x_CXXOperatorCallExpr(self, n):
        c = self.strip_casts(n.inner[0])
        args = n.inner[1:]
        d = c.get("referencedDecl", {})
        name, did = d.get("name"), d.get("id")
        fn = self.index.resolve(c.tu, did)
        if fn is not None or c.tu.by_id.get(did) is not None:
            dn = c.tu.by_id.get(did)
            if fn is None and dn is not None and self.implicit(dn) and name == "operator=":
                r = self.lv(args[0])
                self.write(r, self.ev(args[1]))
                return r
            if d.get("kind") == "CXXMethodDecl":
                x = self.e(args[0])
                if isinstance(x, Lambda) or (isinstance(x, Ref) and isinstance(self.val(x), Lambda)):
                    return self.call_lambda(self.val(x), [self.e(a) for a in args[1:]])
                obj = self.ref(x)
                q = self.index.qual(fn) if fn is not None else c.tu.qual.get(did, name)
                h = self.contract_for(q)
                if h is not None:
                    return h(self, obj, [self.e(a) for a in args[1:]], n)
                if fn is not None:
                    return self.invoke(fn, obj, [self.e(a) for a in args[1:]], n)
                raise Unsupported("operator " + q)
            return self.call_named(n, c.tu, did, name, None, args, c)
        return self.lib_operator(name, args, n)

    def x_CXXConstructExpr(self, n):
        t = n.dtype
        if strip(t).startswith("(lambda") and len(n.inner) == 1:
            return self.val(self.e(n.inner[0]))
        rec = self.index.record(t) if not self.lib_type(t) else None
        if rec is not None:
            args = n.inner
            ct = (n.get("ctorType") or {}).get("qualType", "")
            return self.construct(rec, args, ct, n)
        return self.lib_construct(t, n.inner, n)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def lib_type(self, t):
        t = strip(t)
        return t.startswith(("std::", "Eigen::", "boost::", "pcl::", "google::", "tbb::", "pugi::"))

    def construct(self, rec, args, ctype, n=None):
        """Constructor of a repository class."""
        ctors = []
        for tu in self.index.tus:
            for f in tu.funcs:
                if f.kind == "CXXConstructorDecl" and f.name == rec.name and f.tu is tu:
                    q = tu.qual.get(f.id, "")
                    if q.endswith(rec.name + "::" + rec.name):
                        ctors.append(f)
        decls = [c for c in rec.inner if c.kind == "CXXConstructorDecl"]
        evargs = [self.e(a) for a in args if a.kind != "CXXDefaultArgExpr"]
        h = self.contract_for(rec.name + "::" + rec.name)
        if h is not None:
            return h(self, None, evargs, n)
        # copy / move
        if len(evargs) == 1 and ctype and _copyish(ctype, rec.name):
            user = [f for f in ctors if _copyish(f.type, rec.name)]
            if not user:
                v = self.val(evargs[0])
                if isinstance(v, Struct):
                    if v.cls != rec.name:
                        names = [k for k, _ in self.index.fields(rec)]
                        return Struct(rec.name, {k: v.f[k] for k in names})
                    return v
                raise Unsupported("copy of %r" % (v,))
        cand = [f for f in ctors if ctype and _sig(f.type) == _sig(ctype)]
        if not cand:
            cand = [f for f in ctors if len([p for p in f.inner if p.kind == "ParmVarDecl"]) == len(args)
                    and not (len(args) == 1 and _copyish(f.type, rec.name))]
        obj = self.raw_object(rec)
        if not cand:
            if args and evargs:
                raise Unsupported("constructor of " + rec.name)
            return obj            # implicit default constructor
        fn = cand[0]
        loc = self.new_root(obj, "new_" + rec.name)
        self.ctor_into(fn, rec, Ref(loc), [self.e(a) for a in self.full_args(args, fn)]
                       if any(a.kind == "CXXDefaultArgExpr" for a in args) else evargs)
        return self.read(Ref(loc))

    def raw_object(self, rec):
        """Fields with their in-class initialisers; others default."""
        f = {}
        for b in self.index.bases(rec):
            o = self.construct_default(b)
            f.update(o.f)
        for c in rec.inner:
            if c.kind == "CXXRecordDecl" and not c.name and c.get("completeDefinition"):
                f.update(self.raw_object(c).f)
            if c.kind != "FieldDecl" or not c.name:
                continue
            init = [x for x in c.inner if not x.kind.endswith("Attr") and x.kind != "FullComment"]
            if c.get("hasInClassInitializer") and init:
                sf = self.frame
                self.frame = Frame(None, None)
                self.frame.scopes.append([])
                v = norm(self.coerce(self.ev(init[0]), c.dtype))
                self.frame = sf
                f[c.name] = v
            else:
                try:
                    f[c.name] = self.default_obj(c.dtype, c.name)
                except Unsupported:
                    f[c.name] = Opaque(c.dtype)
        return Struct(rec.name, f)

    def construct_default(self, rec):
        try:
            return self.construct(rec, [], "void ()")
        except Unsupported:
            return self.raw_object(rec)

    def ctor_into(self, fn, rec, this, args):
        self.functions.add(self.index.qual(fn))
        fr = Frame(fn, this, None)
        params = [p for p in fn.inner if p.kind == "ParmVarDecl"]
        for p, a in zip(params, args):
            if is_ref(p.type) or is_ref(p.dtype):
                fr.vars[p.id] = self.ref(a, p.name or "p")
            else:
                fr.vars[p.id] = Ref(self.new_root(norm(self.val(a)), p.name or "p"))
        sf = self.frame
        self.frame = fr
        fr.scopes.append([])
        self.depth += 1
        try:
            for c in fn.inner:
                if c.kind != "CXXCtorInitializer":
                    continue
                ai = c.get("anyInit")
                if ai:
                    if not ai.get("name"):
                        continue
                    e = c.inner[0] if c.inner else None
                    if e is None or e.kind == "CXXDefaultInitExpr":
                        continue
                    v = self.ev(e)
                    ty = (ai.get("type") or {}).get("desugaredQualType") or (ai.get("type") or {}).get("qualType", "")
                    self.write(this.map(lambda l: l.f(ai["name"])), self.coerce(norm(v), ty))
                elif c.get("baseInit") and c.inner:
                    e = c.inner[0]
                    if e.kind in ("CXXConstructExpr", "ExprWithCleanups") :
                        v = self.ev(e)
                        if isinstance(v, Struct):
                            cur = self.read(this)
                            self.write(this, Struct(cur.cls, {k: v.f.get(k, x) for k, x in cur.f.items()}))
            self.stmt(TU._body(fn))
        finally:
            self.frame = sf
            self.depth -= 1
        outs = list(fr.returns)
        if self.st is not None:
            outs.append((self.st, None))
        if not outs:
            raise Dead()
        st = outs[0][0]
        for s2, _ in outs[1:]:
            st = self.merge(st, s2)
        self.st = st


def n_repo(c):
    mid = c.get("referencedMemberDecl")
    n = c.tu.by_id.get(mid) if mid else None
    return n if n is not None and n.kind in FUNCS else None


def _sig(t):
    i = t.find("(")
    s = t[i:]
    for x in (" noexcept", "static_map::", "data::", "common::"):
        s = s.replace(x, "")
    return s


def _copyish(t, name):
    s = _sig(t).strip("()").strip()
    return "," not in s and s.split("<")[0].replace("const ", "").rstrip("& ").split("::")[-1] == name
