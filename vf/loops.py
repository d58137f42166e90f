"""Loops: cut points with inferred inductive invariants (Houdini)."""
import time
import z3
from .ast import Unsupported
from .values import *


class Fold:
    """Specification fold: a value tree indexed by the number of steps.

    at(k): value after k steps;  at(0) = init;  at(k+1) = step(at(k), k)."""

    def __init__(self, ex, name, init, step, bound=None):
        self.ex, self.name, self.init, self.step = ex, name, init, step
        self.proto = init
        self.fns = [z3.Function("%s!%d" % (name, i), Int, l.sort())
                    for i, l in enumerate(leaves(norm(init)))]
        self.done = {}
        ex.axioms.append(eq(self.at(z3.IntVal(0)), init))

    def at(self, k):
        return rebuild(norm(self.init), [f(k) for f in self.fns])

    def unfold(self, k):
        """Instance of the defining equation at k (needs k >= 0)."""
        k = z3.simplify(k)
        if k.get_id() in self.done:
            return
        self.done[k.get_id()] = k
        nxt = z3.simplify(k + 1)
        self.ex.axioms.append(z3.Implies(k >= 0, eq(self.at(nxt), self.step(self.at(k), k))))

    def induct(self, name, P):
        """Lemma by induction: P(0) and P(k) => P(k+1), for all k >= 0."""
        ex = self.ex
        k = ex.fresh(Int, "ind_k")
        self.unfold(k)
        return [(name + " (base)", [], P(z3.IntVal(0))),
                (name + " (step)", [k >= 0, P(k)], P(z3.simplify(k + 1)))]


class Cand:
    """Candidate invariant fn(state, iterations).  With step(next state,
    iterations): preservation is shown by the step formula instead (the
    contract adds the lemmas linking the two)."""
    __slots__ = ("name", "fn", "facts", "step")

    def __init__(self, name, fn, step=None):
        self.name, self.fn, self.step = name, fn, step


class LoopMixin:
    infer = True          # False: every state the body can write is taken at the loop head
    # ---------------------------------------------------------- statements
    def loop_stmt(self, n, par=None):
        k = n.kind
        fr = self.frame
        fr.scopes.append([])
        if k == "ForStmt":
            init, var, cond, inc, body = (n.inner + [None] * 5)[:5] if len(n.inner) == 5 else self.for_parts(n)
            if init is not None and init.kind:
                self.stmt(init)
            if self.st is None:
                fr.scopes.pop()
                return
            cf = (lambda: self.cond(cond)) if cond is not None and cond.kind else (lambda: z3.BoolVal(True))
            incf = (lambda: self.e(inc)) if inc is not None and inc.kind else (lambda: None)
            self.loop(n, cf, lambda: self.stmt(body), incf, par=par)
        elif k == "WhileStmt":
            if n.get("hasVar"):
                d, cond, body = n.inner[0], n.inner[-2], n.inner[-1]

                def cf():
                    self.stmt(d)
                    if self.st is None:
                        from .engine import Dead
                        raise Dead()
                    return self.cond(cond)
            else:
                cond, body = n.inner[0], n.inner[1]
                cf = lambda: self.cond(cond)
            self.loop(n, cf, lambda: self.stmt(body), lambda: None)
        elif k == "DoStmt":
            body, cond = n.inner[0], n.inner[1]
            self.do_loop(n, body, cond)
        elif k == "CXXForRangeStmt":
            parts = n.inner
            # [init] range begin end cond inc var body  (init may be absent)
            rng, beg, end, cond, inc, var, body = parts[-7:]
            r = self.range_special(n, rng, var, body)
            if r is None:
                self.stmt(rng)
                self.stmt(beg)
                self.stmt(end)
                if self.st is not None:
                    def bd():
                        self.stmt(var)
                        self.stmt(body)
                    self.loop(n, lambda: self.cond(cond), bd, lambda: self.e(inc))
        sc = fr.scopes.pop()
        if self.st is not None:
            self.release(sc)

    def range_special(self, n, rng, var, body):
        return None

    def for_parts(self, n):
        # clang emits empty {} nodes for missing parts; ours drops them, so use positions
        raw = n.d["inner"]
        it = iter(n.inner)
        out = []
        for r in raw:
            out.append(next(it) if r else None)
        return (out + [None] * 5)[:5]

    def do_loop(self, n, body, cond):
        # body once, then while
        brk, cont = [], []
        if self.is_const_false(cond):
            self.frame.loops.append((brk, cont, len(self.frame.scopes)))
            self.stmt(body)
            self.frame.loops.pop()
            for s in brk + cont:
                self.st = self.merge(self.st, s)
            return
        self.frame.loops.append((brk, cont, len(self.frame.scopes)))
        self.stmt(body)
        self.frame.loops.pop()
        for s in cont:
            self.st = self.merge(self.st, s)
        if self.st is not None:
            self.loop(n, lambda: self.cond(cond), lambda: self.stmt(body), lambda: None)
        for s in brk:
            self.st = self.merge(self.st, s)

    def is_const_false(self, c):
        while c.kind in ("ImplicitCastExpr", "ParenExpr"):
            c = c.inner[0]
        return (c.kind == "IntegerLiteral" and c.get("value") == "0") or \
            (c.kind == "CXXBoolLiteralExpr" and not c.get("value"))

    def omp(self, n):
        if n.kind in ("OMPCriticalDirective", "OMPAtomicDirective"):
            self.critical += 1
            self.omp_body(n)
            self.critical -= 1
            return
        # parallel for: sequential semantics + independence obligations
        loops = [x for x in n.find("ForStmt")]
        if not loops:
            self.omp_body(n)
            return
        if getattr(self, "serial_parallel", False):
            self.assumed.add("parallel loop in %s taken as serial" % self.where())
            self.loop_stmt(loops[0])
            return
        priv = set()
        for c in n.d.get("inner", ()):
            pass
        self.loop_stmt(loops[0], par=n)

    def omp_body(self, n):
        for c in n.inner:
            if c.kind == "CapturedStmt":
                for d in c.inner:
                    if d.kind == "CapturedDecl":
                        self.stmt(d.inner[0])
                        return
            if c.kind.endswith("Stmt"):
                self.stmt(c)
                return
        raise Unsupported("OpenMP directive")

    # ---------------------------------------------------------- one iteration
    def iterate(self, cond, body, inc, assume_cond=True):
        """From self.st: evaluate the condition, run body and increment.
        Returns (cond term, exit state, next state, breaks)."""
        from .engine import Dead
        fr = self.frame
        brk, cont = [], []
        try:
            c = cond()
        except Dead:
            self.st = None
            return z3.BoolVal(True), None, None, []
        s = self.st
        ex = s.copy()
        ex.pc.append(z3.Not(c))
        self.st = s.copy()
        self.st.pc.append(c)
        fr.loops.append((brk, cont, len(fr.scopes)))
        body()
        fr.loops.pop()
        for x in cont:
            self.st = self.merge(self.st, x)
        if self.st is not None:
            try:
                inc()
            except Dead:
                self.st = None
        return c, ex, self.st, brk

    def loop(self, node, cond, body, inc, par=None):
        if self.st is None:
            return
        if self.unroll is not None:
            return self.loop_unrolled(node, cond, body, inc)
        if par is None and self.loop_literal(cond, body, inc):
            return
        if "alloc" not in self.st.roots:
            self.st.roots["alloc"] = self.fresh(Int, "alloc")
            self.st.pc.append(self.st.roots["alloc"] > 0)
        self.cut += 1
        try:
            self.cut_loop(node, cond, body, inc, par)
        finally:
            self.cut -= 1

    def cut_loop(self, node, cond, body, inc, par):
        S0 = self.st
        nret = len(self.frame.returns)
        written, simple = self.discover(S0, cond, body, inc)
        if simple:
            # the body never comes back: at most one iteration
            self.st = S0
            del self.frame.returns[nret:]
            c, ex, nx, brk = self.iterate(cond, body, inc)
            out = ex
            for b in brk:
                out = self.merge(out, b)
            self.st = out
            return
        del self.frame.returns[nret:]
        if self.dry:
            H, _ = self.havoc(S0, written)
            self.st = H
            self.iterate_dry_exit(H, cond, body, inc, S0)
            return
        self.loops_seen += 1
        t0 = time.time()
        # --- phase 1: induction variables
        it = self.fresh(Int, "it")
        ind = self.induction_vars(S0, written, cond, body, inc, it)
        # --- phase 2: candidates
        H, hv = self.havoc(S0, written, ind, it)
        H.pc.append(it >= 0)
        for f in self.folds:
            f.unfold(it)
        info = LoopInfo(self, node, S0, H, hv, ind, it)
        cands = self.make_cands(info, cond, body, inc) if self.infer else []
        cands = [c for c in cands if self.holds_init(c, S0)]
        ncand = len(cands)
        first = True
        while True:
            self.dry += 1
            st = H.copy()
            for c in cands:
                st.pc.extend(self.cand_formula(c, H, it))
            self.st = st
            ab, th, rt = len(self.aborts), len(self.throws), len(self.frame.returns)
            try:
                # nested loops must infer their invariants: allow it while dry
                save = self.dry
                self.dry = 0
                ob = len(self.obls)
                cterm, ex, nx, brk = self.iterate(cond, body, inc)
                del self.obls[ob:]
                self.dry = save
            finally:
                self.dry -= 1
            del self.aborts[ab:]
            del self.throws[th:]
            del self.frame.returns[rt:]
            if nx is None:
                break
            if first and self.infer:
                first = False
                extra = self.map_cands(info, nx, cterm)
                if getattr(self, "cand_filter", None) is not None:
                    extra = [c for c in extra if self.cand_filter(c.name)]
                extra = [c for c in extra if self.holds_init(c, S0)]
                ncand += len(extra)
                if extra:
                    cands = cands + extra
                    continue
            bad = self.not_preserved(cands, nx, it)
            if not bad:
                break
            cands = [c for c in cands if c not in bad]
        self.houdini["cands"] += ncand
        self.houdini["kept"] += len(cands)
        # --- final pass: obligations of the body, exit states
        st = H.copy()
        for c in cands:
            st.pc.extend(self.cand_formula(c, H, it))
        self.st = st
        if par is not None:
            wl, rl = self.wlog, self.rlog
            self.wlog, self.rlog = [], []
        cterm, ex, nx, brk = self.iterate(cond, body, inc)
        if par is not None:
            mine, reads = self.wlog, self.rlog
            self.wlog, self.rlog = (wl + mine if wl is not None else None,
                                    rl + reads if rl is not None else None)
            self.independence(node, S0, mine, reads, it, nx)
        self.loopinfo.append({"where": self.where(), "invariants": [c.name for c in cands],
                              "time": time.time() - t0})
        if nx is not None:
            self.balanced(H, nx)
        self.ranking(info, cands, H, cterm, nx)
        out = ex
        for b in brk:
            out = self.merge(out, b)
        self.st = out
        if out is not None:
            self.loop_exit_facts(info, out)

    def loop_exit_facts(self, info, st):
        pass

    def iterate_dry_exit(self, H, cond, body, inc, S0):
        c, ex, nx, brk = self.iterate(cond, body, inc)
        out = ex
        for b in brk:
            out = self.merge(out, b)
        self.st = out

    def loop_literal(self, cond, body, inc, limit=16):
        """Executes a loop whose trip count is a literal (at most limit): every
        test of its condition folds to true or false.  Exact, not a bound."""
        from .engine import Dead
        keep = self.st
        marks = [(l, len(l)) for l in (self.aborts, self.throws, self.frame.returns, self.obls)]
        out, i = None, 0
        self.st = keep.copy()
        while self.st is not None:
            t = self.st.copy()
            ob = len(self.obls)
            c = None
            try:
                c = z3.simplify(cond())
            except Dead:
                pass
            del self.obls[ob:]
            self.st = t
            if c is None or not (z3.is_true(c) or z3.is_false(c)) or (z3.is_true(c) and i >= limit):
                for l, m in marks:
                    del l[m:]
                self.st = keep
                return False
            if z3.is_false(c):
                cond()
                out = self.merge(out, self.st)
                i += 1
                break
            _, ex, nx, brk = self.iterate(cond, body, inc)
            for b in brk:
                out = self.merge(out, b)
            self.st = nx
            i += 1
        self.st = out
        self.loops_seen += 1
        self.loopinfo.append({"where": self.where(), "invariants": ["unrolled: %d iterations exactly" % (i - 1)],
                              "time": 0})
        return True

    def loop_unrolled(self, node, cond, body, inc):
        out = None
        self.loops_seen += 1
        for i in range(self.unroll + 1):
            if self.st is None:
                break
            if i == self.unroll:
                from .engine import Dead
                try:
                    c = cond()
                    self.st.pc.append(z3.Not(c))
                    out = self.merge(out, self.st)
                except Dead:
                    pass
                self.st = None
                break
            c, ex, nx, brk = self.iterate(cond, body, inc)
            cs = z3.simplify(c)
            if not z3.is_true(cs):
                out = self.merge(out, ex)
            for b in brk:
                out = self.merge(out, b)
            self.st = nx if not z3.is_false(cs) else None
        self.st = out

    # ---------------------------------------------------------- frame of a loop
    def discover(self, S0, cond, body, inc):
        """Written location patterns of the loop (fixpoint of dry runs)."""
        written = {}
        simple = True
        for _ in range(6):
            self.dry += 1
            saved = self.wlog
            self.wlog = []
            H, _h = self.havoc(S0, written)
            self.st = H
            ab, th, rt, rl = len(self.aborts), len(self.throws), len(self.frame.returns), self.rlog
            self.rlog = None
            try:
                c, ex, nx, brk = self.iterate(cond, body, inc)
            finally:
                log = self.wlog
                self.wlog = saved
                self.dry -= 1
                self.rlog = rl
            del self.aborts[ab:]
            del self.throws[th:]
            del self.frame.returns[rt:]
            if saved is not None:
                saved.extend(log)
            if nx is not None:
                simple = False
            new = False
            for loc, _cr in log:
                if loc.root not in S0.roots and not loc.root.startswith("heap:"):
                    continue
                pat = self.pattern(loc)
                if not any(pat[:len(p)] == p for p in written):
                    for p in [p for p in written if p[:len(pat)] == pat]:
                        del written[p]
                    written[pat] = True
                    new = True
            if not new:
                break
        return list(written), simple

    def pattern(self, loc):
        out = [loc.root]
        for k, x in loc.path:
            if k == "f":
                out.append(("f", x))
            elif k == "i":
                out.append(("*",))
            elif k == "m":
                out.append(("*m",))
            else:
                break          # matrix coefficients: whole matrix
        return tuple(out)

    def havoc(self, S0, written, ind=None, it=None):
        """Copy of S0 with written locations replaced; returns (state, leaves).
        leaves: list of (pattern, old leaf, new leaf)."""
        H = S0.copy()
        hv = []
        for pat in written:
            root = pat[0]
            v = self.root_val(H, root)
            H.roots[root] = self._havoc(v, pat[1:], pat, hv, H, ind, it)
        return H, hv

    def _havoc(self, v, path, pat, hv, H, ind, it):
        if not path:
            out = []
            for i, l in enumerate(leaves(v)):
                key = (pat, i)
                if ind is not None and key in ind:
                    base, sg = ind[key]
                    nl = z3.simplify(base + it) if sg > 0 else z3.simplify(base - it)
                else:
                    nl = self.fresh(l.sort(), "h_" + str(pat[-1][1] if isinstance(pat[-1], tuple) and len(pat[-1]) > 1 else pat[0]).split("!")[0])
                out.append(nl)
                hv.append((key, l, nl))
            nv = rebuild(v, out)
            self._range(nv, H)
            return nv
        k = path[0]
        if k[0] == "f":
            return v.set(k[1], self._havoc(v.get(k[1]), path[1:], pat, hv, H, ind, it))
        if k[0] == "*":
            return Seq(v.kind, v.n, self._havoc(v.el, path[1:], pat, hv, H, ind, it))
        if k[0] == "*m":
            return Map(v.kind, v.kproto, v.pres, self._havoc(v.el, path[1:], pat, hv, H, ind, it), v.size)
        raise Unsupported("havoc path")

    def _range(self, v, H):
        """Type facts of a havocked value: lengths are non-negative."""
        if isinstance(v, Seq) and v.n.sort() == Int:
            H.pc.append(z3.And(v.n >= 0, v.n <= 2 ** 31 - 1))
        elif isinstance(v, Map):
            H.pc.append(v.size >= 0) if v.size.sort() == Int else None
        elif isinstance(v, Struct):
            for x in v.f.values():
                if not z3.is_expr(x):
                    self._range(x, H)

    def induction_vars(self, S0, written, cond, body, inc, it):
        """Integer leaves that change by exactly +1/-1 in every iteration (by
        induction: the value is then not below/above the first one)."""
        ind = {}
        H, hv = self.havoc(S0, written)
        ints = [(k, o, nl) for k, o, nl in hv if nl.sort() == Int]
        if not ints or not self.infer:
            return ind
        self.dry += 1
        self.st = H
        ab, th, rt = len(self.aborts), len(self.throws), len(self.frame.returns)
        wl = self.wlog
        self.wlog = None
        try:
            c, ex, nx, brk = self.iterate(cond, body, inc)
        finally:
            self.dry -= 1
            self.wlog = wl
        del self.aborts[ab:]
        del self.throws[th:]
        del self.frame.returns[rt:]
        if nx is None:
            return ind
        for key, old, nl in ints:
            new = self.leaf_at(nx, key)
            d = z3.simplify(new - nl)
            for sg in (1, -1):
                if z3.is_int_value(d):
                    if d.as_long() == sg:
                        ind[key] = (old, sg)
                elif self.check(nx.pc + [nl >= old if sg > 0 else nl <= old], new - nl == sg, 2000)[0] == "proved":
                    ind[key] = (old, sg)
        return ind

    def leaf_at(self, st, key):
        pat, i = key
        v = self.root_val(st, pat[0])
        for k in pat[1:]:
            if k[0] == "f":
                v = v.get(k[1])
            else:
                v = v.el
        return leaves(v)[i]

    def value_at(self, st, pat):
        v = self.root_val(st, pat[0])
        for k in pat[1:]:
            if k[0] == "f":
                v = v.get(k[1])
            else:
                return None
        return v

    # ---------------------------------------------------------- candidates
    def cand_formula(self, c, st, it):
        f = c.fn(st, it)
        if f is None:
            return []
        return f if isinstance(f, list) else [f]

    def holds_init(self, c, S0):
        try:
            fs = self.cand_formula(c, S0, z3.IntVal(0))
        except Unsupported:
            return False
        for f in fs:
            fs_ = z3.simplify(f)
            if z3.is_true(fs_):
                continue
            if z3.is_false(fs_):
                return False
            if self.check(S0.pc, f, 3000)[0] != "proved":
                return False
        return True

    def not_preserved(self, cands, nx, it):
        """Candidates not proved after one iteration (all assumed before)."""
        bad = []
        s = self.solver(nx.pc, 4000)
        qf = [p for p in nx.pc if not has_quant(p)]
        sq = self.solver(qf, 1000) if len(qf) < len(nx.pc) else None
        t0 = time.time()
        nit = z3.simplify(it + 1)
        for c in cands:
            try:
                fs = self.cand_formula(c, nx, nit) if c.step is None else [c.step(nx, it)]
            except Unsupported:
                bad.append(c)
                continue
            for f in fs:
                g = z3.simplify(f)
                if z3.is_true(g):
                    continue
                if sq is not None and not has_quant(f):
                    # quantifier-free part first
                    sq.push()
                    sq.add(z3.Not(f))
                    r = sq.check()
                    self.queries += 1
                    sq.pop()
                    if r == z3.unsat:
                        continue
                s.push()
                s.add(z3.Not(f))
                r = s.check()
                self.queries += 1
                if r == z3.unknown:
                    self.out_of_time(s)
                s.pop()
                if r == z3.unknown and (has_quant(f) or self.patience > 1):
                    # the incremental core gives up early on quantifiers
                    s2 = self.solver(nx.pc, 4000)
                    s2.add(z3.Not(f))
                    r = s2.check()
                    self.queries += 1
                    if r == z3.unknown:
                        self.out_of_time(s2)
                if r != z3.unsat:
                    bad.append(c)
                    break
        self.solver_time += time.time() - t0
        return bad

    def make_cands(self, info, cond, body, inc):
        cs = []
        S0, H, it = info.S0, info.H, info.it
        ints = []
        for key, old, nl in info.hv:
            if nl.sort() == Int and key not in info.ind:
                ints.append(key)
        L = self.leaf_at

        def leafeq(key):
            o = L(S0, key)
            return Cand("unchanged " + pstr(key), lambda st, i: L(st, key) == o)
        for key, old, nl in info.hv:
            if key not in info.ind:
                cs.append(leafeq(key))
        # objects allocated before the loop
        if any(k[0][0] == "alloc" for k, _, _ in info.hv):
            a0 = S0.roots["alloc"]
            for root in dict.fromkeys(k[0][0] for k, _, _ in info.hv if k[0][0].startswith("heap:")):
                h0 = leaves(self.root_val(S0, root))

                def mk(root, h0):
                    t = z3.Int("older")

                    def fn(st, i):
                        h = leaves(self.root_val(st, root))
                        return z3.And(*[z3.ForAll([t], z3.Implies(t < a0, x[t] == y[t]),
                                                  patterns=[x[t]] if z3.is_const(x) else [])
                                        for x, y in zip(h, h0) if not x.eq(y)])
                    return Cand("objects older than the loop stay (%s)" % root[5:], fn)
                cs.append(mk(root, h0))
        # integer bounds
        bnds = []
        c = self.peek_cond(H, cond)
        if c is not None:
            for a, b, strict in comparisons(c):
                bnds.append((a, b))
        sub = [(key, nl) for key, old, nl in info.hv]
        for j, (a, b) in enumerate(bnds):
            def mk(a, b):
                def fn(st, i):
                    m = [(nl, L(st, key)) for key, nl in sub if not info.is_ind(key)]
                    m.append((it, i))
                    return z3.substitute(a, *m) <= z3.substitute(b, *m)
                return fn
            cs.append(Cand("loop bound %d" % j, mk(a, b)))
        for key in ints:
            o = L(S0, key)

            def mk(key, o):
                return [Cand("%s >= initial" % pstr(key), lambda st, i: L(st, key) >= o),
                        Cand("%s <= initial" % pstr(key), lambda st, i: L(st, key) <= o),
                        Cand("%s >= 0" % pstr(key), lambda st, i: L(st, key) >= 0),
                        Cand("%s <= iterations" % pstr(key), lambda st, i: L(st, key) <= o + i)]
            cs.extend(mk(key, o))
        if len(ints) <= 6:
            for x in ints:
                for y in ints:
                    if x != y:
                        def mk(x, y):
                            return [Cand("%s <= %s" % (pstr(x), pstr(y)), lambda st, i: L(st, x) <= L(st, y)),
                                    Cand("%s < %s" % (pstr(x), pstr(y)), lambda st, i: L(st, x) < L(st, y))]
                        cs.extend(mk(x, y))
                        cs.append(self._lencand(x, y))
        # specification folds
        counters = [("it", lambda i: i)]
        for key, (base, sg) in info.ind.items():
            if sg > 0 and not (z3.is_int_value(base) and base.as_long() == 0):
                counters.append((pstr(key), lambda i, base=base: z3.simplify(base + i)))
        for pat in dict.fromkeys(k[0] for k, _, _ in info.hv):
            v0 = self.value_at(S0, pat)
            if v0 is None:
                continue
            for sp, sv in subvalues(v0):
                for f in self.folds:
                    if not fits(sv, f.proto):
                        continue
                    for cn, cf in counters:
                        def mk(pat, sp, f, cf):
                            def fn(st, i):
                                x = self.value_at(st, pat)
                                for q in sp:
                                    x = x.get(q)
                                return eq(x, f.at(cf(i)))
                            return fn
                        cs.append(Cand("%s%s == %s(%s)" % (pat[0].split("!")[0] + pstr2(pat), "".join("." + q for q in sp), f.name, cn), mk(pat, sp, f, cf)))
        keep = getattr(self, "cand_filter", None)
        if keep is not None:
            cs = [c for c in cs if keep(c.name)]
        for g in self.extra_cands:
            cs.extend(g(self, info))
        return cs

    def _lencand(self, x, y):
        L = self.leaf_at
        return Cand("%s == %s" % (pstr(x), pstr(y)), lambda st, i: L(st, x) == L(st, y))

    def peek_cond(self, H, cond):
        from .engine import Dead
        self.dry += 1
        s = self.st
        self.st = H.copy()
        wl, rl = self.wlog, self.rlog
        self.wlog = self.rlog = None
        try:
            return cond()
        except (Dead, Unsupported):
            return None
        finally:
            self.st = s
            self.dry -= 1
            self.wlog, self.rlog = wl, rl

    def map_cands(self, info, nx, cterm):
        """Element-wise closed forms of arrays written at one moving index."""
        out = []
        it, H, S0 = info.it, info.H, info.S0
        allh = {nl.get_id(): key for key, _, nl in info.hv if key not in info.ind and z3.is_const(nl)}
        for key, old, nl in info.hv:
            if key in info.ind or not isinstance(nl.sort(), z3.ArraySortRef) or nl.sort().domain() != Int:
                continue
            T = self.leaf_at(nx, key)
            idxs = store_indices(T, nl)
            if len(idxs) != 1:
                continue
            idx = idxs[0]
            d = z3.simplify(z3.substitute(idx, (it, it + 1)) - idx)
            if not z3.is_int_value(d) or d.as_long() not in (1, -1):
                continue
            sg = d.as_long()
            base = z3.simplify(z3.substitute(idx, (it, z3.IntVal(0))))
            v = z3.Select(T, idx)
            v = simplify_select(v)
            v = z3.substitute(v, (z3.Select(nl, idx), z3.Select(old, idx)))
            # replace other havocked arrays read at the same index by their old contents
            for k2, o2, n2 in info.hv:
                if k2 not in info.ind and isinstance(n2.sort(), z3.ArraySortRef):
                    v = z3.substitute(v, (z3.Select(n2, idx), z3.Select(o2, idx)))
            used = [x for x in consts(v) if x.get_id() in allh]
            k = self.fresh(Int, "mk")
            kk = z3.simplify(sg * (k - base))

            L = self.leaf_at
            if not used and not consts(base, allh):
                g = z3.substitute(v, (it, kk))

                def fn(st, i, key=key, g=g, k=k, kk=kk):
                    A = L(st, key)
                    return z3.ForAll([k], z3.Implies(z3.And(kk >= 0, kk < i), z3.Select(A, k) == g),
                                     patterns=pats(A, k))
                out.append(Cand("map %s" % pstr(key), fn))

            def fn2(st, i, key=key, old=old, k=k, kk=kk):
                A = L(st, key)
                return z3.ForAll([k], z3.Implies(z3.Or(kk < 0, kk >= i), z3.Select(A, k) == z3.Select(old, k)),
                                 patterns=pats(A, k))
            out.append(Cand("frame %s" % pstr(key), fn2))
        return out

    # ---------------------------------------------------------- parallel loops
    def independence(self, node, S0, writes, reads, it, nx):
        """No two iterations of a parallel loop touch the same location."""
        self.parallel_checks += 1
        it2 = self.fresh(Int, "it_other")
        pc = (nx.pc if nx is not None else S0.pc)
        wr = {}
        ivar = self.loop_var_pattern(node)
        for loc, crit in writes:
            if loc.root not in S0.roots and not loc.root.startswith("heap:"):
                continue
            if crit:
                continue
            if ivar is not None and self.pattern(loc)[:len(ivar)] == ivar:
                continue
            idx = [x for k, x in loc.path if k == "i"]
            ok = z3.BoolVal(False)
            for x in idx:
                o = z3.substitute(x, (it, it2))
                if not o.eq(x):
                    ok = z3.Or(ok, x != o)
            wr.setdefault(self.pattern(loc), []).append((loc, idx))
            save = self.st
            from .engine import State
            self.st = State({}, list(pc) + [z3.And(it2 >= 0, it2 != it)])
            self.oblige("parallel loop writes distinct locations in %s (%s)" % (
                self.where(), loc.root.split("!")[0]), ok, kind="parallel")
            self.st = save
        for loc in reads:
            if loc.root not in S0.roots and not loc.root.startswith("heap:"):
                continue
            p = self.pattern(loc)
            for wp, lst in wr.items():
                if p[:len(wp)] == wp or wp[:len(p)] == p:
                    if len(p) < len(wp):
                        continue       # container header read (size, data pointer)
                    ri = [x for k, x in loc.path if k == "i"]
                    for wl, wi in lst:
                        # read by this iteration vs write by another
                        ds = [x != z3.substitute(y, (it, it2)) for x, y in zip(ri, wi)]
                        save = self.st
                        from .engine import State
                        self.st = State({}, list(pc) + [z3.And(it2 >= 0, it2 != it)])
                        self.oblige("parallel loop reads only its own locations in %s (%s)" % (
                            self.where(), loc.root.split("!")[0]),
                            z3.Or(*ds) if ds else z3.BoolVal(False), kind="parallel")
                        self.st = save

    def loop_var_pattern(self, node):
        for d in node.find("VarDecl"):
            r = self.frame.lookup(d.id)
            if r is not None and len(r.alts) == 1:
                return self.pattern(r.alts[0][1])
        return None

    # ---------------------------------------------------------- termination
    def ranking(self, info, cands, H, cterm, nx):
        """Try to prove termination; outcome is recorded, and an obligation
        when the contract asks for it."""
        if nx is None:
            return
        pc = nx.pc
        ms = []
        for a, b, strict in comparisons(cterm):
            ms.append(("%s" % "bound", b - a))
        L = self.leaf_at
        m = [(nl, L(nx, key)) for key, _, nl in info.hv if key not in info.ind and z3.is_const(nl)]
        m.append((info.it, info.it + 1))
        for nm, t in ms:
            t2 = z3.substitute(t, *m)
            g = z3.And(t >= 0, t2 < t)
            if self.check(pc, g, 3000)[0] == "proved":
                info.ranked = True
                self.terminating = getattr(self, "terminating", 0) + 1
                return
        self.nonterm = getattr(self, "nonterm", [])
        self.nonterm.append(self.where())
        if getattr(self, "want_termination", False):
            self.oblige("loop terminates in " + self.where(), z3.BoolVal(False), kind="termination")


class LoopInfo:
    def __init__(self, ex, node, S0, H, hv, ind, it):
        self.ex, self.node, self.S0, self.H, self.hv, self.ind, self.it = ex, node, S0, H, hv, ind, it
        self.ranked = False

    def is_ind(self, key):
        return key in self.ind


def pats(A, k):
    return [z3.Select(A, k)] if z3.is_const(A) else []


def pstr2(pat):
    return "".join("." + k[1] if k[0] == "f" else "[*]" for k in pat[1:])


def pstr(key):
    pat, i = key
    return pat[0].split("!")[0] + pstr2(pat) + "#%d" % i


def comparisons(c):
    """Pairs (a, b, strict) with a <= b implied while the loop runs."""
    out = []
    st = [c]
    neg = False
    while st:
        t = st.pop()
        n = False
        while z3.is_not(t):
            t = t.arg(0)
            n = not n
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.sort() == Bool:
            c, x, y = t.children()
            if z3.is_false(y):
                t = z3.And(c, x)
            elif z3.is_true(x):
                t = z3.Or(c, y)
            elif z3.is_true(y):
                t = z3.Or(z3.Not(c), x)
            elif z3.is_false(x):
                t = z3.And(z3.Not(c), y)
        if z3.is_and(t) and not n:
            st.extend(t.children())
            continue
        if z3.is_or(t) and n:
            st.extend(z3.Not(x) for x in t.children())
            continue
        k = t.decl().kind() if z3.is_app(t) else None
        if t.num_args() != 2 or t.arg(0).sort() != Int:
            continue
        a, b = t.arg(0), t.arg(1)
        if n:
            a, b = b, a
        if k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
            out.append((a, b, k == z3.Z3_OP_LT))
        elif k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
            out.append((b, a, k == z3.Z3_OP_GT))
        elif (k == z3.Z3_OP_DISTINCT and not n) or (k == z3.Z3_OP_EQ and n):
            out.append((a, b, True))
            out.append((b, a, True))
    return out


def subvalues(v, path=()):
    """(field path, value) of a value and its struct fields."""
    yield path, v
    if isinstance(v, Struct):
        for k, x in v.f.items():
            yield from subvalues(x, path + (k,))


def fits(v, proto):
    if z3.is_expr(v) != z3.is_expr(proto):
        return False
    if not z3.is_expr(v) and type(v) is not type(proto):
        return False
    if isinstance(v, Struct) and v.cls != proto.cls:
        return False
    la, lb = leaves(v), leaves(norm(proto))
    return len(la) == len(lb) and len(la) > 0 and all(x.sort() == y.sort() for x, y in zip(la, lb))


def store_indices(T, A):
    """Indices at which T stores relative to base array A (through If/Store);
    empty list if T is not of that form."""
    out = []
    ok = [True]
    seen = set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if t.eq(A):
            return
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_STORE:
            i = z3.simplify(t.arg(1))
            if not any(i.eq(x) for x in out):
                out.append(i)
            go(t.arg(0))
        elif k == z3.Z3_OP_ITE:
            go(t.arg(1))
            go(t.arg(2))
        else:
            ok[0] = False
    go(T)
    return out if ok[0] else []


def simplify_select(t):
    """Reads through If/Store chains as far as the indices are comparable."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.num_args() == 2:
        a, i = t.arg(0), t.arg(1)
        k = a.decl().kind() if z3.is_app(a) else None
        if k == z3.Z3_OP_ITE:
            x, y = simplify_select(z3.Select(a.arg(1), i)), simplify_select(z3.Select(a.arg(2), i))
            return x if x.eq(y) else z3.simplify(z3.If(a.arg(0), x, y))
        if k == z3.Z3_OP_STORE:
            d = z3.simplify(a.arg(1) == i)
            if z3.is_true(d):
                return a.arg(2)
            if z3.is_false(d):
                return simplify_select(z3.Select(a.arg(0), i))
    return z3.simplify(t)


def consts(t, only=None):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if only is None or x.get_id() in only:
                out.append(x)
        st.extend(x.children())
        if z3.is_quantifier(x):
            st.append(x.body())
    return out
