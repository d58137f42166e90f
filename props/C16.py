"""C16: a voxel ray is a connected path between the two end voxels."""
from vf.driver import Property
from vf.spec import *

P = Property("C16")
FILES = ("common/math.cc",)
LIM = 2 ** 28
P.assumptions.append("voxel coordinates below 2^28 in magnitude (no overflow of int)")
P.assumptions.append("real arithmetic: the voxel of a point is floor(p/step) computed without rounding")


def absz(x):
    return z3.If(x >= 0, x, -x)


def pat1(x, k):
    """Trigger on x, if it still reads an array at k."""
    return [x] if any(c.eq(k) for c in consts(x)) and x.decl().kind() == z3.Z3_OP_SELECT else []


def ray_cands(S, D, dm):
    """Invariant templates of an integer line walk: error bookkeeping, the
    leading axis moving every step, and shape of the voxels listed so far."""
    def cands(ex, info):
        out = []
        ints = [(k, o) for k, o, n in info.hv if n.sort() == Int and not any(p == ("*",) for p in k[0])]
        L = ex.leaf_at
        seqs = []
        for pat in dict.fromkeys(k[0] for k, _, _ in info.hv):
            v = ex.value_at(info.S0, pat)
            if isinstance(v, Seq) and isinstance(v.el, Mat):
                seqs.append(pat)
        base = list(info.S0.pc)
        cur = {}
        for a in range(3):
            for key, old in ints:
                if old is not None and ex.check(base, old == S[a], 2000)[0] == "proved":
                    cur.setdefault(a, []).append(key)
        lead = lambda a: z3.And(absz(D[a]) == dm)
        sg = lambda a: z3.If(D[a] >= 0, 1, -1)
        nm = lambda k: k[0][0].split("!")[0] + "#%d" % k[1]

        def walk(info, a, c, e, e0, s):
            """R(i): (c - S) * longest - D * i == s * sign(D) * (e - e0), shown
            step by step and used through its linear consequence."""
            def cons(st, i):
                x = L(st, e) - e0
                return z3.Implies(z3.And(i == dm, dm > 0, x < dm, -x < dm), L(st, c) - S[a] == D[a])

            def step(nx, i):
                d = L(nx, c) - L(info.H, c)
                x = s * (L(nx, e) - L(info.H, e))
                dd = z3.If(d == 1, dm, z3.If(d == -1, -dm, 0))
                return z3.And(d <= 1, d >= -1, dd - D[a] == z3.If(D[a] >= 0, x, -x))
            return Cand("axis %d: error of %s in %s (%d)" % (a, nm(c), nm(e), s), cons, step)
        out.append(Cand("at most longest steps", lambda st, i: i <= dm))
        for a in range(3):
            for c in cur.get(a, ()):
                out.append(Cand("axis %d: %s starts at the start" % (a, nm(c)), lambda st, i, a=a, c=c:
                                z3.Implies(i == 0, L(st, c) == S[a])))
                out.append(Cand("axis %d: %s moves every step when leading" % (a, nm(c)), lambda st, i, a=a, c=c:
                                z3.Implies(lead(a), L(st, c) == S[a] + sg(a) * i)))
                out.append(Cand("axis %d: %s moves at most one per step" % (a, nm(c)), lambda st, i, a=a, c=c:
                                z3.And(L(st, c) - S[a] <= i, S[a] - L(st, c) <= i)))
                for e, e0 in ints:
                    if e0 is None or e in cur.get(a, ()):
                        continue
                    for s in (1, -1):
                        out.append(walk(info, a, c, e, e0, s))
                for q in seqs:
                    def last(st, i, a=a, c=c, q=q):
                        v = ex.value_at(st, q)
                        return z3.Implies(v.n > 0, absz(sel(v.el, v.n - 1).e[a] - L(st, c)) <= 1)
                    out.append(Cand("axis %d: last voxel next to %s" % (a, nm(c)), last))
            for q in seqs:
                def path(st, i, a=a, q=q):
                    v = ex.value_at(st, q)
                    k = z3.Int("k!path")
                    x = sel(v.el, k).e[a]
                    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.n, lead(a)), x == S[a] + sg(a) * k),
                                     patterns=pat1(x, k))

                def conn(st, i, a=a, q=q):
                    v = ex.value_at(st, q)
                    k = z3.Int("k!path")
                    x = sel(v.el, k).e[a]
                    return z3.ForAll([k], z3.Implies(z3.And(0 < k, k < v.n), absz(x - sel(v.el, k - 1).e[a]) <= 1),
                                     patterns=pat1(x, k))
                out.append(Cand("axis %d: leading coordinate of every voxel" % a, path))
                out.append(Cand("axis %d: neighbouring voxels" % a, conn))
                out.append(Cand("axis %d: first voxel" % a, lambda st, i, a=a, q=q: z3.Implies(
                    ex.value_at(st, q).n > 0, sel(ex.value_at(st, q).el, z3.IntVal(0)).e[a] == S[a])))
        for e, e0 in ints:
            out.append(Cand("0 <= %s < longest" % nm(e), lambda st, i, e=e: z3.Or(
                dm == 0, z3.And(L(st, e) >= 0, L(st, e) < dm))))
            out.append(Cand("-longest <= 2 %s < longest" % nm(e), lambda st, i, e=e: z3.Or(
                dm == 0, z3.And(2 * L(st, e) >= -dm, 2 * L(st, e) < dm))))
            if e0 is None:
                continue
            for a in range(3):
                out.append(Cand("%s unchanged when axis %d leads" % (nm(e), a), lambda st, i, e=e, e0=e0, a=a:
                                z3.Implies(z3.And(lead(a), dm > 0), L(st, e) == e0)))
        return out
    return cands


def walk_lemmas(ex):
    """(c - S) * m - D * i == s * (e - e0): starts true, follows from its step,
    and gives the end point."""
    c, S, m, D, i, e, e0, d, f = z3.Ints("c S m D i e e0 d f")
    for s in (1, -1):
        R = lambda c, i, e: (c - S) * m - D * i == s * (e - e0)
        lemma(ex, "line walk starts (%d)" % s, [], R(S, z3.IntVal(0), e0))
        lemma(ex, "line walk step (%d)" % s,
              [R(c, i, e), d <= 1, d >= -1, z3.If(d == 1, m, z3.If(d == -1, -m, 0)) - D == s * (f - e)],
              R(c + d, i + 1, f))
        lemma(ex, "line walk ends (%d)" % s, [R(c, i, e), i == m, m > 0, e - e0 < m, e0 - e < m], c - S == D)


def ray(fn):
    @P.proof(fn, FILES)
    def _(c):
        ex = c.exec()
        ex.num.opaque_div = True
        walk_lemmas(ex)
        V = "Eigen::Vector3f"
        (a, av), (b, bv) = obj(ex, V, "start"), obj(ex, V, "end")
        s, sv = obj(ex, "float", "step")
        ex.assume(sv > 0)
        S = [z3.Int("S%d" % i) for i in range(3)]
        E = [z3.Int("E%d" % i) for i in range(3)]
        for i in range(3):
            ex.assume(S[i] == z3.ToInt(ex.num.div(av.e[i], sv)))
            ex.assume(E[i] == z3.ToInt(ex.num.div(bv.e[i], sv)))
            ex.assume(z3.And(S[i] > -LIM, S[i] < LIM, E[i] > -LIM, E[i] < LIM))
        D = [E[i] - S[i] for i in range(3)]
        m = z3.If(absz(D[0]) > absz(D[1]), absz(D[0]), absz(D[1]))
        dm = z3.Int("longest")
        ex.assume(dm == z3.If(m > absz(D[2]), m, absz(D[2])))
        ex.extra_cands.append(ray_cands(S, D, dm))
        v = ex.val(call(ex, fn, None, [a, b, s]))
        no_abort(ex, fn)
        reach(ex, fn)
        post(ex, "length is one more than the largest axis distance", v.n == dm + 1)
        j, k = ex.fresh(Int, "j"), ex.fresh(Int, "k")
        at = lambda i: sel(v.el, i)
        for i in range(3):
            post(ex, "axis %d: starts in the voxel of the start point" % i, at(z3.IntVal(0)).e[i] == S[i])
            post(ex, "axis %d: ends in the voxel of the end point" % i, at(v.n - 1).e[i] == E[i])
            post(ex, "axis %d: at most one voxel per step" % i, z3.Implies(
                z3.And(0 < k, k < v.n), absz(at(k).e[i] - at(k - 1).e[i]) <= 1))
        post(ex, "no voxel is visited twice", z3.Implies(
            z3.And(0 <= j, j < k, k < v.n), z3.Or(*[at(j).e[i] != at(k).e[i] for i in range(3)])))


ray("VoxelCastingBresenham")
ray("VoxelCastingDDA")

P.harness("C16.cc", ["common/math.cc"], libs=["-lglog"], time=3)
