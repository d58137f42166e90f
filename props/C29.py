"""C29: descriptor matching."""
from vf.driver import Property
from vf.ring import Ring
from vf.spec import *

P = Property("C29")
FILES = ("descriptor/m2dp.cc",)
P.assumptions.append("real arithmetic; the bound is stated for descriptors that are not constant (the correlation of a "
                     "constant descriptor is undefined)")
P.assumptions.append("induction over the size: base and step are obligations, the induction principle is not")
A = z3.ArraySort(Int, Real)
vsum = z3.Function("vsum", A, Int, Real)
vdot = z3.Function("vdot", A, A, Int, Real)


def dot(a, b, n):
    a, b = sorted((a, b), key=lambda t: t.sexpr())
    return vdot(a, b, n)


@P.proof("matching", FILES)
def _(c):
    ex = c.exec()
    p, pv = obj(ex, "Eigen::Matrix<float, -1, 1>", "P")
    q, qv = obj(ex, "Eigen::Matrix<float, -1, 1>", "Q")
    n = pv.n
    N = z3.ToReal(n)
    a, b = pv.el, qv.el
    C = N * dot(a, b, n) - vsum(a, n) * vsum(b, n)
    VP = N * dot(a, a, n) - vsum(a, n) * vsum(a, n)
    VQ = N * dot(b, b, n) - vsum(b, n) * vsum(b, n)
    usable = z3.And(pv.n == qv.n, n >= 10)
    ok = z3.And(usable, VP > 0, VQ > 0)
    r = ex.val(call(ex, "matchTwoM2dpDescriptors", None, [p, q]))
    no_abort(ex, "matching")
    reach(ex, "matching")
    post(ex, "unusable descriptors give minus one", z3.Implies(z3.Not(usable), r == -1))
    s = ex.fresh(Real, "s")
    # the score, named: r * s = |C| with s the positive root of VP * VQ
    post(ex, "absolute correlation", z3.Implies(
        z3.And(ok, s > 0, s * s == VP * VQ, VP * VQ > 0), r * s == z3.If(C >= 0, C, -C)))
    post(ex, "never negative for usable descriptors", z3.Implies(ok, r >= 0))
    post(ex, "descriptors are unchanged", z3.And(eq(state_val(ex, p), pv), eq(state_val(ex, q), qv)))
    r2 = ex.val(call(ex, "matchTwoM2dpDescriptors", None, [q, p]))
    for nm, g in (("usable", ok), ("refused", z3.Not(usable))):
        post(ex, "the order does not matter (%s)" % nm, z3.Implies(g, r == r2))


@P.proof("bound", FILES)
def _(c):
    """Cauchy-Schwarz for the centred sums, by induction over the size."""
    ex = c.exec()
    n, sp, sq, pp, pq, qq, x, y, a, b, r = [ex.fresh(Real, h) for h in
                                            ("n", "sp", "sq", "pp", "pq", "qq", "x", "y", "a", "b", "r")]
    S1 = lambda sp, sq: a * sp + b * sq
    S2 = lambda pp, pq, qq: a * a * pp + 2 * a * b * pq + b * b * qq
    D = lambda n, sp, sq, pp, pq, qq: S2(pp, pq, qq) - 2 * r * S1(sp, sq) + n * r * r
    V = lambda n, sp, sq, pp, pq, qq: n * S2(pp, pq, qq) - S1(sp, sq) * S1(sp, sq)
    old = (n, sp, sq, pp, pq, qq)
    new = (n + 1, sp + x, sq + y, pp + x * x, pq + x * y, qq + y * y)
    zero = [z3.RealVal(0)] * 6
    R = Ring()
    z = a * x + b * y
    ring_eq(ex, "sum of squared distances, none", D(*zero), z3.RealVal(0), R)
    ring_eq(ex, "sum of squared distances, one more", D(*new), D(*old) + (z - r) * (z - r), R)
    d0, d1, w = [ex.fresh(Real, h) for h in ("d0", "d1", "w")]
    lemma(ex, "sums of squared distances are not negative (step)", [d0 >= 0, d1 == d0 + w * w], d1 >= 0)
    ring_eq(ex, "centred square sum, none", V(*zero), z3.RealVal(0), R)
    ring_eq(ex, "centred square sum, one more", V(*new), V(*old) + z3.substitute(D(*old), (r, z)), R)
    lemma(ex, "centred square sums are not negative (step)", [d0 >= 0, w >= 0, d1 == d0 + w], d1 >= 0)
    # V as a quadratic form in a and b
    vp, vq, cc = n * pp - sp * sp, n * qq - sq * sq, n * pq - sp * sq
    ring_eq(ex, "quadratic form", V(*old), a * a * vp + 2 * a * b * cc + b * b * vq, R)
    A_, B_, C_ = [ex.fresh(Real, h) for h in ("VP", "VQ", "C")]
    ring_eq(ex, "chosen combination", z3.substitute(a * a * A_ + 2 * a * b * C_ + b * b * B_, (a, C_), (b, -A_)),
            A_ * (A_ * B_ - C_ * C_), R)
    e = ex.fresh(Real, "e")
    lemma(ex, "product bound", [A_ > 0, A_ * e >= 0], e >= 0)
    s, rr = ex.fresh(Real, "s"), ex.fresh(Real, "score")
    lemma(ex, "the score is at most one", [s > 0, A_ * B_ - C_ * C_ >= 0, s * s == A_ * B_, rr >= 0,
                                           rr * s == z3.If(C_ >= 0, C_, -C_)], rr <= 1)


P.harness("C29.cc", ["descriptor/m2dp.cc", "builder/data/cloud_types.cc", "common/*.cc", "common/performance/*.cc"], time=3)
