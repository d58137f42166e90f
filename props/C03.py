"""C03: interpolation of the position fixes."""
from vf.driver import Property
from .collector import *

P = Property("C03")
P.assumptions.append(LIVE)
P.assumptions.append("time stamp operations: contracts proved in C01")
P.assumptions.append("real arithmetic: linear up to rounding")


@P.proof("DataCollector::InterpolateGps", FILES)
def _(c):
    ex, this, v = collector(c)
    s, at, order = history(ex, v, "gps_data_")
    q, t = query(ex)
    th, trim = ex.sym("double", "threshold"), ex.sym("bool", "trim")
    J = ex.fresh(Int, "J")
    pair = z3.And(0 <= J, J + 1 < s.n)
    fx = lambda k: sel(s.el, k).f["status_fixed"]
    pos = lambda k: sel(s.el, k).f["enu_position"].e
    ex.extra_cands.append(search_cands(s, t))
    r = ex.val(call(ex, "DataCollector::InterpolateGps", this, [q, th, trim]))
    given(ex, order)
    aborts_iff(ex, "the threshold is above half a second", th > ex.num.const(0.5, "double"))
    none = r.t == 0
    one = s.n == 1
    z = z3.IntVal(0)
    d = z3.If(t >= at(z), t - at(z), at(z) - t)
    near = z3.ToReal(d) / G <= th
    last = s.n - 1
    reach(ex, "interpolating", z3.And(z3.Not(none), s.n > 5))
    reach(ex, "single sample", z3.And(z3.Not(none), one))
    reach(ex, "declining", z3.And(none, s.n > 5))
    post(ex, "no position without data", z3.Implies(s.n == 0, none))
    post(ex, "a single sample counts when valid and near", z3.Implies(one, none == z3.Not(z3.And(fx(z), near))))
    post(ex, "no position outside the recorded span", z3.Implies(z3.And(s.n > 1, z3.Or(t < at(z), t > at(last))), none))
    inside = z3.And(pair, at(J) < t, t < at(J + 1))
    good = lambda k: z3.And(fx(k), fx(k + 1), at(k + 1) - at(k) <= G // 5)
    post(ex, "between two samples: a position exactly when both are valid and near each other",
         z3.Implies(inside, none == z3.Not(good(J))))
    S = ex.st
    ex.st = S.copy()
    ex.st.pc.append(z3.Not(none))
    p = ex.read(ex.deref(r)).e
    for i in range(3):
        post(ex, "a single sample is returned as it is (%d)" % i, z3.Implies(one, p[i] == pos(z)[i]))
    ex.st.pc.append(inside)
    D, T = z3.ToReal(at(J + 1) - at(J)), z3.ToReal(t - at(J))
    for i in range(3):
        post(ex, "the position is linear in time (%d)" % i, p[i] == pos(J)[i] + (T / G) / (D / G) * (pos(J + 1)[i] - pos(J)[i]))
    ex.st = S.copy()
    ex.st.pc.append(z3.And(pair, z3.Or(t == at(J), t == at(J + 1))))
    K = z3.If(t == at(J), J, J + 1)
    left, right = z3.And(K > 0, good(K - 1)), z3.And(K < last, good(K))
    post(ex, "at a sample: declined only for a bad pair",
         z3.Implies(none, z3.Or(z3.And(K > 0, z3.Not(good(K - 1))), z3.And(K < last, z3.Not(good(K))))))
    post(ex, "at a sample: a position only from a good pair", z3.Implies(z3.Not(none), z3.Or(left, right)))
    ex.st.pc.append(z3.Not(none))
    p = ex.read(ex.deref(r)).e
    for i in range(3):
        post(ex, "at a sample the position is that sample's (%d)" % i, p[i] == z3.If(t == at(J), pos(J)[i], pos(J + 1)[i]))
    ex.st = S


P.harness("C03.cc", NATIVE, time=4)
