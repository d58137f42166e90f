"""C04: interpolation of the odometry poses."""
from vf.driver import Property
from .collector import *

P = Property("C04")
P.assumptions.append(LIVE)
P.assumptions.append("time stamp operations: contracts proved in C01; blending of two poses: contract proved in C18")
P.assumptions.append("real arithmetic: linear up to rounding (the blending factor is single precision)")


def blend(a, b, f):
    ls = list(a.e) + list(b.e) + [f]
    return Mat(4, 4, [z3.Function("blend_%d" % i, *([x.sort() for x in ls] + [Real]))(*ls) for i in range(16)], "double")


@P.proof("DataCollector::InterpolateOdom", FILES)
def _(c):
    ex, this, v = collector(c)

    def it(ex, this, args, n):
        a, b, f = [norm(ex.val(x)) for x in args]
        ex.oblige("blending factor is within zero to one", z3.Implies(order, z3.And(f >= 0, f <= 1)), kind="pre")
        return blend(a, b, f)
    ex.contracts["InterpolateTransform"] = it
    s, at, order = history(ex, v, "odom_data_")
    q, t = query(ex)
    th, trim = ex.sym("double", "threshold"), ex.sym("bool", "trim")
    J = ex.fresh(Int, "J")
    pair = z3.And(0 <= J, J + 1 < s.n)
    pose = lambda k: sel(s.el, k).f["pose"]
    ex.extra_cands.append(search_cands(s, t))
    r = ex.val(call(ex, "DataCollector::InterpolateOdom", this, [q, th, trim]))
    given(ex, order)
    aborts_iff(ex, "the threshold is above half a second", th > ex.num.const(0.5, "double"))
    none = r.t == 0
    one = s.n == 1
    z = z3.IntVal(0)
    d = z3.If(t >= at(z), t - at(z), at(z) - t)
    near = z3.ToReal(d) / G <= th
    last = s.n - 1
    reach(ex, "interpolating", z3.And(z3.Not(none), s.n > 5))
    reach(ex, "single sample", z3.And(z3.Not(none), one))
    reach(ex, "declining", z3.And(none, s.n > 5))
    post(ex, "no pose without data", z3.Implies(s.n == 0, none))
    post(ex, "a single sample counts when near", z3.Implies(one, none == z3.Not(near)))
    post(ex, "no pose outside the recorded span", z3.Implies(z3.And(s.n > 1, z3.Or(t < at(z), t > at(last))), none))
    inside = z3.And(pair, at(J) < t, t < at(J + 1))
    good = lambda k: at(k + 1) - at(k) <= G
    post(ex, "between two samples: a pose exactly when they are near each other", z3.Implies(inside, none == z3.Not(good(J))))
    S = ex.st
    ex.st = S.copy()
    ex.st.pc.append(z3.Not(none))
    p = norm(ex.read(ex.deref(r)))
    post(ex, "a single sample is returned as it is", z3.Implies(one, eq(p, pose(z))))
    D = lambda k: z3.ToReal(at(k + 1) - at(k))
    B = lambda k: blend(pose(k), pose(k + 1), (z3.ToReal(t - at(k)) / G) / (D(k) / G))
    ex.st.pc.append(pair)
    post(ex, "the pose is the blend of the enclosing samples by time", z3.Implies(inside, eq(p, B(J))))
    K = J + 1
    post(ex, "at a sample the pose is a blend of this sample with a neighbour",
         z3.Implies(z3.And(t == at(K), K < last), z3.Or(eq(p, B(J)), eq(p, B(K)))))
    ex.st = S.copy()
    ex.st.pc.append(z3.And(pair, z3.Or(t == at(J), t == at(J + 1))))
    K = z3.If(t == at(J), J, J + 1)
    left, right = z3.And(K > 0, good(K - 1)), z3.And(K < last, good(K))
    post(ex, "at a sample: declined only for a bad pair",
         z3.Implies(none, z3.Or(z3.And(K > 0, z3.Not(good(K - 1))), z3.And(K < last, z3.Not(good(K))))))
    post(ex, "at a sample: a pose only from a good pair", z3.Implies(z3.Not(none), z3.Or(left, right)))
    ex.st = S
    w = state_val(ex, this)
    frame(ex, "nothing else changes", v, w, ("odom_data_",))
    post(ex, "without trimming the samples stay", z3.Implies(z3.Not(trim), eq(w.f["odom_data_"], s)))


P.harness("C04.cc", NATIVE, time=4)
