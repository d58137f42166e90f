"""C05: trimming of sensor samples."""
from vf.driver import Property
from .collector import *

P = Property("C05")
P.assumptions.append("time stamp operations: contracts proved in C01")
ENUM = {"imu_data_": 0, "clouds": 1, "gps_data_": 2, "odom_data_": 3}


def suffix(ex, s, n):
    """n is s without its first s.n - n.n elements; returns that count."""
    d = s.n - n.n
    K = ex.fresh(Int, "K")
    post(ex, "the number of samples does not grow", z3.And(n.n >= 0, d >= 0))
    post(ex, "survivors keep their order and content", z3.Implies(z3.And(0 <= K, K < n.n), eq(sel(n.el, K), sel(s.el, K + d))))
    return d


def trim(kind):
    @P.proof("DataCollector::TrimSensorData(%s)" % kind, FILES)
    def _(c):
        ex, this, v = collector(c)
        q, t = query(ex)
        for f in ("imu_data_", "gps_data_", "odom_data_"):
            ex.assume(z3.And(v.f[f].n >= 0, v.f[f].n <= 2 ** 31 - 1))
        own = kind in v.f
        if own:
            s = v.f[kind]
            at = lambda k: ns(sel(s.el, k).f["time"])
            j = z3.Int("j")
            tm = lambda k: sel(s.el, k).f["time"].f["nsecs"]

            def cands(ex, info):
                res = []
                for key, old, nl in info.hv:
                    if nl.sort() == Int:
                        res.append(Cand("samples before %s are older" % (key[0][0].split("!")[0],), lambda st, i, key=key: forall(
                            [j], z3.Implies(z3.And(0 <= j, j < ex.leaf_at(st, key)), at(j) < t), tm(j))))
                return res
            ex.extra_cands.append(cands)
        call(ex, "DataCollector::TrimSensorData", this, [z3.IntVal(ENUM[kind]), q])
        no_abort(ex, "trimming")
        reach(ex, "trimming")
        w = state_val(ex, this)
        frame(ex, "other kinds of data stay", v, w, (kind,) if own else ())
        if own:
            d = suffix(ex, s, w.f[kind])
            J = ex.fresh(Int, "J")
            reach(ex, "dropping samples", d > 3)
            post(ex, "only older samples are dropped", z3.Implies(z3.And(0 <= J, J < d), at(J) < t))
            post(ex, "the last two samples are kept", z3.Implies(d > 0, w.f[kind].n >= 2))


for _k in ENUM:
    if _k != "odom_data_":
        trim(_k)


def interp(fn, f):
    @P.proof("DataCollector::%s with trimming" % fn, FILES)
    def _(c):
        ex, this, v = collector(c)
        ex.contracts["InterpolateTransform"] = lambda ex, this, args, n: ex.sym("Eigen::Matrix4d", "blend")
        s, at, order = history(ex, v, f)
        q, t = query(ex)
        th, tr = ex.sym("double", "threshold"), ex.sym("bool", "trim")
        ex.assume(th <= ex.num.const(0.5, "double"))
        ex.extra_cands.append(search_cands(s, t))
        call(ex, "DataCollector::" + fn, this, [q, th, tr])
        given(ex, order)
        reach(ex, "trimming", tr)
        w = state_val(ex, this)
        frame(ex, "other kinds of data stay", v, w, (f,))
        d = suffix(ex, s, w.f[f])
        J = ex.fresh(Int, "J")
        reach(ex, "dropping samples", d > 3)
        post(ex, "nothing is dropped unless asked for", z3.Implies(z3.Not(tr), d == 0))
        post(ex, "only samples before the enclosing pair are dropped",
             z3.Implies(z3.And(0 <= J, J < d), z3.And(J + 2 < s.n, at(J + 1) <= t, t <= at(s.n - 1))))


interp("InterpolateGps", "gps_data_")
interp("InterpolateOdom", "odom_data_")

P.harness("C05.cc", NATIVE, time=4, cflags=("-fno-access-control",))
