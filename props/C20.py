"""C20: the attitude tracker integrates the rate and follows gravity."""
from vf.driver import Property
from vf.ring import Ring
from .collector import *

P = Property("C20")
SRC = ("builder/imu_tracker.cc", "common/simple_time.cc")
IT = "static_map::ImuTracker"
P.assumptions.append("real arithmetic: orientation and gravity hold up to rounding; exp(x) = 0 for x <= -746 (as in doubles)")
P.assumptions.append("time stamp comparison and difference: contracts proved in C01")
P.assumptions.append("stamps are after time zero (zero stands for 'no observation yet'), the time constant is positive")
P.assumptions.append("the filtered acceleration is not the zero vector (it has no direction; the tracker aborts)")
P.assumptions.append("Eigen's FromTwoVectors(a, b): the unit quaternion that turns a into the direction of b")


def tracker(c):
    ex = c.exec(fp="real")
    stamps(ex)
    ex.num.infinity = z3.Real("infinity")
    this, v = obj(ex, IT, "tracker")
    q = v.f["orientation_"]
    tau = v.f["imu_gravity_time_constant_"]
    ex.assume(z3.And(wf(v.f["time_"]), wf(v.f["last_linear_acceleration_time_"]), tau > 0,
                     ex.num.infinity >= 1000 * tau,
                     sum((q.f[k] * q.f[k] for k in "xyz"), q.f["w"] * q.f["w"]) == 1))
    return ex, this, v, unit_ring(ex, q)


def unit_ring(ex, q):
    f = q.f
    ring = Ring([(f["w"], 1 - f["x"] * f["x"] - f["y"] * f["y"] - f["z"] * f["z"])])
    ex.num.ring = ring
    return ring


def square(ring, a, t):
    """One more hypothesis a^2 == t."""
    i = ring.atom(a)
    ring.sq[i] = None
    ring.sq[i] = ring.reduce(ring.poly(t))


def conj(q):
    return Struct("Quaternion", {k: q.f[k] if k == "w" else -q.f[k] for k in "wxyz"})


def quat_eq(ex, name, got, want, ring):
    for k in "wxyz":
        ring_eq(ex, "%s (%s)" % (name, k), got.f[k], want.f[k], ring)


def is_unit(ex, name, q, ring):
    ring_eq(ex, name, sum((q.f[k] * q.f[k] for k in "xyz"), q.f["w"] * q.f["w"]), z3.RealVal(1), ring)


@P.proof("ImuTracker::ImuTracker", SRC)
def _(c):
    ex = c.exec(fp="real")
    tau, tv = obj(ex, "double", "time_constant")
    t, tm = obj(ex, "static_map::SimpleTime", "time")
    ex.assume(wf(tm))
    r, v = make(ex, IT, [tau, t])
    no_abort(ex, "constructor")
    reach(ex, "constructor")
    one = lambda s, e: z3.And(*[s[i] == x for i, x in enumerate(e)])
    q = v.f["orientation_"]
    post(ex, "the clock is the given time", ns(v.f["time_"]) == ns(tm))
    post(ex, "no acceleration has been observed", ns(v.f["last_linear_acceleration_time_"]) == 0)
    post(ex, "the orientation is the identity", z3.And(q.f["w"] == 1, q.f["x"] == 0, q.f["y"] == 0, q.f["z"] == 0))
    post(ex, "gravity is along z", one(v.f["gravity_vector_"].e, (0, 0, 1)))
    post(ex, "the rate is zero", one(v.f["imu_angular_velocity_"].e, (0, 0, 0)))
    post(ex, "the time constant is kept", v.f["imu_gravity_time_constant_"] == tv)
    g = ex.val(call(ex, "ImuTracker::time", r, []))
    post(ex, "time() is the clock", eq(g, v.f["time_"]))
    g = ex.val(call(ex, "ImuTracker::orientation", r, []))
    post(ex, "orientation() is the orientation", eq(g, q))


@P.proof("ImuTracker::Advance", SRC)
def _(c):
    ex, this, v, ring = tracker(c)
    t, tv = obj(ex, "static_map::SimpleTime", "time")
    ex.assume(wf(tv))
    rate = v.f["imu_angular_velocity_"]
    late = ns(tv) >= ns(v.f["time_"])
    dt = z3.ToReal(ns(tv) - ns(v.f["time_"])) / G
    turn = []

    def angles(ex, t_, args, n):
        e = ex.val(args[0])
        q = ex.sym("Eigen::Quaterniond", "turn")
        square(ring, q.f["w"], 1 - q.f["x"] * q.f["x"] - q.f["y"] * q.f["y"] - q.f["z"] * q.f["z"])
        turn.append((e, q, list(ex.st.pc)))
        return q
    ex.contracts["EulerAnglesToQuaternion"] = angles
    call(ex, "ImuTracker::Advance", this, [t])
    aborts_iff(ex, "Advance", z3.Not(late))
    reach(ex, "Advance", late)
    if len(turn) != 1:
        raise Unsupported("rotation not by one conversion of angles")
    (e, q, _), = turn
    w = state_val(ex, this)
    for i in range(3):
        post(ex, "the angle turned is rate times elapsed time (%d)" % i, e.e[i] == rate.e[i] * dt)
    quat_eq(ex, "the orientation is turned by that angle", w.f["orientation_"],
            ex.quat_mul(v.f["orientation_"], q), ring)
    is_unit(ex, "the orientation stays a unit quaternion", w.f["orientation_"], ring)
    want = ex.mat_op("*", conj(q), v.f["gravity_vector_"], None)
    for i in range(3):
        ring_eq(ex, "the gravity estimate is turned back by that angle (%d)" % i, w.f["gravity_vector_"].e[i], want.e[i], ring)
    a = ex.mat_op("*", v.f["orientation_"], v.f["gravity_vector_"], None)
    b = ex.mat_op("*", w.f["orientation_"], w.f["gravity_vector_"], None)
    for i in range(3):
        ring_eq(ex, "gravity keeps its direction in the world (%d)" % i, b.e[i], a.e[i], ring)
    post(ex, "the clock is the new time", ns(w.f["time_"]) == ns(tv))
    frame(ex, "Advance", v, w, ["orientation_", "gravity_vector_", "time_"])


@P.proof("ImuTracker::AddImuLinearAccelerationObservation", SRC)
def _(c):
    ex, this, v, ring = tracker(c)
    acc, av = obj(ex, "Eigen::Vector3d", "acceleration")
    now, last = ns(v.f["time_"]), ns(v.f["last_linear_acceleration_time_"])
    ex.assume(z3.And(now > 0, last <= now))
    tau = v.f["imu_gravity_time_constant_"]
    lens = []

    def two(args, n):
        a, b = ex.ev(args[0]), ex.ev(args[1])
        if not ring.equal(sum((x * x for x in b.e[1:]), b.e[0] * b.e[0]), z3.RealVal(1)):
            raise Unsupported("FromTwoVectors to a vector not known to have unit length")
        q = ex.sym("Eigen::Quaterniond", "tilt")
        length = ex.fresh(Real, "length")
        square(ring, q.f["w"], 1 - q.f["x"] * q.f["x"] - q.f["y"] * q.f["y"] - q.f["z"] * q.f["z"])
        ring.nonneg.add(ring.atom(length))
        back = ex.mat_op("*", conj(q), b, None)
        ex.st.pc.append(length > 0)
        for x, y in zip(a.e, back.e):
            ring.rule(x, length * y)
        lens.append(length)
        return q
    ex.f_FromTwoVectors = two
    call(ex, "ImuTracker::AddImuLinearAccelerationObservation", this, [acc])
    no_abort(ex, "AddImuLinearAccelerationObservation")
    reach(ex, "AddImuLinearAccelerationObservation")
    if len(lens) != 1:
        raise Unsupported("orientation not corrected by one rotation between two vectors")
    w = state_val(ex, this)
    dt = z3.ToReal(now - last) / G
    N = ex.num
    keep = N.fn("exp", N.div(-dt, tau))
    g, h = v.f["gravity_vector_"], w.f["gravity_vector_"]
    for i in range(3):
        post(ex, "the first observation is taken as is (%d)" % i, z3.Implies(last == 0, h.e[i] == av.e[i]))
        post(ex, "a later one moves the estimate by the exponential weight (%d)" % i,
             z3.Implies(last > 0, h.e[i] == g.e[i] + (1 - keep) * (av.e[i] - g.e[i])))
    post(ex, "the weight is in zero to one", z3.And(keep >= 0, keep <= 1))
    is_unit(ex, "the orientation stays a unit quaternion", w.f["orientation_"], ring)
    up = ex.mat_op("*", w.f["orientation_"], h, None)
    for i in range(3):
        ring_eq(ex, "the orientation takes gravity to the vertical (%d)" % i, up.e[i], lens[0] if i == 2 else z3.RealVal(0), ring)
    post(ex, "the observation is dated", ns(w.f["last_linear_acceleration_time_"]) == now)
    frame(ex, "AddImuLinearAccelerationObservation", v, w, ["orientation_", "gravity_vector_", "last_linear_acceleration_time_"])


@P.proof("ImuTracker::AddImuAngularVelocityObservation", SRC)
def _(c):
    ex, this, v, ring = tracker(c)
    r, rv = obj(ex, "Eigen::Vector3d", "rate")
    call(ex, "ImuTracker::AddImuAngularVelocityObservation", this, [r])
    no_abort(ex, "AddImuAngularVelocityObservation")
    reach(ex, "AddImuAngularVelocityObservation")
    w = state_val(ex, this)
    post(ex, "the last rate is the observed one", eq(w.f["imu_angular_velocity_"], rv))
    frame(ex, "AddImuAngularVelocityObservation", v, w, ["imu_angular_velocity_"])


P.harness("C20.cc", ["builder/imu_tracker.cc", "common/simple_time.cc", "common/math.cc", "common/macro_defines.cc"],
          libs=["-lglog", "-lpthread"], time=4)
