"""C19: constant turn rate and velocity prediction."""
from vf.driver import Property
from vf.loops import Cand
from vf.ring import Ring
from .collector import *

P = Property("C19")
SRC = ("builder/pose_extrapolator.cc", "common/simple_time.cc")
PE = "static_map::PoseExtrapolator"
Q = "timed_pose_queue_"
T = "static_map::SimpleTime"
M4 = "Eigen::Matrix4d"
P.assumptions.append("real arithmetic: poses and velocities hold up to rounding")
P.assumptions.append("time stamp comparison and difference: contracts proved in C01; stamps within one microsecond count as equal, "
                     "a prediction asked again for such a time is the one already given")
P.assumptions.append("poses are added with increasing times and are rigid (rotation and translation)")
P.assumptions.append("conversions between angles, quaternions and matrices: contracts proved in C17; "
                     "Eigen's quaternion of a rotation matrix rotates like the matrix")
P.assumptions.append("the rough initial velocity is given before a prediction (it does not renew one already made)")


def predictor(c):
    ex = c.exec(fp="real")
    stamps(ex)
    ex.contracts.pop("SimpleTime::operator==", None)
    this, v = obj(ex, PE, "predictor")
    s = v.f[Q]
    k = z3.Int("k!q")
    tm = sel(s.el, k).f["time"]
    cache = v.f["cached_extrapolated_pose_"]
    ex.assume(z3.And(s.n >= 0, wf(v.f["pose_queue_duration_"]), ok(cache.f["time"])))
    ex.assume(forall([k], ok(tm), tm.f["nsecs"]))
    v = Struct(v.cls, dict(v.f, mode_=z3.IntVal(1)))
    put(ex, this, v)
    return ex, this, v, s


def ok(t):
    return z3.And(wf(t), t.f["u_judge_range"] == 1000)


def asked(ex, hint="time"):
    t, tv = obj(ex, T, hint)
    ex.assume(ok(tv))
    return t, tv


def rot(m):
    return Mat(3, 3, [m.at(i, j) for i in range(3) for j in range(3)], "double")


def at(s, i):
    return norm(sel(s.el, i))


def recorded_quaternions(ex):
    """Quaternions of matrices: arbitrary values, remembered with the matrix."""
    quats = []

    def to_quat(m):
        q = ex.sym("Eigen::Quaterniond", "q")
        quats.append((m, q))
        return q
    ex.mat_to_quat = to_quat
    return quats


@P.proof("PoseExtrapolator::InitialSimpleCTRV", SRC)
def _(c):
    ex = c.exec(fp="real")
    d, dv = obj(ex, T, "duration")
    ex.assume(ok(dv))
    p = ex.val(call(ex, "PoseExtrapolator::InitialSimpleCTRV", None, [d]))
    no_abort(ex, "InitialSimpleCTRV")
    reach(ex, "InitialSimpleCTRV")
    r = ex.deref(p)
    v = state_val(ex, r)
    post(ex, "the constant-velocity predictor", v.f["mode_"] == 1)
    post(ex, "no pose yet", v.f[Q].n == 0)
    post(ex, "the duration is kept", ns(v.f["pose_queue_duration_"]) == ns(dv))
    for f in ("linear", "angular"):
        post(ex, "no %s velocity yet" % f, z3.And(*[x == 0 for x in v.f[f + "_velocity_from_poses_"].e]))


def trimming(S, limit):
    """Invariants of a loop dropping samples from the front."""
    def cands(ex, info):
        out = [Cand("the dropped sample is not later", lambda st, i: z3.Or(i == 0, ns(at(S, i).f["time"]) <= limit)),
               Cand("two samples stay", lambda st, i: z3.Or(i == 0, i + 2 <= S.n))]
        for key, old, nl in info.hv:
            if z3.is_array(nl) and nl.sort().domain() == Int:
                def mk(key, old):
                    k = z3.Int("k!trim")

                    def fn(st, i):
                        a = ex.leaf_at(st, key)
                        return forall([k], z3.Implies(k >= 0, a[k] == old[k + i]), a[k])
                    return Cand("moved up", fn)
                out.append(mk(key, old))
            elif nl.sort() == Int:
                def ix(key):
                    L = lambda st: ex.leaf_at(st, key)
                    return Cand("sample before is not later", lambda st, i: z3.Or(L(st) <= 0, ns(at(S, L(st)).f["time"]) <= limit))
                out.append(ix(key))
        return out
    return cands


@P.proof("PoseExtrapolator::AddPose", SRC)
def _(c):
    ex, this, v, s = predictor(c)
    t, tv = asked(ex)
    p, pv = obj(ex, M4, "pose")
    newest = at(s, s.n - 1)
    ex.assume(z3.Implies(s.n > 0, ns(tv) > ns(newest.f["time"])))
    S = Seq(s.kind, s.n + 1, rebuild(s.el, [z3.Store(a, s.n, x) for a, x in zip(
        leaves(s.el), leaves(Struct("TimedPose", {"time": tv, "pose": pv})))]))
    dur = ns(v.f["pose_queue_duration_"])
    limit = z3.If(ns(tv) > dur, ns(tv) - dur, 0)
    ex.extra_cands.append(trimming(S, limit))
    ex.cand_filter = lambda name: not (name.startswith("unchanged") and Q in name)
    ex.num.opaque_div = True        # quotients are compared as such
    seen = []

    def eulers(ex, t_, args, n):
        e = Mat(3, 1, [ex.fresh(Real, "angle") for _ in range(3)], "double")
        seen.append((norm(ex.val(args[0])), e))
        return e
    ex.contracts["RotationMatrixToEulerAngles"] = eulers
    quats = recorded_quaternions(ex)
    call(ex, "PoseExtrapolator::AddPose", this, [t, p])
    no_abort(ex, "AddPose")
    for n in (0, 1, 2, 5):
        reach(ex, "AddPose after %d poses" % n, s.n == n)
    w = state_val(ex, this)
    r = w.f[Q]
    f = S.n - r.n
    k = z3.Int("k!any")
    post(ex, "the retained poses are the newest ones, at least two of them",
         z3.And(f >= 0, z3.Or(f == 0, r.n >= 2)))
    for a, b in zip(leaves(r.el), leaves(S.el)):
        post(ex, "each retained pose is unchanged", z3.Implies(z3.And(0 <= k, k < r.n), a[k] == b[k + f]))
    post(ex, "poses are dropped only while a later one is old enough",
         z3.Or(f == 0, ns(at(S, f).f["time"]) <= limit))
    post(ex, "all poses are dropped that a later old one makes superfluous",
         z3.Or(r.n <= 2, ns(at(S, f + 1).f["time"]) > limit))
    old, new = at(r, z3.IntVal(0)), at(r, r.n - 1)
    span = ns(new.f["time"]) - ns(old.f["time"])
    two = S.n >= 2
    long = z3.And(two, span >= dur)
    reach(ex, "AddPose with a velocity estimate", z3.And(long, s.n == 3))
    reach(ex, "AddPose with a short span", z3.And(two, span < dur, s.n == 2))
    delta = z3.ToReal(span) / G
    # the times increase
    given(ex, z3.Or(f == s.n, ns(at(S, f).f["time"]) < ns(tv)))
    lin, ang = "linear_velocity_from_poses_", "angular_velocity_from_poses_"
    for i in range(3):
        post(ex, "linear velocity of the retained poses (%d)" % i, z3.Implies(
            long, w.f[lin].e[i] == ex.num.div(pv.at(i, 3) - old.f["pose"].at(i, 3), delta)))
        post(ex, "velocity is kept when the span is short (%d)" % i, z3.Implies(
            z3.Not(long), z3.And(w.f[lin].e[i] == v.f[lin].e[i], w.f[ang].e[i] == v.f[ang].e[i])))
    if len(seen) != 1:
        raise Unsupported("turn between the poses not by one conversion")
    (m, e), = seen
    ro, rn = rot(old.f["pose"]), rot(new.f["pose"])
    ring = Ring()
    if quats:
        # as a product of the quaternions of two matrices, in either order of evaluation
        if len(quats) != 2:
            raise Unsupported("turn between the poses not by two quaternions")
        def turn(o, n):
            inv = Struct("Quaternion", {x: o.f[x] if x == "w" else -o.f[x] for x in "wxyz"})
            return ex.quat_to_mat(ex.quat_mul(inv, n))
        (a, qa), (b, qb) = quats
        want = turn(qa, qb)
        if not all(ring.equal(x, y) for x, y in zip(m.e, want.e)):
            (a, qa), (b, qb) = (b, qb), (a, qa)
            want = turn(qa, qb)
        for i in range(9):
            post(ex, "turn from the oldest retained pose (%d)" % i, z3.Implies(long, a.e[i] == ro.e[i]))
            post(ex, "turn to the newest retained pose (%d)" % i, z3.Implies(long, b.e[i] == rn.e[i]))
    else:
        want = ex.mat_op("*", Mat(3, 3, [ro.at(j, i) for i in range(3) for j in range(3)], "double"), rn, None)
    for i in range(9):
        if ring.equal(m.e[i], want.e[i]):
            ring_eq(ex, "turn from one to the other (%d)" % i, m.e[i], want.e[i], ring)
        else:
            post(ex, "turn from one to the other (%d)" % i, z3.Implies(long, m.e[i] == want.e[i]))
    for i in range(3):
        post(ex, "angular velocity of the retained poses (%d)" % i, z3.Implies(long, w.f[ang].e[i] == ex.num.div(e.e[i], delta)))
    cache = w.f["cached_extrapolated_pose_"]
    post(ex, "no outdated prediction is kept", z3.And(
        ns(cache.f["time"]) == ns(tv), cache.f["time"].f["u_judge_range"] == 1000, eq(cache.f["pose"], pv)))
    frame(ex, "AddPose", v, w, [Q, lin, ang, "cached_extrapolated_pose_"])


@P.proof("PoseExtrapolator::ExtrapolatePose", SRC)
def _(c):
    ex, this, v, s = predictor(c)
    t, tv = asked(ex)
    ex.assume(s.n >= 1)
    new = at(s, s.n - 1)
    pose = new.f["pose"]
    cache = v.f["cached_extrapolated_pose_"]
    ct, nt, at_ = ns(cache.f["time"]), ns(new.f["time"]), ns(tv)
    # kept by AddPose and by this function
    ex.assume(z3.And(ct >= nt, z3.Implies(ct == nt, eq(cache.f["pose"], pose))))
    ex.assume(z3.And(*[pose.at(3, j) == (1 if j == 3 else 0) for j in range(4)]))
    turn = []

    def angles(ex, t_, args, n):
        e = norm(ex.val(args[0]))
        q = ex.sym("Eigen::Quaterniond", "turn")
        ex.st.pc.append(z3.Implies(z3.And(*[x == 0 for x in e.e]),
                                   z3.And(*[q.f[k] == (1 if k == "w" else 0) for k in "wxyz"])))
        turn.append((e, q))
        return q
    ex.contracts["EulerAnglesToQuaternion"] = angles
    quats = recorded_quaternions(ex)
    res = norm(ex.val(call(ex, "PoseExtrapolator::ExtrapolatePose", this, [t])))
    late = at_ >= nt
    aborts_iff(ex, "ExtrapolatePose", z3.Not(late))
    reach(ex, "ExtrapolatePose", late)
    diff = z3.If(ct >= at_, ct - at_, at_ - ct)
    hit = diff <= 1000
    reach(ex, "ExtrapolatePose, new time", z3.Not(hit))
    reach(ex, "ExtrapolatePose, same time again", hit)
    reach(ex, "ExtrapolatePose, newest time", z3.And(at_ == nt, z3.Not(hit)))
    if len(turn) != 1:
        raise Unsupported("rotation not by one conversion of angles")
    (e, q), = turn
    w = state_val(ex, this)
    dt = z3.ToReal(at_ - nt) / G
    lin, ang = v.f["linear_velocity_from_poses_"], v.f["angular_velocity_from_poses_"]
    miss = z3.Not(hit)
    post(ex, "a prediction asked again is the same", z3.Implies(hit, eq(res, cache.f["pose"])))
    for i in range(3):
        post(ex, "translation: newest plus velocity times elapsed time (%d)" % i,
             z3.Implies(miss, res.at(i, 3) == pose.at(i, 3) + lin.e[i] * dt))
        post(ex, "rotation: angle is rate times elapsed time (%d)" % i, z3.Implies(miss, e.e[i] == ang.e[i] * dt))
    if len(quats) != 1:
        raise Unsupported("rotation not by one quaternion of a matrix")
    (m, qn), = quats
    want = ex.quat_to_mat(ex.quat_mul(qn, q))
    for i in range(9):
        post(ex, "rotation: of the newest pose (%d)" % i, z3.Implies(miss, m.e[i] == rot(pose).e[i]))
    for i in range(3):
        for j in range(3):
            post(ex, "rotation: newest turned by that angle (%d,%d)" % (i, j), z3.Implies(miss, res.at(i, j) == want.at(i, j)))
    post(ex, "last row", z3.Implies(miss, z3.And(*[res.at(3, j) == (1 if j == 3 else 0) for j in range(4)])))
    here = z3.And(at_ == nt, miss)
    for i in range(3):
        post(ex, "at the newest time the newest position (%d)" % i, z3.Implies(here, res.at(i, 3) == pose.at(i, 3)))
        post(ex, "at the newest time no turn (%d)" % i, z3.Implies(here, e.e[i] == 0))
    none = Struct("Quaternion", {k: z3.RealVal(1 if k == "w" else 0) for k in "wxyz"})
    for i, (x, y) in enumerate(zip(ex.quat_to_mat(ex.quat_mul(qn, none)).e, ex.quat_to_mat(qn).e)):
        ring_eq(ex, "no turn leaves the rotation of the newest pose (%d)" % i, x, y, Ring())
    post(ex, "at the newest time, not asked since, the newest pose", z3.Implies(z3.And(at_ == nt, ct == nt), eq(res, pose)))
    nc = w.f["cached_extrapolated_pose_"]
    post(ex, "the answer is remembered with its time", z3.If(
        hit, eq(nc, cache), z3.And(ns(nc.f["time"]) == at_, nc.f["time"].f["u_judge_range"] == 1000, eq(nc.f["pose"], res))))
    post(ex, "what is remembered is not older than the newest pose", ns(nc.f["time"]) >= nt)
    frame(ex, "ExtrapolatePose", v, w, ["cached_extrapolated_pose_"])


@P.proof("other calls on the predictor", SRC)
def _(c):
    ex, this, v, s = predictor(c)
    r = norm(ex.val(call(ex, "PoseExtrapolator::GetLastPoseTime", this, [])))
    no_abort(ex, "GetLastPoseTime")
    reach(ex, "GetLastPoseTime", s.n == 0)
    reach(ex, "GetLastPoseTime", s.n == 3)
    post(ex, "the newest pose's time, zero before the first", ns(r) == z3.If(s.n == 0, 0, ns(at(s, s.n - 1).f["time"])))
    frame(ex, "GetLastPoseTime", v, state_val(ex, this), [])
    ex, this, v, s = predictor(c)
    d, dv = obj(ex, "Eigen::Vector3d", "velocity")
    call(ex, "PoseExtrapolator::InitRoughLinearVelocity", this, [d])
    no_abort(ex, "InitRoughLinearVelocity")
    reach(ex, "InitRoughLinearVelocity")
    w = state_val(ex, this)
    post(ex, "the given velocity is used", eq(w.f["linear_velocity_from_poses_"], dv))
    frame(ex, "InitRoughLinearVelocity", v, w, ["linear_velocity_from_poses_"])
    for f, t in (("AddImuData", "static_map::data::ImuMsg"), ("AddOdometryData", "static_map::data::OdomMsg")):
        ex, this, v, s = predictor(c)
        d, dv = obj(ex, t, "message")
        call(ex, "PoseExtrapolator::" + f, this, [d])
        no_abort(ex, f)
        reach(ex, f)
        frame(ex, f + " has no effect on this predictor", v, state_val(ex, this), [])


P.harness("C19.cc", ["builder/pose_extrapolator.cc", "builder/imu_tracker.cc", "builder/data/data_types.cc", "common/simple_time.cc",
                     "common/math.cc", "common/macro_defines.cc"], libs=["-lglog", "-lpthread"], time=4)
