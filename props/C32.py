"""C32: prediction with an inertial unit."""
from vf.driver import Property
from vf.loops import Cand
from vf.ring import Ring
from .collector import *

P = Property("C32")
SRC = ("builder/pose_extrapolator.cc", "common/simple_time.cc")

PE = "static_map::PoseExtrapolator"
T = "static_map::SimpleTime"
IT = "static_map::ImuTracker"
M4 = "Eigen::Matrix4d"
P.assumptions.append("real arithmetic: poses and velocities hold up to rounding")
P.assumptions.append("time stamp comparison and difference: contracts proved in C01")
P.assumptions.append("the attitude tracker: its operations are functions of its state and their arguments; their meaning is proved in C20")
P.assumptions.append("inertial samples come with increasing times")


def ok(t):
    return z3.And(wf(t), t.f["u_judge_range"] == 1000)


def asked(ex, hint="time"):
    t, tv = obj(ex, T, hint)
    ex.assume(ok(tv))
    return t, tv


class Tracker:
    """Operations of the attitude tracker as functions of its state."""
    FIELDS = ("last_linear_acceleration_time_", "orientation_", "gravity_vector_", "imu_angular_velocity_")

    def __init__(self, ex, proto):
        self.ex, self.proto = ex, norm(proto)
        ex.assumed.add("ImuTracker: Advance and the observations are functions of the tracker and their arguments (C20)")
        C = ex.contracts
        C["ImuTracker::Advance"] = self.handler("advance", self.advance, clock=True)
        C["ImuTracker::AddImuLinearAccelerationObservation"] = self.handler("acceleration", self.acceleration)
        C["ImuTracker::AddImuAngularVelocityObservation"] = self.handler("rate", self.rate)

    def event(self, name, s, args):
        s = norm(s)
        rest = [(f, k) for f in self.FIELDS for k in range(len(leaves(s.f[f])))]
        a = leaves(s) + args
        new = {}
        for f in self.FIELDS:
            ls = leaves(s.f[f])
            new[f] = rebuild(s.f[f], [z3.Function("tracker_%s_%s%d" % (name, f, k), *([x.sort() for x in a] + [l.sort()]))(*a)
                                      for k, l in enumerate(ls)])
        return Struct(s.cls, dict(s.f, **new))

    def advance(self, s, t):
        r = self.event("advance", s, leaves(norm(t)))
        return Struct(r.cls, dict(r.f, time_=norm(t)))

    def acceleration(self, s, a):
        return self.event("acceleration", s, leaves(norm(a)))

    def rate(self, s, a):
        return self.event("rate", s, leaves(norm(a)))

    def handler(self, name, f, clock=False):
        def h(ex, this, args, n):
            r = ex.ref(this)
            s, a = norm(ex.read(r)), norm(ex.val(args[0]))
            if clock:
                ex.safe(ns(a) >= ns(s.f["time_"]), "the clock of the tracker does not go back")
            ex.write(r, f(s, a))
            return None
        return h


def predictor(c, tracker=True):
    ex = c.exec(fp="real")
    stamps(ex)
    ex.contracts.pop("SimpleTime::operator==", None)
    this, v = obj(ex, PE, "predictor")
    v = Struct(v.cls, dict(v.f, mode_=z3.IntVal(0)))
    put(ex, this, v)
    return ex, this, v


def stamp(s, k):
    return norm(sel(s.el, k)).f["header"].f["stamp"]


def ordered(ex, s):
    """Samples with valid and increasing stamps."""
    j, k = z3.Ints("j!s k!s")
    tm = lambda k: stamp(s, k)
    ex.assume(s.n >= 0)
    ex.assume(forall([k], ok(tm(k)), tm(k).f["nsecs"]))
    ex.assume(forall([j, k], z3.Implies(z3.And(0 <= j, j < k, k < s.n), ns(tm(j)) < ns(tm(k))),
                     z3.MultiPattern(tm(j).f["nsecs"], tm(k).f["nsecs"])))


def first_from(ex, s, t, hint):
    """Position of the first sample not before t (ordered samples)."""
    r = ex.fresh(Int, hint)
    ex.assume(z3.And(0 <= r, r <= s.n, z3.Implies(r < s.n, ns(stamp(s, r)) >= t),
                     z3.Implies(r > 0, ns(stamp(s, r - 1)) < t)))
    return r


@P.proof("PoseExtrapolator::AdvanceImuTracker", SRC)
def _(c):
    ex, this, v = predictor(c)
    s = v.f["imu_data_"]
    ordered(ex, s)
    t, tv = asked(ex)
    k, kv = obj(ex, IT, "tracker")
    kv = norm(kv)
    ex.assume(ok(kv.f["time_"]))
    ex.assume(v.f["odometry_data_"].n >= 0)
    K = Tracker(ex, kv)
    zero = z3.IntVal(0)
    first = stamp(s, zero)
    early = ns(kv.f["time_"]) < ns(first)
    start = ite(early, K.advance(kv, first), kv)
    lo = first_from(ex, s, ns(start.f["time_"]), "lo")
    hi = first_from(ex, s, ns(tv), "hi")

    def step(x, i):
        m = norm(sel(s.el, lo + i))
        x = K.advance(x, m.f["header"].f["stamp"])
        return K.rate(K.acceleration(x, m.f["linear_acceleration"]), m.f["angular_velocity"])
    track = Fold(ex, "track", start, step)
    ex.folds.append(track)

    def cands(ex, info):
        out = []
        tr = lambda st: norm(ex.root_val(st, k.loc.root))
        out.append(Cand("the samples so far have been applied", lambda st, i: eq(tr(st), track.at(i))))
        out.append(Cand("clock not after the asked time", lambda st, i: ns(tr(st).f["time_"]) <= ns(tv)))
        out.append(Cand("clock not after the next sample", lambda st, i: z3.Implies(
            lo + i < s.n, ns(tr(st).f["time_"]) <= ns(stamp(s, lo + i)))))
        out.append(Cand("samples before the asked time", lambda st, i: z3.Or(i == 0, ns(stamp(s, lo + i - 1)) < ns(tv))))
        for key, old, nl in info.hv:
            if nl.sort() == Int:
                out.append(Cand("position " + str(key), lambda st, i, key=key: ex.leaf_at(st, key) == lo + i))
        return out
    ex.extra_cands.append(cands)
    ex.cand_filter = lambda nm: nm.startswith(("loop bound", "frame"))
    call(ex, "PoseExtrapolator::AdvanceImuTracker", this, [t, ptr(ex, k)])
    late = ns(tv) >= ns(kv.f["time_"])
    aborts_iff(ex, "AdvanceImuTracker", z3.Not(late))
    none = z3.Or(s.n == 0, ns(tv) < ns(first))
    for name, cond in (("no sample", s.n == 0), ("no sample yet", z3.And(s.n > 0, none)),
                       ("samples", z3.And(z3.Not(none), hi - lo >= 2)), ("samples, clock before the first", z3.And(z3.Not(none), early))):
        reach(ex, "AdvanceImuTracker, " + name, z3.And(late, cond))
    w = norm(state_val(ex, k))
    rate = ite(v.f["odometry_data_"].n < 2, v.f["angular_velocity_from_poses_"], v.f["angular_velocity_from_odometry_"])
    up = Mat(3, 1, [z3.RealVal(0), z3.RealVal(0), z3.RealVal(1)], "double")
    fake = K.rate(K.acceleration(K.advance(kv, tv), up), rate)
    done = K.advance(track.at(z3.If(hi > lo, hi - lo, 0)), tv)
    for n_, (a, b, d) in enumerate(zip(leaves(w), leaves(fake), leaves(done))):
        post(ex, "without samples: turned at the known rate, gravity upright (%d)" % n_, z3.Implies(none, a == b))
        post(ex, "each sample in between once, in order, then up to the asked time (%d)" % n_, z3.Implies(z3.Not(none), a == d))
    frame(ex, "AdvanceImuTracker", v, state_val(ex, this), [])


def at(s, i):
    return norm(sel(s.el, i))


def poses(ex, s):
    k = z3.Int("k!q")
    tm = sel(s.el, k).f["time"]
    ex.assume(s.n >= 0)
    ex.assume(forall([k], ok(tm), tm.f["nsecs"]))


def trimming(S, limit, keep, some):
    """Invariants of a loop dropping samples from the front."""
    def cands(ex, info):
        out = [Cand("the dropped sample is not later", lambda st, i: z3.Or(i == 0, z3.And(some, ns(stamp(S, i)) <= limit))),
               Cand("samples stay", lambda st, i: z3.Or(i == 0, i + keep <= S.n))]
        for key, old, nl in info.hv:
            if z3.is_array(nl) and nl.sort().domain() == Int:
                def mk(key, old):
                    k = z3.Int("k!trim")

                    def fn(st, i):
                        a = ex.leaf_at(st, key)
                        return forall([k], z3.Implies(k >= 0, a[k] == old[k + i]), a[k])
                    return Cand("moved up", fn)
                out.append(mk(key, old))
            elif nl.sort() == Int:
                def ix(key):
                    L = lambda st: ex.leaf_at(st, key)
                    return Cand("sample before is not later", lambda st, i: z3.Or(L(st) <= 0, ns(stamp(S, L(st))) <= limit))
                out.append(ix(key))
        return out
    return cands


@P.proof("PoseExtrapolator::AddImuData", SRC)
def _(c):
    ex, this, v = predictor(c)
    s, q = v.f["imu_data_"], v.f["timed_pose_queue_"]
    poses(ex, q)
    k = z3.Int("k!i")
    ex.assume(s.n >= 0)
    ex.assume(forall([k], ok(stamp(s, k)), stamp(s, k).f["nsecs"]))
    m, mv = obj(ex, "static_map::data::ImuMsg", "sample")
    ex.assume(ok(mv.f["header"].f["stamp"]))
    S = Seq(s.kind, s.n + 1, rebuild(s.el, [z3.Store(a, s.n, x) for a, x in zip(leaves(s.el), leaves(mv))]))
    newest = ns(at(q, q.n - 1).f["time"])
    ex.extra_cands.append(trimming(S, newest, 1, q.n > 0))
    ex.cand_filter = lambda name: not name.startswith("unchanged") or "imu_data_" not in name
    call(ex, "PoseExtrapolator::AddImuData", this, [m])
    aborts_iff(ex, "AddImuData", z3.And(q.n > 0, ns(mv.f["header"].f["stamp"]) < newest))
    reach(ex, "AddImuData, first", z3.And(s.n == 0, q.n == 0))
    reach(ex, "AddImuData, later", z3.And(s.n == 3, q.n == 2))
    w = state_val(ex, this)
    r = w.f["imu_data_"]
    f = S.n - r.n
    j = z3.Int("k!any")
    post(ex, "the retained samples are the newest ones, at least the given one", z3.And(f >= 0, r.n >= 1))
    for a, b in zip(leaves(r.el), leaves(S.el)):
        post(ex, "each retained sample is unchanged", z3.Implies(z3.And(0 <= j, j < r.n), a[j] == b[j + f]))
    post(ex, "samples are dropped only when a later one is not after the newest pose",
         z3.Or(f == 0, z3.And(q.n > 0, ns(stamp(S, f)) <= newest)))
    frame(ex, "AddImuData", v, w, ["imu_data_"])


def advancing(ex):
    """Advancing a tracker (contract proved above): its clock is the asked
    time; the attitude it comes to is recorded."""
    seen = []

    def h(ex, this, args, n):
        t = norm(ex.val(args[0]))
        r = ex.deref(ex.val(args[1]))
        before = norm(ex.read(r))
        ex.safe(ns(t) >= ns(before.f["time_"]), "the clock of the tracker does not go back")
        after = ex.sym(IT, "advanced")
        after = norm(Struct(after.cls, dict(after.f, time_=t)))
        ex.write(r, after)
        seen.append((r, t, before, after))
        return None
    ex.contracts["PoseExtrapolator::AdvanceImuTracker"] = h
    return seen


def with_trackers(ex, this, v):
    """The predictor with its three attitude trackers."""
    out = {}
    for f in ("imu_tracker_", "extrapolation_imu_tracker_", "odometry_imu_tracker_"):
        r, x = obj(ex, IT, f)
        ex.assume(ok(x.f["time_"]))
        out[f] = (r, norm(x))
    v = Struct(v.cls, dict(v.f, **{f: ptr(ex, r) for f, (r, x) in out.items()}))
    put(ex, this, v)
    return v, out


def conj(q):
    return Struct("Quaternion", {x: q.f[x] if x == "w" else -q.f[x] for x in "wxyz"})


@P.proof("PoseExtrapolator::ExtrapolatePose", SRC)
def _(c):
    ex, this, v = predictor(c)
    q = v.f["timed_pose_queue_"]
    poses(ex, q)
    v, tr = with_trackers(ex, this, v)
    t, tv = asked(ex)
    ex.assume(z3.And(q.n >= 1, v.f["odometry_data_"].n >= 0))
    new = at(q, q.n - 1)
    pose = new.f["pose"]
    cache = v.f["cached_extrapolated_pose_"]
    ex.assume(ok(cache.f["time"]))
    (mr, mv), (er, ev) = tr["imu_tracker_"], tr["extrapolation_imu_tracker_"]
    seen = advancing(ex)
    quats = []

    def to_quat(m):
        x = ex.sym("Eigen::Quaterniond", "q")
        quats.append((m, x))
        return x
    ex.mat_to_quat = to_quat
    res = norm(ex.val(call(ex, "PoseExtrapolator::ExtrapolatePose", this, [t])))
    ct, nt, at_ = ns(cache.f["time"]), ns(new.f["time"]), ns(tv)
    miss = z3.If(ct >= at_, ct - at_, at_ - ct) > 1000
    aborts_iff(ex, "ExtrapolatePose", z3.Or(at_ < nt, z3.And(miss, at_ < ns(ev.f["time_"]))))
    reach(ex, "ExtrapolatePose, new time", z3.And(miss, at_ > nt))
    reach(ex, "ExtrapolatePose, same time again", z3.Not(miss))
    if len(seen) != 1 or len(quats) != 1:
        raise Unsupported("rotation not by one advanced tracker and one quaternion of a matrix")
    (r, ta, before, after), = seen
    (m, qn), = quats
    post(ex, "the tracker for predictions advances", z3.BoolVal(r.loc.root == er.loc.root))
    post(ex, "to the asked time", z3.Implies(miss, ns(ta) == at_))
    turn = ex.quat_mul(conj(mv.f["orientation_"]), after.f["orientation_"])
    want = ex.quat_to_mat(ex.quat_mul(qn, turn))
    for i in range(9):
        post(ex, "rotation: of the newest pose (%d)" % i, z3.Implies(miss, m.e[i] == pose.at(i // 3, i % 3)))
        post(ex, "rotation: newest turned by the change of attitude (%d)" % i,
             z3.Implies(miss, res.at(i // 3, i % 3) == want.e[i]))
    dt = z3.ToReal(at_ - nt) / G
    lin = ite(v.f["odometry_data_"].n < 2, v.f["linear_velocity_from_poses_"], v.f["linear_velocity_from_odometry_"])
    for i in range(3):
        post(ex, "translation: newest plus velocity times elapsed time (%d)" % i,
             z3.Implies(miss, res.at(i, 3) == pose.at(i, 3) + lin.e[i] * dt))
    post(ex, "last row", z3.Implies(miss, z3.And(*[res.at(3, j) == (1 if j == 3 else 0) for j in range(4)])))
    post(ex, "a prediction asked again is the same", z3.Implies(z3.Not(miss), eq(res, cache.f["pose"])))
    post(ex, "the attitude at the newest pose stays", eq(norm(state_val(ex, mr)), mv))
    post(ex, "asked again the attitude does not move", z3.Implies(z3.Not(miss), eq(norm(state_val(ex, er)), ev)))
    nc = state_val(ex, this).f["cached_extrapolated_pose_"]
    post(ex, "the answer is remembered with its time", z3.If(
        miss, z3.And(ns(nc.f["time"]) == at_, eq(nc.f["pose"], res)), eq(nc, cache)))
    frame(ex, "ExtrapolatePose", v, state_val(ex, this), ["cached_extrapolated_pose_"])


def add_pose(c, started):
    ex, this, v = predictor(c)
    q, s = v.f["timed_pose_queue_"], v.f["imu_data_"]
    poses(ex, q)
    k = z3.Int("k!i")
    ex.assume(z3.And(s.n >= 0, v.f["odometry_data_"].n >= 0, wf(v.f["pose_queue_duration_"])))
    ex.assume(forall([k], ok(stamp(s, k)), stamp(s, k).f["nsecs"]))
    t, tv = asked(ex)
    p, pv = obj(ex, M4, "pose")
    if started:
        v, tr = with_trackers(ex, this, v)
        former = tr["imu_tracker_"][1]
        ex.assume(ns(former.f["time_"]) <= ns(tv))
    else:
        none = Ptr(z3.IntVal(0), IT)
        v = Struct(v.cls, dict(v.f, imu_tracker_=none, extrapolation_imu_tracker_=none, odometry_imu_tracker_=none))
        put(ex, this, v)
        ex.assume(q.n == 0)
    seen = []
    advance = advancing(ex)
    inner = ex.contracts["PoseExtrapolator::AdvanceImuTracker"]

    def advanced(ex, this_, args, n):
        seen.append(norm(ex.read(ex.ref(this_))))
        return inner(ex, this_, args, n)
    ex.contracts["PoseExtrapolator::AdvanceImuTracker"] = advanced
    vel = {f: ex.sym("Eigen::Vector3d", f) for f in ("linear_velocity_from_poses_", "angular_velocity_from_poses_")}

    def update(ex, this_, args, n):
        r = ex.ref(this_)
        x = ex.read(r)
        ex.write(r, Struct(x.cls, dict(x.f, **vel)))
        return None
    ex.contracts["PoseExtrapolator::UpdateVelocitiesFromPoses"] = update
    ex.assumed.add("velocities from the retained poses: proved in C19")
    ex.extra_cands.append(trimming(s, ns(tv), 1, z3.BoolVal(True)))
    ex.extra_cands.append(lambda ex, info: [Cand("two poses stay", lambda st, i: z3.Or(i == 0, i + 2 <= q.n + 1))])
    ex.cand_filter = lambda name: not (name.startswith("unchanged") and "_queue_" in name) and not (
        name.startswith("unchanged") and "data_" in name)
    name = "AddPose, " + ("later pose" if started else "first pose")
    call(ex, "PoseExtrapolator::AddPose", this, [t, p])
    no_abort(ex, name)
    reach(ex, name + ", no sample", s.n == 0)
    reach(ex, name + ", samples", s.n == 3)
    w = state_val(ex, this)
    if len(advance) != 1 or len(seen) != 1:
        raise Unsupported("not one advance of the tracker")
    (r, ta, before, after), = advance
    post(ex, name + ": the attitude advances to the time of the pose", ns(ta) == ns(tv))
    if started:
        post(ex, name + ": the attitude goes on from the one at the former pose", eq(before, former))
    else:
        first = ns(stamp(s, z3.IntVal(0)))
        post(ex, name + ": the attitude starts with the first sample or this pose", ns(before.f["time_"]) == z3.If(
            z3.And(s.n > 0, first < ns(tv)), first, ns(tv)))
        post(ex, name + ": level at the start", z3.And(*[before.f["orientation_"].f[x] == (1 if x == "w" else 0) for x in "wxyz"]))
        post(ex, name + ": at rest at the start", z3.And(*[x == 0 for x in before.f["imu_angular_velocity_"].e]))
    post(ex, name + ": all samples known are used", eq(seen[0].f["imu_data_"], s))
    for f, x in vel.items():
        post(ex, name + ": with the renewed velocity", eq(seen[0].f[f], x))
    for f in ("imu_tracker_", "extrapolation_imu_tracker_", "odometry_imu_tracker_"):
        post(ex, "%s: there is a tracker (%s)" % (name, f), w.f[f].t != 0)
        post(ex, "%s: it has this attitude (%s)" % (name, f), eq(norm(ex.read(ex.deref(w.f[f]))), after))
    for f, g in (("imu_tracker_", "extrapolation_imu_tracker_"), ("imu_tracker_", "odometry_imu_tracker_"),
                 ("extrapolation_imu_tracker_", "odometry_imu_tracker_")):
        post(ex, name + ": trackers of their own", w.f[f].t != w.f[g].t)
    kept = w.f["imu_data_"]
    f = s.n - kept.n
    j = z3.Int("k!any")
    post(ex, name + ": the retained samples are the newest ones", z3.And(f >= 0, z3.Or(f == 0, kept.n >= 1)))
    for a, b in zip(leaves(kept.el), leaves(s.el)):
        post(ex, name + ": each retained sample is unchanged", z3.Implies(z3.And(0 <= j, j < kept.n), a[j] == b[j + f]))
    post(ex, name + ": samples are dropped only when a later one is not after the pose",
         z3.Or(f == 0, ns(stamp(s, f)) <= ns(tv)))
    cache = w.f["cached_extrapolated_pose_"]
    post(ex, name + ": no outdated prediction is kept", z3.And(ns(cache.f["time"]) == ns(tv), eq(cache.f["pose"], pv)))
    nq = w.f["timed_pose_queue_"]
    last = at(nq, nq.n - 1)
    post(ex, name + ": the pose is the newest one", z3.And(nq.n >= 1, ns(last.f["time"]) == ns(tv), eq(last.f["pose"], pv)))


@P.proof("PoseExtrapolator::AddPose, first pose", SRC + ("builder/imu_tracker.cc",))
def _(c):
    add_pose(c, False)


@P.proof("PoseExtrapolator::AddPose, later pose", SRC + ("builder/imu_tracker.cc",))
def _(c):
    add_pose(c, True)


P.harness("C32.cc", ["builder/pose_extrapolator.cc", "builder/imu_tracker.cc", "builder/data/data_types.cc", "common/simple_time.cc",
                     "common/math.cc", "common/macro_defines.cc"], libs=["-lglog", "-lpthread"], time=6)
