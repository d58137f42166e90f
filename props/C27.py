"""C27: intake of sensor samples."""
from vf.driver import Property
from .collector import *

P = Property("C27")
P.assumptions.append("time stamp comparison: contract proved in C01")
P.assumptions.append("east-north-up coordinates are a function of the reference and the position (library contract)")
DFILES = FILES + ("builder/data/data_types.cc",)


def intake(c, msg):
    ex, this, v = collector(c, fp="uf")
    m, mv = obj(ex, "static_map::data::" + msg, "message")
    for f in ("imu_data_", "gps_data_", "odom_data_"):
        ex.assume(v.f[f].n >= 0)
    for f in ("enu_path_cloud_", "odom_path_cloud_"):
        ex.assume(v.f[f].f["points"].n >= 0)
    return ex, this, v, m, mv


def appended(ex, s, n, fields):
    """n is s with one sample at the end, given by its fields."""
    K = ex.fresh(Int, "K")
    post(ex, "one sample is stored", n.n == s.n + 1)
    post(ex, "earlier samples stay", z3.Implies(z3.And(0 <= K, K < s.n), eq(sel(n.el, K), sel(s.el, K))))
    x = sel(n.el, s.n)
    for f, want in fields.items():
        post(ex, "content of the new sample: " + f, eq(x.f[f], want))


@P.proof("DataCollector::AddSensorData(imu)", DFILES)
def _(c):
    ex, this, v, m, mv = intake(c, "ImuMsg")
    call(ex, "DataCollector::AddSensorData", this, [m], sig="ImuMsg")
    no_abort(ex, "imu intake")
    reach(ex, "imu intake")
    w = state_val(ex, this)
    appended(ex, v.f["imu_data_"], w.f["imu_data_"], {
        "time": mv.f["header"].f["stamp"], "acceleration": mv.f["linear_acceleration"],
        "angular_velocity": mv.f["angular_velocity"]})
    frame(ex, "other data stay", v, w, ("imu_data_",))


@P.proof("DataCollector::AddSensorData(gps)", DFILES)
def _(c):
    ex, this, v, m, mv = intake(c, "NavSatFixMsg")
    stamp = mv.f["header"].f["stamp"]
    ex.assume(wf(stamp))
    g = v.f["gps_data_"]
    last = sel(g.el, g.n - 1).f["time"]
    ex.assume(wf(last))
    r = v.f["reference_gps_point_"]
    fixed = mv.f["status"].f["status"] == 0
    ex.assume(z3.Implies(g.n > 0, r.f["has"]))
    call(ex, "DataCollector::AddSensorData", this, [m], sig="NavSatFixMsg")
    drop = z3.And(z3.Not(r.f["has"]), z3.Not(fixed))
    aborts_iff(ex, "a sample whose time does not increase", z3.And(z3.Not(drop), g.n > 0, ns(stamp) <= ns(last)))
    w = state_val(ex, this)
    reach(ex, "storing a sample", g.n > 0)
    reach(ex, "the first fix", z3.And(z3.Not(drop), g.n == 0))
    reach(ex, "dropping a sample", drop)
    post(ex, "nothing is kept before the first valid fix", z3.Implies(drop, z3.And(*[eq(v.f[k], w.f[k]) for k in v.f
                                                                                   if k in ("gps_data_", "reference_gps_point_")])))
    lla = [mv.f[k] for k in ("latitude", "longtitude", "altitude")]
    ref = [z3.If(r.f["has"], r.f["val"].f[k], x) for k, x in zip(("lat0", "lon0", "h0"), lla)]
    enu = [z3.Function("geo_" + k, *([lla[0].sort()] * 7))(*(ref + lla)) for k in ("east", "north", "up")]
    S = ex.st
    ex.st = S.copy()
    ex.st.pc.append(z3.Not(drop))
    n = w.f["reference_gps_point_"]
    post(ex, "the reference is the first valid fix, kept from then on",
         z3.And(n.f["has"], *[n.f["val"].f[k] == x for k, x in zip(("lat0", "lon0", "h0"), ref)]))
    appended(ex, g, w.f["gps_data_"], {
        "time": stamp, "status_fixed": fixed, "enu_position": Mat(3, 1, enu, "double"), "lat_lon_alt": Mat(3, 1, lla, "double")})
    ex.st = S
    frame(ex, "other data stay", v, w, ("gps_data_", "reference_gps_point_", "enu_path_cloud_"))


@P.proof("DataCollector::AddSensorData(odometry)", DFILES)
def _(c):
    ex, this, v, m, mv = intake(c, "OdomMsg")
    P0 = v.f["odom_init_offset_"]
    call(ex, "DataCollector::AddSensorData", this, [m], sig="OdomMsg")
    no_abort(ex, "odometry intake")
    w = state_val(ex, this)
    reach(ex, "the first sample", z3.Not(P0.f["has"]))
    reach(ex, "a later sample", P0.f["has"])
    p = mv.f["pose"].f["pose"]
    R = ex.quat_to_mat(p.f["orientation"]).e
    one, zero = [ex.num.const(x, "double") for x in (1.0, 0.0)]
    pose = Mat(4, 4, [R[3 * i + j] if i < 3 and j < 3 else p.f["position"].e[i] if i < 3 else one if j == 3 else zero
                      for i in range(4) for j in range(4)], "double")
    off = ite(P0.f["has"], P0.f["val"], pose)
    n = w.f["odom_init_offset_"]
    post(ex, "the reference is the first sample, kept from then on", z3.And(n.f["has"], eq(n.f["val"], off)))
    appended(ex, v.f["odom_data_"], w.f["odom_data_"], {
        "time": mv.f["header"].f["stamp"], "pose": ex.mat_op("*", ex.mat_inverse(off), pose, None)})
    frame(ex, "other data stay", v, w, ("odom_data_", "odom_init_offset_", "odom_path_cloud_"))


P.harness("C27.cc", NATIVE, time=4, cflags=("-fno-access-control",))
