"""C26: sensor buffers are only touched with their lock held."""
from vf.driver import Property
from vf.ast import HERE
from .collector import *

P = Property("C26")
SRC = FILES + (HERE + "/stubs/collector.cc",)
P.assumptions.append("point clouds are given by one thread (documented); the clouds themselves are handed over, not shared")
P.assumptions.append("mutual exclusion of std::mutex; construction and destruction are not concurrent with calls")
P.assumptions.append("access to a field is tracked down to the member of the data collector")
SHARED = ("imu_data_", "gps_data_", "odom_data_", "cloud_data_", "cloud_data_before_preprocessing_", "odom_init_offset_",
          "reference_gps_point_", "enu_path_cloud_", "odom_path_cloud_", "kill_cloud_preprocessing_thread_")
PRODUCER = ("accumulated_point_cloud_", "accumulated_cloud_count_", "first_time_in_accmulated_cloud_", "last_whole_frame_time_")
WORKER = ("got_clouds_count_",)


def world(c):
    ex, this, v = collector(c, fp="uf")
    ex.locks = {}
    ex.guarded = this.loc.root
    ex.safety = False
    ex.infer = False
    C = ex.contracts
    C["SimpleTime::operator=="] = lambda ex, this, args, n: ns(ex.val(this)) == ns(ex.val(args[0]))
    C["SimpleTime::Sleep"] = lambda ex, this, args, n: None
    C["SimpleTime::FromSec"] = lambda ex, this, args, n: ex.sym("static_map::SimpleTime", "t")
    C["SimpleTime::ToSec"] = lambda ex, this, args, n: ex.sym("double", "sec")
    C["Factory::SetInputCloud"] = lambda ex, this, args, n: None
    C["Factory::Filter"] = lambda ex, this, args, n: None
    C["InterpolateTransform"] = lambda ex, this, args, n: ex.sym("Eigen::Matrix4d", "blend")
    C["OdomMsg::PoseInMatrix"] = lambda ex, this, args, n: ex.sym("Eigen::Matrix4d", "pose")
    C["ToInnerPointCloud"] = lambda ex, this, args, n: Ptr(ex.fresh(Int, "cloud"), "InnerCloudType")
    C["InnerCloudType::operator+="] = lambda ex, this, args, n: this
    ex.contracts["ToLocalTime"] = lambda ex, this, args, n: ex.sym("static_map::SimpleTime", "t")
    return ex, this, v


def arg(ex, t, hint):
    return obj(ex, t, hint)[0]


T_ = "static_map::SimpleTime"
M_ = "static_map::data::"
CALLS = [
    ("AddSensorData(imu)", "AddSensorData", "ImuMsg", lambda ex: [arg(ex, M_ + "ImuMsg", "m")]),
    ("AddSensorData(gps)", "AddSensorData", "NavSatFixMsg", lambda ex: [arg(ex, M_ + "NavSatFixMsg", "m")]),
    ("AddSensorData(odometry)", "AddSensorData", "OdomMsg", lambda ex: [arg(ex, M_ + "OdomMsg", "m")]),
    ("AddSensorData(cloud)", "AddSensorData", "PointXYZI", lambda ex: [arg(ex, "std::shared_ptr<pcl::PointCloud<pcl::PointXYZI>>", "m")]),
    ("InterpolateGps", "InterpolateGps", None, lambda ex: [arg(ex, T_, "t"), ex.sym("double", "th"), ex.sym("bool", "trim")]),
    ("InterpolateOdom", "InterpolateOdom", None, lambda ex: [arg(ex, T_, "t"), ex.sym("double", "th"), ex.sym("bool", "trim")]),
    ("TrimSensorData", "TrimSensorData", None, lambda ex: [ex.sym("int", "kind"), arg(ex, T_, "t")]),
    ("GetGpsReference", "GetGpsReference", None, lambda ex: []),
    ("GetNewCloud", "GetNewCloud", None, lambda ex: []),
    ("RawGpsDataToFile", "RawGpsDataToFile", None, lambda ex: [arg(ex, "std::string", "name")]),
    ("RawOdomDataToFile", "RawOdomDataToFile", None, lambda ex: [arg(ex, "std::string", "name")]),
    ("GetRemainingCloudSize", "GetRemainingCloudSize", None, lambda ex: []),
    ("ClearAllCloud", "ClearAllCloud", None, lambda ex: []),
    ("CloudPreProcessing", "CloudPreProcessing", None, lambda ex: []),
]


@P.proof("lock discipline of the data collector", SRC)
def _(c):
    runs = []
    atomic = set()
    for nm, fn, sig, args in CALLS:
        ex, this, v = world(c)
        for f, t in ex.index.fields(ex.index.record(DC)):
            if "atomic" in t:
                atomic.add(f)
        ex.volatile = set(f for f in SHARED if f in atomic) | {"kill_cloud_preprocessing_thread_"}
        call(ex, "DataCollector::" + fn, this, args(ex), sig=sig)
        runs.append((nm, ex))
        reach(ex, nm + " returns")
        post(ex, nm + " returns holding no lock", z3.And(*[z3.Not(ex.held(k)) for k in ex.locks]))
        for s in ex.throws:
            ex.obls.append(Obligation(nm + " holds no lock when it throws",
                                      z3.And(*[z3.Not(s.roots.get(k, z3.BoolVal(False))) for k in ex.locks]), list(s.pc)))
    fields = sorted({f for _, ex in runs for f, *_ in ex.accesses if f not in atomic})
    fields = [f for f in fields if not f.startswith("mutex") and f != "options_"]
    for f in fields:
        acc = [(nm, ex, a) for nm, ex in runs for a in ex.accesses if a[0] == f]
        if not any(a[1] for _, _, a in acc) and f not in SHARED:
            continue                        # never written after construction
        who = {nm for nm, _, _ in acc}
        if f not in SHARED and len(who) == 1 and (who == {"AddSensorData(cloud)"} or who == {"CloudPreProcessing"}):
            continue                        # belongs to one thread
        # the mutex protecting the field: the one held at most of its accesses
        keys = {}
        for nm, ex, a in acc:
            for k, h in a[2].items():
                if z3.is_true(z3.simplify(h)):
                    kk = k.split(".", 1)[1]
                    keys[kk] = keys.get(kk, 0) + 1
        best = max(sorted(keys), key=lambda k: keys[k]) if keys else None
        for nm, ex, a in acc:
            h = [x for k, x in a[2].items() if k.split(".", 1)[1] == best]
            ex.obls.append(Obligation("%s %s in %s only with %s held" % (f, "written" if a[1] else "read", nm, best or "a lock"),
                                      h[0] if h else z3.BoolVal(False), a[3], kind="lock"))


P.harness("C26.cc", NATIVE, time=4, cflags=("-fsanitize=thread", "-g"))
