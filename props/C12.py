"""C12: rigid transform of a cloud, appending."""
from vf.ast import HERE
from vf.driver import Property, CLOUD_LIBS
from vf.ring import Ring
from vf.spec import *

P = Property("C12")
FILES = ("builder/data/cloud_types.cc",)
CLOUD = "static_map::data::InnerCloudType"
POINT = "static_map::data::InnerPointType"
P.assumptions.append("point matrices have three rows")
P.assumptions.append("real arithmetic: a transformed position is R p + t up to rounding to float")
ATTR = ("x", "y", "z", "intensity", "factor")


@P.proof("TransformPoint", FILES)
def _(c):
    ex = c.exec()
    t, tv = obj(ex, "Eigen::Matrix4d", "transform")
    p, pv = obj(ex, POINT, "point")
    r = ex.val(call(ex, "TransformPoint", None, [t, p]))
    no_abort(ex, "TransformPoint")
    reach(ex, "TransformPoint")
    x = [pv.f[a] for a in "xyz"]
    for i, a in enumerate("xyz"):
        e = tv.e[4 * i:4 * i + 4]
        ring_eq(ex, "position %s" % a, r.f[a], e[0] * x[0] + e[1] * x[1] + e[2] * x[2] + e[3], Ring())
    for a in ("intensity", "factor"):
        post(ex, a + " is kept", r.f[a] == pv.f[a])
    post(ex, "point and transform are unchanged",
         z3.And(eq(state_val(ex, p), pv), eq(state_val(ex, t), tv)))


def moved(ex, tv, pv):
    """Result of TransformPoint as a function of transform and point."""
    ls = list(tv.e) + [pv.f[a] for a in "xyz"]
    f = {a: z3.Function("moved_" + a, *([l.sort() for l in ls] + [pv.f[a].sort()]))(*ls) for a in "xyz"}
    f.update({a: pv.f[a] for a in ("intensity", "factor")})
    return Struct("InnerPointType", f)


def setup(c):
    ex = c.exec(fp="uf")

    def tp(ex, this, args, n):
        return moved(ex, ex.val(args[0]), ex.val(args[1]))
    ex.contracts["TransformPoint"] = tp
    t, tv = obj(ex, "Eigen::Matrix4d", "transform")
    a, av = obj(ex, CLOUD, "cloud")
    return ex, t, tv, a, av


def all_moved(ex, what, tv, src, got):
    k = ex.fresh(Int, "k")
    post(ex, what + ": number of points", got.n == src.n)
    post(ex, what + ": every point is moved once, in order",
         z3.Implies(z3.And(0 <= k, k < src.n), eq(sel(got.el, k), moved(ex, tv, sel(src.el, k)))))


@P.proof("ApplyTransformInplace", FILES)
def _(c):
    ex, t, tv, a, av = setup(c)
    call(ex, "InnerCloudType::ApplyTransformInplace", a, [t])
    no_abort(ex, "in place")
    reach(ex, "in place")
    r = state_val(ex, a)
    all_moved(ex, "in place", tv, av.f["points"], r.f["points"])
    frame(ex, "in place: the rest is kept", av, r, ("points",))
    post(ex, "in place: transform unchanged", eq(state_val(ex, t), tv))


@P.proof("ApplyTransformToOutput", FILES)
def _(c):
    ex, t, tv, a, av = setup(c)
    o, ov = obj(ex, CLOUD, "out")
    call(ex, "InnerCloudType::ApplyTransformToOutput", a, [t, ptr(ex, o)])
    no_abort(ex, "to output")
    reach(ex, "to output")
    r = state_val(ex, o)
    all_moved(ex, "to output", tv, av.f["points"], r.f["points"])
    post(ex, "to output: time stamp of the source", eq(r.f["stamp"], av.f["stamp"]))
    post(ex, "to output: source unchanged", eq(state_val(ex, a), av))
    post(ex, "to output: transform unchanged", eq(state_val(ex, t), tv))
    ex2, t, tv, a, av = setup(c)
    call(ex2, "InnerCloudType::ApplyTransformToOutput", a, [t, Ptr(z3.IntVal(0), "InnerCloudType")])
    aborts_iff(ex2, "there is no output", z3.BoolVal(True))


@P.proof("appending", FILES)
def _(c):
    ex, t, tv, a, av = setup(c)
    b, bv = obj(ex, CLOUD, "other")
    A, B = av.f["points"], bv.f["points"]
    r = call(ex, "InnerCloudType::operator+=", a, [b])
    no_abort(ex, "appending")
    reach(ex, "appending")
    got = state_val(ex, a)
    k = ex.fresh(Int, "k")
    G = got.f["points"]
    post(ex, "appending: number of points", G.n == A.n + B.n)
    post(ex, "appending: the first part stays", z3.Implies(z3.And(0 <= k, k < A.n), eq(sel(G.el, k), sel(A.el, k))))
    post(ex, "appending: the other follows in order",
         z3.Implies(z3.And(0 <= k, k < B.n), eq(sel(G.el, A.n + k), sel(B.el, k))))
    frame(ex, "appending: the rest is kept", av, got, ("points",))
    post(ex, "appending: the other is unchanged", eq(state_val(ex, b), bv))
    post(ex, "appending returns the cloud", z3.BoolVal(isinstance(r, Ref) and r.loc == a.loc))


@P.proof("matrix form", FILES)
def _(c):
    ex = c.exec()
    t, tv = obj(ex, "Eigen::Matrix4d", "transform")
    a, av = obj(ex, "static_map::data::EigenPointCloud", "cloud")
    call(ex, "EigenPointCloud::ApplyTransform", a, [t])
    src, nrm = av.f["points"], av.f["normals"]
    aborts_iff(ex, "there are no points, or normals for another number of points",
               z3.Or(src.n == 0, z3.And(nrm.n > 0, nrm.n != src.n)))
    reach(ex, "matrix form")
    r = state_val(ex, a)
    k = ex.fresh(Int, "k")
    for i in range(3):
        for nm, S, w in (("points", src, 1), ("normals", nrm, 0)):
            G = r.f[nm]
            p = sel(S.el, k)
            e = tv.e[4 * i:4 * i + 4]
            post(ex, "matrix form: coordinate %d of the %s" % (i, nm), z3.Implies(
                z3.And(0 <= k, k < S.n), sel(G.el, k).e[i] == e[0] * p.e[0] + e[1] * p.e[1] + e[2] * p.e[2] + w * e[3]))
            post(ex, "matrix form: number of %s (%d)" % (nm, i), G.n == S.n)
    frame(ex, "matrix form: the rest is kept", av, r, ("points", "normals"))


@P.proof("motion compensation", FILES + (HERE + "/stubs/math.cc",))
def _(c):
    ex = c.exec()

    def ip(ex, this, args, n):
        a, b, f = [ex.val(x) for x in args]
        post(ex, "the motion starts at rest", z3.And(*[x == (1 if i % 5 == 0 else 0) for i, x in enumerate(a.e)]))
        return share(ex, b, f)

    def share(ex, m, f):
        ls = list(m.e) + [f]
        return Mat(4, 4, [z3.Function("share_%d" % i, *([Real] * 18))(*ls) for i in range(16)], "double")
    ex.contracts["InterpolateTransform"] = ip
    t, tv = obj(ex, "Eigen::Matrix4d", "motion")
    a, av = obj(ex, "static_map::data::EigenPointCloud", "cloud")
    call(ex, "EigenPointCloud::ApplyMotionCompensation", a, [t])
    src, fac = av.f["points"], av.f["factors"]
    aborts_iff(ex, "factors for another number of points", src.n != fac.n)
    reach(ex, "motion compensation")
    r = state_val(ex, a)
    G = r.f["points"]
    k = ex.fresh(Int, "k")
    m = share(ex, tv, fac.el[k])
    p = sel(src.el, k)
    post(ex, "motion compensation: number of points", G.n == src.n)
    for i in range(3):
        e = m.e[4 * i:4 * i + 4]
        post(ex, "motion compensation: coordinate %d moves by the point's share" % i, z3.Implies(
            z3.And(0 <= k, k < src.n), sel(G.el, k).e[i] == e[0] * p.e[0] + e[1] * p.e[1] + e[2] * p.e[2] + e[3]))
    frame(ex, "motion compensation: the rest is kept", av, r, ("points",))


@P.proof("holder", FILES)
def _(c):
    ex = c.exec(fp="uf")
    log = []

    def inner(ex, this, args, n):
        v = state_val(ex, this)
        log.append(("points", ex.val(args[0])))
        ex.write(this, v.set("points", Seq("vector", v.f["points"].n, tmap(lambda x: ex.fresh(x.sort(), "mv"), v.f["points"].el))))

    def eig(ex, this, args, n):
        log.append(("matrix", ex.val(args[0])))
    ex.contracts["InnerCloudType::ApplyTransformInplace"] = inner
    ex.contracts["EigenPointCloud::ApplyTransform"] = eig
    t, tv = obj(ex, "Eigen::Matrix4d", "transform")
    a, av = obj(ex, CLOUD, "inner")
    b, bv = obj(ex, "static_map::data::EigenPointCloud", "eigen")
    d, dv = obj(ex, "static_map::data::InnerPointCloudData", "holder")
    dv = dv.set("inner_cloud_", ptr(ex, a)).set("eigen_cloud_", ptr(ex, b))
    put(ex, d, dv)
    ex.assume(av.f["points"].n > 0)
    call(ex, "InnerPointCloudData::TransformCloud", d, [t])
    no_abort(ex, "holder")
    post(ex, "holder: both forms are transformed exactly once, by the given transform",
         z3.And(z3.BoolVal(sorted(k for k, _ in log) == ["matrix", "points"]), *[eq(v, tv) for _, v in log]))
    frame(ex, "holder: nothing else changes", dv, state_val(ex, d), ("filename_",))


P.harness("C12.cc", ["builder/data/cloud_types.cc", "common/*.cc", "common/performance/*.cc"], libs=CLOUD_LIBS, time=3)
