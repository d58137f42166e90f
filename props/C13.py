"""C13: conversions between cloud types."""
from vf.driver import Property, CLOUD_LIBS
from vf.spec import *

P = Property("C13")
FILES = ("builder/data/cloud_types.cc", "common/simple_time.cc")
CLOUD = "static_map::data::InnerCloudType"
P.assumptions.append("point matrices have three rows")


def stamps(ex, us, t):
    """us micro seconds correspond to the time stamp t."""
    return us == t.f["secs"] * 1000000 + t.f["nsecs"] / 1000


def dims(v):
    n = v.f["points"].n
    return z3.And(v.f["width"] == n, z3.Or(n == 0, v.f["height"] == 1))


def to_inner(kind):
    @P.proof("to the working representation from " + kind, FILES)
    def _(c):
        ex = c.exec(fp="uf")
        a, av = obj(ex, "pcl::PointCloud<pcl::%s>" % kind, "pcl")
        ex.assume(av.f["header"].f["stamp"] < 2 ** 32 * 1000000)
        r = ex.val(call(ex, "ToInnerPointCloud", None, [a], sig=kind + ">"))
        no_abort(ex, "to inner")
        reach(ex, "to inner")
        post(ex, "a cloud is returned", r.t != 0)
        v = state_val(ex, ex.deref(r))
        S, G = av.f["points"], v.f["points"]
        k = ex.fresh(Int, "k")
        s, g = sel(S.el, k), sel(G.el, k)
        zero = ex.num.const(0, "float")
        ins = z3.And(0 <= k, k < S.n)
        post(ex, "number of points", G.n == S.n)
        post(ex, "coordinates and order", z3.Implies(ins, z3.And(*[g.f[x] == s.f[x] for x in "xyz"])))
        post(ex, "intensity", z3.Implies(ins, g.f["intensity"] == (s.f["intensity"] if kind == "PointXYZI" else zero)))
        post(ex, "time stamp to the micro second",
             z3.And(stamps(ex, av.f["header"].f["stamp"], v.f["stamp"]), v.f["stamp"].f["nsecs"] < 1000000000,
                    v.f["stamp"].f["nsecs"] % 1000 == 0))
        post(ex, "the source is unchanged", eq(state_val(ex, a), av))

    @P.proof("from the working representation to " + kind, FILES)
    def _(c):
        ex = c.exec(fp="uf")
        a, av = obj(ex, CLOUD, "inner")
        b, bv = obj(ex, "pcl::PointCloud<pcl::%s>" % kind, "out")
        ex.assume(av.f["stamp"].f["nsecs"] < 1000000000)
        ex.extra_cands.append(lambda ex, info: [Cand("width and height", lambda st, i: dims(ex.nav(
            ex.root_val(st, b.loc.root), b.loc.path)))])
        call(ex, "ToPclPointCloud", None, [a, ptr(ex, b)], sig=kind + ">")
        no_abort(ex, "to pcl")
        reach(ex, "to pcl")
        v = state_val(ex, b)
        S, G = av.f["points"], v.f["points"]
        k = ex.fresh(Int, "k")
        s, g = sel(S.el, k), sel(G.el, k)
        ins = z3.And(0 <= k, k < S.n)
        post(ex, "number of points", G.n == S.n)
        post(ex, "width and height agree with the number of points",
             dims(v))
        post(ex, "coordinates and order", z3.Implies(ins, z3.And(*[g.f[x] == s.f[x] for x in "xyz"])))
        if kind == "PointXYZI":
            post(ex, "intensity", z3.Implies(ins, g.f["intensity"] == s.f["intensity"]))
        post(ex, "time stamp to the micro second", stamps(ex, v.f["header"].f["stamp"], av.f["stamp"]))
        post(ex, "the source is unchanged", eq(state_val(ex, a), av))
        ex2 = c.exec(fp="uf")
        a, av = obj(ex2, CLOUD, "inner")
        call(ex2, "ToPclPointCloud", None, [a, Ptr(z3.IntVal(0), "PointCloud")], sig=kind + ">")
        aborts_iff(ex2, "there is no output", z3.BoolVal(True))


for _k in ("PointXYZ", "PointXYZI"):
    to_inner(_k)


@P.proof("matrix form", FILES)
def _(c):
    ex = c.exec()
    ex.num.opaque_div = True
    a, av = obj(ex, "std::vector<static_map::data::InnerPointType>", "points")
    e, ev = obj(ex, "static_map::data::EigenPointCloud", "cloud")
    call(ex, "EigenPointCloud::FromPointCloud", e, [a])
    aborts_iff(ex, "there are no points", av.n == 0)
    reach(ex, "matrix form")
    v = state_val(ex, e)
    k = ex.fresh(Int, "k")
    ins = z3.And(0 <= k, k < av.n)
    n = z3.ToReal(av.n)
    post(ex, "sizes", z3.And(*[v.f[x].n == av.n for x in ("points", "factors", "indices")]))
    post(ex, "coordinates and order",
         z3.Implies(ins, z3.And(*[sel(v.f["points"].el, k).e[i] == sel(av.el, k).f[x] for i, x in enumerate("xyz")])))
    post(ex, "time factor of the i-th of n points", z3.Implies(ins, v.f["factors"].el[k] == ex.num.div(z3.ToReal(k), n)))
    post(ex, "indices", z3.Implies(ins, v.f["indices"].el[k] == k))
    post(ex, "the points are unchanged", eq(state_val(ex, a), av))
    frame(ex, "nothing else changes", ev, v, ("points", "factors", "indices"))


P.harness("C13.cc", ["builder/data/cloud_types.cc", "common/*.cc", "common/performance/*.cc"], libs=CLOUD_LIBS, time=3)
