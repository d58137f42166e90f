"""C07: inlier and outlier lists partition the input."""
from vf.driver import Property
from .filters import *

P = Property("C07")
P.assumptions.append("two disjoint, strictly increasing index lists within [0, n) whose lengths add up to n contain "
                     "every index exactly once (pigeonhole, not discharged by the solver)")


def unit(cls):
    @P.proof("%s::Filter partition" % cls, FILES[cls])
    def _(c):
        ex = c.exec(fp="uf")
        ex.extra_cands.append(partition_cands)
        run = Run.__new__(Run)
        run.ex, run.cls = ex, cls
        run.this, v = obj(ex, NS + cls, "filter")
        run.inp, run.inv = obj(ex, CLOUD, "in")
        run.out, run.outv = obj(ex, CLOUD, "out")
        run.v = v = v.set("inner_cloud_", ptr(ex, run.inp))
        put(ex, run.this, v)
        run.valid(ex, v)
        src = ex.source_points = run.inv.f["points"]
        ex.assume(src.n <= 2 ** 31 - 1)
        call(ex, cls + "::Filter", run.this, [ptr(ex, run.out)])
        no_abort(ex, cls + "::Filter")
        reach(ex, cls + "::Filter returns")
        t, i, o = run.post()
        A, B, Q = t.f["inliers_"], t.f["outliers_"], o.f["points"]
        post(ex, cls + ": every position is in one of the lists", A.n + B.n == src.n)
        j, k = ex.fresh(Int, "j"), ex.fresh(Int, "k")
        for nm, L in (("inliers", A), ("outliers", B)):
            post(ex, "%s: %s are input positions" % (cls, nm),
                 z3.Implies(z3.And(0 <= j, j < L.n), z3.And(L.el[j] >= 0, L.el[j] < src.n)))
            post(ex, "%s: %s strictly increasing" % (cls, nm),
                 z3.Implies(z3.And(0 <= j, j < k, k < L.n), L.el[j] < L.el[k]))
        post(ex, cls + ": no position in both lists",
             z3.Implies(z3.And(0 <= j, j < A.n, 0 <= k, k < B.n), A.el[j] != B.el[k]))
        post(ex, cls + ": as many output points as inliers", Q.n == A.n)
        post(ex, cls + ": output is the input at the inlier positions",
             z3.Implies(z3.And(0 <= j, j < A.n), eq(sel(Q.el, j), sel(src.el, A.el[j]))))
        post(ex, cls + " output carries the input's time stamp", eq(o.f["stamp"], run.inv.f["stamp"]))
        post(ex, cls + " leaves the input unchanged", eq(i, run.inv))
        frame(ex, cls + " changes no configuration", run.v, t, ("inliers_", "outliers_"))

    @P.proof("%s::Filter without input or output" % cls, FILES[cls])
    def _(c):
        for null in ("in", "out"):
            run = Run(c, cls, null=null)
            ex = run.ex
            no_abort(ex, "%s without %sput" % (cls, null))
            t, i, o = run.post()
            frame(ex, "%s without %sput changes nothing of the filter" % (cls, null), run.v, t)
            post(ex, "%s without %sput leaves the output" % (cls, null), eq(o, run.outv))


for _c in ("Range", "AxisRange", "BoundingBoxRemoval", "RandomSampler"):
    unit(_c)


@P.proof("SetInputCloud", FILES["Range"])
def _(c):
    ex = c.exec(fp="uf")
    this, v = obj(ex, NS + "Range", "filter")
    inp, iv = obj(ex, CLOUD, "in")
    call(ex, "ProcesserInterface::SetInputCloud", this, [ptr(ex, inp)])
    no_abort(ex, "SetInputCloud")
    t = state_val(ex, this)
    post(ex, "lists are emptied", z3.And(t.f["inliers_"].n == 0, t.f["outliers_"].n == 0))
    post(ex, "an empty cloud is no input, any other is the input",
         t.f["inner_cloud_"].t == z3.If(iv.f["points"].n == 0, 0, ptr(ex, inp).t))
    post(ex, "the cloud is unchanged", eq(state_val(ex, inp), iv))
    frame(ex, "nothing else changes", v, t, ("inliers_", "outliers_", "inner_cloud_"))


P.harness("C07.cc", NATIVE, time=6)
