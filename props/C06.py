"""C06: geometric filters keep exactly the points meeting the criterion."""
from vf.driver import Property
from .filters import *

P = Property("C06")


def unit(cls):
    @P.proof("%s::Filter output" % cls, FILES[cls], modes=("uf", "real") if cls == "Range" else ("uf",))
    def _(c):
        fold = {}

        def cands(ex, info):
            return []
        run = Run.__new__(Run)
        # the fold needs the symbolic inputs: build them first, then run
        ex = c.exec(fp=c.fp)
        if c.fp == "real":
            ex.assumed.add("real arithmetic: distances are compared up to rounding")
        run.ex, run.cls = ex, cls
        run.this, v = obj(ex, NS + cls, "filter")
        run.inp, run.inv = obj(ex, CLOUD, "in")
        run.out, run.outv = obj(ex, CLOUD, "out")
        run.v = v = v.set("inner_cloud_", ptr(ex, run.inp))
        put(ex, run.this, v)
        run.valid(ex, v)
        pts = run.inv.f["points"]
        keep = keep_fn(run)
        f = index_fold(ex, "kept", keep, lambda k: sel(pts.el, k))
        call(ex, cls + "::Filter", run.this, [ptr(ex, run.out)])
        no_abort(ex, cls + "::Filter")
        reach(ex, cls + "::Filter returns")
        t, i, o = run.post()
        if cls == "AxisRange":
            # pass-through configuration: the fold keeps everything; show it
            # equals the input pointwise
            k = ex.fresh(Int, "k")
            unset = keep_unset(ex, v)
            ident = lambda m: z3.And(f.at(m).n == m, z3.ForAll([k], z3.Implies(
                z3.And(0 <= k, k < m), eq(sel(f.at(m).el, k), sel(pts.el, k)))))
            for nm, h, g in f.induct("all-kept fold is the identity", ident):
                lemma(ex, nm, h + [unset], g)
            ex.assume(z3.Implies(unset, ident(pts.n)))
        exp = f.at(pts.n)
        post(ex, cls + " keeps as many points as meet the criterion", o.f["points"].n == exp.n)
        j = ex.fresh(Int, "at")
        ex.assume(z3.And(j >= 0, j < exp.n))
        post(ex, cls + " keeps exactly the points meeting the criterion, in order, with every attribute",
             eq(sel(o.f["points"].el, j), sel(exp.el, j)))
        post(ex, cls + " output carries the input's time stamp", eq(o.f["stamp"], run.inv.f["stamp"]))
        post(ex, cls + " leaves the input unchanged", eq(i, run.inv))


def keep_unset(ex, v):
    N = ex.num
    return z3.And(N.feq(v.f["min_"], N.const(-3.4028234663852886e38, "float")),
                  N.feq(v.f["max_"], N.const(3.4028234663852886e38, "float")))


for _c in ("Range", "AxisRange", "BoundingBoxRemoval"):
    unit(_c)

P.harness("C06.cc", NATIVE, time=6)
