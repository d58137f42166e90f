"""Shared contract pieces of the point filters (C06, C07)."""
from vf.spec import *
from vf.loops import Cand, pats
from vf.num import notnan

NS = "static_map::pre_processers::filter::"
CLOUD = "static_map::data::InnerCloudType"
FILES = {
    "Range": ("pre_processors/filter_range.cc", "pre_processors/filter_interface.cc"),
    "AxisRange": ("pre_processors/filter_axis_range.cc", "pre_processors/filter_interface.cc"),
    "BoundingBoxRemoval": ("pre_processors/filter_bounding_box.cc", "pre_processors/filter_interface.cc",
                           "common/bounding_box.cc"),
    "RandomSampler": ("pre_processors/filter_random_sample.cc", "pre_processors/filter_interface.cc"),
}


class Run:
    """Arbitrary filter object, input and output cloud; runs <cls>::Filter."""

    def __init__(self, c, cls, null=None, fp="uf", cands=None, same=False):
        ex = self.ex = c.exec(fp=fp)
        if cands:
            ex.extra_cands.append(cands)
        self.cls = cls
        self.this, v = obj(ex, NS + cls, "filter")
        self.inp, self.inv = obj(ex, CLOUD, "in")
        self.out, self.outv = obj(ex, CLOUD, "out")
        pin, pout = ptr(ex, self.inp), ptr(ex, self.out)
        if null == "in":
            pin = Ptr(z3.IntVal(0), "InnerCloudType")
        if null == "out":
            pout = Ptr(z3.IntVal(0), "InnerCloudType")
        v = v.set("inner_cloud_", pin)
        put(ex, self.this, v)
        self.v = v
        self.valid(ex, v)
        call(ex, cls + "::Filter", self.this, [pout])

    def valid(self, ex, v):
        """Accepted configuration (what ConfigsValid admits)."""
        N = ex.num
        if self.cls == "Range":
            lim = v.f["min_range_"], v.f["max_range_"]
            ex.assumed.add("the limits of a filter are numbers (not NaN)")
            ex.assume(z3.And(*[x >= 0 if ex.fp == "real" else notnan(x) for x in lim]))
        if self.cls == "AxisRange":
            ex.assume(z3.And(v.f["axis_index_"] >= 0, v.f["axis_index_"] <= 2, N.lt(v.f["min_"], v.f["max_"])))
        if self.cls == "BoundingBoxRemoval":
            for a in "xyz":
                ex.assume(N.lt(v.f["min_%s_" % a], v.f["max_%s_" % a]))

    def post(self):
        ex = self.ex
        return state_val(ex, self.this), state_val(ex, self.inp), state_val(ex, self.out)


def keep_fn(run):
    """Executable criterion of the property, over input position k."""
    ex, v = run.ex, run.v
    N = ex.num
    pts = run.inv.f["points"]

    def p(k):
        return sel(pts.el, k)
    if run.cls == "Range":
        def keep(k):
            q = p(k)
            x, y, z = q.f["x"], q.f["y"], q.f["z"]
            r = N.sqrt(N.add(N.add(N.mul(x, x), N.mul(y, y)), N.mul(z, z)))
            return z3.And(N.le(v.f["min_range_"], r), N.le(r, v.f["max_range_"]))
    elif run.cls == "AxisRange":
        def keep(k):
            q = p(k)
            a = z3.If(v.f["axis_index_"] == 0, q.f["x"], z3.If(v.f["axis_index_"] == 1, q.f["y"], q.f["z"]))
            unset = z3.And(N.feq(v.f["min_"], N.const(-3.4028234663852886e38, "float")),
                           N.feq(v.f["max_"], N.const(3.4028234663852886e38, "float")))
            return z3.Or(unset, z3.Not(z3.Or(N.lt(a, v.f["min_"]), N.lt(v.f["max_"], a))))
    elif run.cls == "BoundingBoxRemoval":
        def keep(k):
            q = p(k)
            ins = []
            for a in "xyz":
                ins.append(N.le(v.f["min_%s_" % a], q.f[a]))
                ins.append(N.le(q.f[a], v.f["max_%s_" % a]))
            return z3.Not(z3.And(*ins))
    return keep


def partition_cands(ex, info):
    """Invariant templates for index lists filled by a counting loop."""
    out = []
    vecs, pts = [], []
    for pat in dict.fromkeys(k[0] for k, _, _ in info.hv):
        v = ex.value_at(info.S0, pat)
        if isinstance(v, Seq) and v.kind == "vector":
            if z3.is_expr(v.el) and v.el.sort().range() == Int:
                vecs.append(pat)
            elif isinstance(v.el, Struct):
                pts.append(pat)
    V = ex.value_at
    src = getattr(ex, "source_points", None)
    for a in vecs:
        def mk(a):
            j, k = ex.fresh(Int, "j"), ex.fresh(Int, "k")

            def rng(st, i):
                A = V(st, a)
                return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < A.n), z3.And(A.el[j] >= 0, A.el[j] < i)),
                                 patterns=pats(A.el, j))

            def inc(st, i):
                A = V(st, a)
                pt = [z3.MultiPattern(A.el[j], A.el[k])] if z3.is_const(A.el) else []
                return z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < A.n), A.el[j] < A.el[k]), patterns=pt)

            def full(st, i):
                A = V(st, a)
                return z3.And(A.n == i, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), A.el[j] == j), patterns=pats(A.el, j)))
            return [Cand("%s in range" % (a,), rng), Cand("%s increasing" % (a,), inc), Cand("%s full" % (a,), full)]
        out.extend(mk(a))
    for x in range(len(vecs)):
        for y in range(x + 1, len(vecs)):
            def mk2(a, b):
                j, k = ex.fresh(Int, "j"), ex.fresh(Int, "k")

                def tot(st, i):
                    return V(st, a).n + V(st, b).n == i

                def dis(st, i):
                    A, B = V(st, a), V(st, b)
                    pt = [z3.MultiPattern(A.el[j], B.el[k])] if z3.is_const(A.el) and z3.is_const(B.el) else []
                    return z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < A.n, 0 <= k, k < B.n),
                                                       A.el[j] != B.el[k]), patterns=pt)
                return [Cand("total %s %s" % (a, b), tot), Cand("disjoint %s %s" % (a, b), dis)]
            out.extend(mk2(vecs[x], vecs[y]))
    for a in vecs:
        for q in pts:
            def mk3(a, q):
                j = ex.fresh(Int, "j")

                def same(st, i):
                    A, P = V(st, a), V(st, q)
                    if src is None:
                        return z3.BoolVal(False)
                    return z3.And(A.n == P.n, z3.ForAll([j], z3.Implies(
                        z3.And(0 <= j, j < A.n), eq(sel(P.el, j), sel(src.el, A.el[j]))), patterns=pats(A.el, j)))
                return [Cand("%s selects %s" % (a, q), same)]
            out.extend(mk3(a, q))
    return out


NATIVE = ["pre_processors/*.cc", "common/performance/*.cc", "common/bounding_box.cc", "common/simple_time.cc",
          "common/file_utils.cc", "common/macro_defines.cc", "builder/data/cloud_types.cc",
          "third_parties/pugixml/pugixml.cc"]
