"""C14: octant boxes tile their cube and agree with the octant index."""
from vf.driver import Property
from vf.spec import *

P = Property("C14")
FILES = ("common/bounding_box.cc",)
BOX = "static_map::common::CubeBoundingBox"
VEC = "Eigen::Vector3d"


def inv(b):
    """Class invariant: a non-degenerate cube around its centre."""
    c, lo, hi, h = b.f["center_"], b.f["min_"], b.f["max_"], b.f["half_size_"]
    return z3.And(h > 0, b.f["size_"] == 2 * h, *[z3.And(lo.e[i] == c.e[i] - h, hi.e[i] == c.e[i] + h)
                                                  for i in range(3)])


def cube(ex, hint="cube"):
    r, b = obj(ex, BOX, hint)
    ex.assume(inv(b))
    return r, b


def inside(b, p, strict=False):
    c, h = b.f["center_"], b.f["half_size_"]
    return z3.And(*[(z3.And(p.e[i] - c.e[i] < h, c.e[i] - p.e[i] < h) if strict else
                     z3.And(p.e[i] - c.e[i] <= h, c.e[i] - p.e[i] <= h)) for i in range(3)])


@P.proof("construction", FILES)
def _(c):
    ex = c.exec()
    ctr, cv = obj(ex, VEC, "centre")
    ln = ex.sym("double", "length")
    ex.assume(ln > 0)
    r, b = make(ex, "CubeBoundingBox", [ctr, ln], sig="double")
    no_abort(ex, "cube from centre and length")
    post(ex, "cube from centre and length is well formed", inv(b))
    post(ex, "cube has the given centre and length", z3.And(eq(b.f["center_"], cv), b.f["size_"] == ln))
    ex = c.exec()
    lo, lv = obj(ex, VEC, "min")
    hi, hv = obj(ex, VEC, "max")
    d = hv.e[0] - lv.e[0]
    ex.assume(z3.And(d > 0, hv.e[1] - lv.e[1] == d, hv.e[2] - lv.e[2] == d))
    r, b = make(ex, "CubeBoundingBox", [lo, hi], sig="Vector3d &)")
    no_abort(ex, "cube from corners")
    post(ex, "cube from corners is well formed", inv(b))
    post(ex, "cube has the given corners", z3.And(eq(b.f["min_"], lv), eq(b.f["max_"], hv)))


@P.proof("membership and octant index", FILES)
def _(c):
    ex = c.exec()
    r, b = cube(ex)
    p, pv = obj(ex, VEC, "point")
    q = ex.val(call(ex, "CubeBoundingBox::ContainsPoint", r, [p]))
    post(ex, "containment is the closed cube", ex.num.to_bool(q) == inside(b, pv))
    i = ex.val(call(ex, "CubeBoundingBox::GetSubBoxIndexForPoint", r, [p]))
    no_abort(ex, "octant index")
    post(ex, "points outside have no octant", (i == -1) == z3.Not(inside(b, pv)))
    post(ex, "points inside have one of eight octants", z3.Implies(inside(b, pv), z3.And(i >= 0, i <= 7)))
    post(ex, "queries leave the cube unchanged", eq(state_val(ex, r), b))
    ce = ex.val(call(ex, "CubeBoundingBox::GetCenter", r))
    post(ex, "the centre is reported", eq(ce, b.f["center_"]))


@P.proof("sub-boxes", FILES)
def _(c):
    ex = c.exec()
    r, b = cube(ex)
    p, pv = obj(ex, VEC, "point")
    i = ex.val(call(ex, "CubeBoundingBox::GetSubBoxIndexForPoint", r, [p]))
    s = ex.val(call(ex, "CubeBoundingBox::GenerateSubBoxes", r))
    no_abort(ex, "splitting a cube")
    reach(ex, "splitting a cube")
    post(ex, "eight sub-boxes", s.n == 8)
    sub = [sel(s.el, z3.IntVal(k)) for k in range(8)]
    for k in range(8):
        post(ex, "sub-box %d is a cube of half the edge" % k,
             z3.And(inv(sub[k]), sub[k].f["size_"] * 2 == b.f["size_"]))
        post(ex, "sub-box %d stays inside the cube" % k, z3.Implies(inside(sub[k], pv), inside(b, pv)))
        post(ex, "points of octant %d lie in sub-box %d" % (k, k), z3.Implies(i == k, inside(sub[k], pv)))
    for k in range(8):
        for m in range(k):
            post(ex, "sub-boxes %d and %d share no interior" % (m, k),
                 z3.Not(z3.And(inside(sub[k], pv, True), inside(sub[m], pv, True))))
    post(ex, "the sub-boxes cover the cube",
         z3.Implies(inside(b, pv), z3.Or(*[inside(x, pv) for x in sub])))
    post(ex, "splitting leaves the cube unchanged", eq(state_val(ex, r), b))


P.harness("C14.cc", ["common/bounding_box.cc"], libs=["-lglog"], time=3)
