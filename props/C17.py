"""C17: pose conversions are mutually inverse and give proper rotations."""
from vf.driver import Property
from vf.ast import HERE
from vf.ring import Ring
from vf.spec import *

P = Property("C17")
FILES = (HERE + "/stubs/math.cc",)
V3, M3, M4 = "Eigen::Vector3d", "Eigen::Matrix3d", "Eigen::Matrix4d"
P.assumptions.append("real arithmetic: conversions hold up to rounding")
P.assumptions.append("double-angle formulas of sine and cosine, and atan2(r sin t, r cos t) = t for r > 0, t in (-pi, pi]")
PI = "3.141592653589793"


def half(ex, angle):
    """(sin, cos) of half the angle, as the code forms it, and squares rule."""
    h = ex.num.mul(ex.num.const(0.5), angle)
    return ex.num.fn("sin", h), ex.num.fn("cos", h)


def angles(ex, v):
    """sin/cos of roll, pitch, yaw expressed by half angles; ring with
    sin^2 + cos^2 = 1."""
    sc, sq = [], []
    for a in v:
        s, c = half(ex, a)
        sc.append((2 * s * c, c * c - s * s))
        sq.append((s, 1 - c * c))
    return sc, sq


def rzyx(sc):
    """Rz(yaw) Ry(pitch) Rx(roll), row by row."""
    (sx, cx), (sy, cy), (sz, cz) = sc
    return [cz * cy, cz * sy * sx - sz * cx, cz * sy * cx + sz * sx,
            sz * cy, sz * sy * sx + cz * cx, sz * sy * cx - cz * sx,
            -sy, cy * sx, cy * cx]


def same_rotation(ex, what, got, want, ring):
    for i in range(9):
        ring_eq(ex, "%s: entry (%d,%d)" % (what, i // 3, i % 3), got[i], want[i], ring)


@P.proof("angles to rotation", FILES)
def _(c):
    ex = c.exec()
    e, ev = obj(ex, V3, "eulers")
    sc, sq = angles(ex, ev.e)
    q = ex.val(call(ex, "EulerAnglesToQuaternion", None, [e]))
    no_abort(ex, "EulerAnglesToQuaternion")
    reach(ex, "EulerAnglesToQuaternion")
    ring = Ring(sq)
    ring_eq(ex, "the quaternion has unit length",
            sum((q.f[k] * q.f[k] for k in "xyz"), q.f["w"] * q.f["w"]), z3.RealVal(1), ring)
    want = rzyx(sc)
    same_rotation(ex, "quaternion rotates like yaw-pitch-roll", ex.quat_to_mat(q).e, want, ring)
    R = ex.val(call(ex, "EulerAnglesToRotationMatrix", None, [e]))
    no_abort(ex, "EulerAnglesToRotationMatrix")
    same_rotation(ex, "matrix is the yaw-pitch-roll product", R.e, want, ring)
    for i in range(3):
        for j in range(i, 3):
            ring_eq(ex, "rows %d and %d orthonormal" % (i, j),
                    sum((R.e[3 * i + k] * R.e[3 * j + k] for k in range(1, 3)), R.e[3 * i] * R.e[3 * j]),
                    z3.RealVal(1 if i == j else 0), ring)
    ring_eq(ex, "determinant is one", ex.det3(R), z3.RealVal(1), ring)
    post(ex, "the angles are unchanged", eq(state_val(ex, e), ev))


@P.proof("six parameters to pose", FILES)
def _(c):
    ex = c.exec()
    v, vv = obj(ex, "Eigen::Matrix<double, 6, 1>", "v")
    sc, sq = angles(ex, vv.e[3:])
    T = ex.val(call(ex, "Vector6ToTransform", None, [v]))
    no_abort(ex, "Vector6ToTransform")
    reach(ex, "Vector6ToTransform")
    same_rotation(ex, "rotation part is the yaw-pitch-roll product",
                  [T.e[4 * i + j] for i in range(3) for j in range(3)], rzyx(sc), Ring(sq))
    post(ex, "translation part", z3.And(*[T.e[4 * i + 3] == vv.e[i] for i in range(3)]))
    post(ex, "last row", z3.And(*[T.e[12 + i] == (1 if i == 3 else 0) for i in range(4)]))
    t, tv = obj(ex, M4, "pose")
    r = ex.val(call(ex, "common::Rotation", None, [t]))
    post(ex, "Rotation is the upper left block", z3.And(*[r.e[3 * i + j] == tv.e[4 * i + j]
                                                         for i in range(3) for j in range(3)]))
    r = ex.val(call(ex, "common::Translation", None, [t]))
    post(ex, "Translation is the last column", z3.And(*[r.e[i] == tv.e[4 * i + 3] for i in range(3)]))


def given_rotation(ex, a):
    """Entries of Rz Ry Rx for angles a, as constants with their equations, and
    the instances of the assumed atan2 contract."""
    N = ex.num
    pi = z3.RealVal(PI)
    sc = [(N.fn("sin", x), N.fn("cos", x)) for x in a]
    (sx, cx), (sy, cy), (sz, cz) = sc
    for x in (a[0], a[2]):
        ex.assume(z3.And(x > -pi, x <= pi))
    ex.assume(z3.And(a[1] > -pi / 2, a[1] < pi / 2, cy >= z3.RealVal("1/1000000")))
    want = rzyx(sc)
    R = [ex.fresh(Real, "R%d" % i) for i in range(9)]
    for r, w in zip(R, want):
        ex.assume(r == w)
    # sy = sqrt(R00^2 + R10^2) is cos(pitch)
    ring = Ring([(s, 1 - co * co) for s, co in sc], list(zip(R, want)))
    ring_eq(ex, "lemma: R00^2 + R10^2 = cos(pitch)^2", R[0] * R[0] + R[3] * R[3], cy * cy, ring)
    ex.assume(R[0] * R[0] + R[3] * R[3] == cy * cy)
    at = lambda y, x: N.fn("atan2", y, x)
    ex.assume(z3.And(at(R[7], R[8]) == a[0], at(sy, cy) == a[1], at(R[3], R[0]) == a[2]))
    return R, sc


@P.proof("rotation to angles", FILES)
def _(c):
    ex = c.exec()
    a = [ex.fresh(Real, n) for n in ("roll", "pitch", "yaw")]
    R, sc = given_rotation(ex, a)
    r, _ = obj(ex, M3, "R")
    put(ex, r, Mat(3, 3, R, "double"))
    e = ex.val(call(ex, "RotationMatrixToEulerAngles", None, [r]))
    no_abort(ex, "RotationMatrixToEulerAngles")
    reach(ex, "RotationMatrixToEulerAngles")
    for i, n in enumerate(("roll", "pitch", "yaw")):
        post(ex, "%s is recovered" % n, e.e[i] == a[i])


@P.proof("pose to six parameters", FILES)
def _(c):
    ex = c.exec()
    a = [ex.fresh(Real, n) for n in ("roll", "pitch", "yaw")]
    R, sc = given_rotation(ex, a)
    t, tv = obj(ex, M4, "pose")
    put(ex, t, Mat(4, 4, [R[3 * i + j] if i < 3 and j < 3 else tv.e[4 * i + j]
                          for i in range(4) for j in range(4)], "double"))
    v = ex.val(call(ex, "TransformToVector6", None, [t]))
    no_abort(ex, "TransformToVector6")
    reach(ex, "TransformToVector6")
    for i in range(3):
        post(ex, "translation %d is recovered" % i, v.e[i] == tv.e[4 * i + 3])
        post(ex, "angle %d is recovered" % i, v.e[3 + i] == a[i])


@P.proof("quaternion to angles", FILES)
def _(c):
    ex = c.exec()
    seen = []

    def r2e(ex, this, args, n):
        seen.append(ex.val(args[0]))
        return Mat(3, 1, [ex.fresh(Real, "e") for _ in range(3)], "double")
    ex.contracts["RotationMatrixToEulerAngles"] = r2e
    q, qv = obj(ex, "Eigen::Quaterniond", "q")
    call(ex, "QuaternionToEulers", None, [q])
    no_abort(ex, "QuaternionToEulers")
    reach(ex, "QuaternionToEulers")
    if len(seen) != 1:
        raise Unsupported("conversion not by one call")
    for i, (g, w) in enumerate(zip(seen[0].e, ex.quat_to_mat(qv).e)):
        ring_eq(ex, "angles are those of the quaternion's matrix (entry %d)" % i, g, w, Ring())


@P.proof("wrapping and clamping", FILES)
def _(c):
    for T in ("double", "int"):
        ex = c.exec()
        (x, xv), (lo, lv), (hi, hv) = obj(ex, T, "value"), obj(ex, T, "min"), obj(ex, T, "max")
        ex.assume(lv <= hv)
        r = ex.val(call(ex, "Clamp", None, [x, lo, hi], sig=T))
        no_abort(ex, "Clamp")
        reach(ex, "Clamp")
        post(ex, "clamped value is the nearest of the interval (%s)" % T,
             r == z3.If(xv < lv, lv, z3.If(xv > hv, hv, xv)))
    ex = c.exec()
    d, dv = obj(ex, "double", "difference")
    turn = ex.num.const(2.0) * z3.RealVal(PI)

    def turns(ex, info):
        out = []
        for key, old, nl in info.hv:
            if nl.sort() == Real:
                for s in (1, -1):
                    out.append(Cand("whole turns (%d)" % s, lambda st, i, key=key, old=old, s=s:
                                    ex.leaf_at(st, key) == old + s * turn * z3.ToReal(i)))
                out.append(Cand("not below", lambda st, i, key=key, old=old: z3.Or(
                    i == 0, ex.leaf_at(st, key) > -z3.RealVal(PI))))
                out.append(Cand("not above", lambda st, i, key=key, old=old: z3.Or(
                    i == 0, ex.leaf_at(st, key) < z3.RealVal(PI))))
        return out
    ex.extra_cands.append(turns)
    r = ex.val(call(ex, "NormalizeAngleDifference", None, [d]))
    no_abort(ex, "NormalizeAngleDifference")
    reach(ex, "NormalizeAngleDifference")
    pi = z3.RealVal(PI)
    post(ex, "wrapped angle is within half a turn", z3.And(r >= -pi, r <= pi))
    post(ex, "wrapped angle differs by whole turns",
         z3.ToReal(z3.ToInt((r - dv) / turn)) == (r - dv) / turn)
    post(ex, "an angle within half a turn is unchanged", z3.Implies(z3.And(dv >= -pi, dv <= pi), r == dv))


P.harness("C17.cc", ["common/math.cc"], libs=["-lglog"], time=3)
