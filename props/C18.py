"""C18: pose interpolation and averaging."""
from vf.driver import Property
from vf.ast import HERE
from vf.ring import Ring
from vf.spec import *

P = Property("C18")
FILES = (HERE + "/stubs/math.cc",)
AVG = ("common/math.cc",)
P.assumptions.append("slerp gives the first rotation at 0 and the second at 1; the quaternion of a proper rotation "
                     "matrix rotates like the matrix (library contracts)")
P.assumptions.append("real arithmetic: interpolation and averaging hold up to rounding")


def rot(t):
    return [t.e[4 * i + j] for i in range(3) for j in range(3)]


@P.proof("interpolation", FILES)
def _(c):
    ex = c.exec()
    (a, av), (b, bv) = obj(ex, "Eigen::Matrix4d", "first"), obj(ex, "Eigen::Matrix4d", "second")
    f, fv = obj(ex, "float", "factor")
    T = ex.val(call(ex, "InterpolateTransform", None, [a, b, f]))
    aborts_iff(ex, "the factor is outside zero to one", z3.Or(fv < 0, fv > 1))
    reach(ex, "InterpolateTransform")
    for i in range(3):
        x, y = av.e[4 * i + 3], bv.e[4 * i + 3]
        ring_eq(ex, "translation %d is linear" % i, T.e[4 * i + 3], x + (y - x) * fv, Ring())
    post(ex, "last row", z3.And(*[T.e[12 + i] == (1 if i == 3 else 0) for i in range(4)]))
    qa, qb = [ex.mat_to_quat(Mat(3, 3, rot(v))) for v in (av, bv)]
    ref = ex.new_root(qa, "qa")
    sl = slerp(ex, qa, qb, fv)
    want = ex.quat_to_mat(sl).e
    for i in range(9):
        ring_eq(ex, "rotation is the spherical blend (entry %d)" % i, rot(T)[i], want[i], Ring())
    for nm, q, v, at, sg in (("first", qa, av, 0, (1,)), ("second", qb, bv, 1, (1, -1))):
        for s in sg:
            ring = Ring(subst=[(sl.f[k], s * q.f[k]) for k in "wxyz"])
            for i in range(9):
                ring_eq(ex, "factor %d gives the %s rotation (entry %d, sign %d)" % (at, nm, i, s),
                        rot(T)[i], ex.quat_to_mat(q).e[i], ring)
        for i in range(3):
            post(ex, "factor %d gives the %s translation (%d)" % (at, nm, i),
                 z3.Implies(fv == at, T.e[4 * i + 3] == v.e[4 * i + 3]))
    post(ex, "the given poses are unchanged", z3.And(eq(state_val(ex, a), av), eq(state_val(ex, b), bv)))


def slerp(ex, qa, qb, t):
    ls = [t] + [qa.f[k] for k in "wxyz"] + [qb.f[k] for k in "wxyz"]
    return Struct("Quaternion", {k: z3.Function("slerp_" + k, *([x.sort() for x in ls] + [t.sort()]))(*ls)
                                 for k in "wxyz"})


def eulers(ex, R):
    return Mat(3, 1, [z3.Function("eulers_%d" % i, *([Real] * 10))(*R) for i in range(3)], "double")


@P.proof("averaging", AVG)
def _(c):
    ex = c.exec()
    v, vv = obj(ex, "std::vector<Eigen::Matrix4d>", "poses")
    ex.assume(vv.n <= 2 ** 31 - 1)
    made = []

    def r2e(ex, this, args, n):
        return eulers(ex, ex.val(args[0]).e)

    def e2r(ex, this, args, n):
        e = ex.val(args[0])
        r = Mat(3, 3, [ex.fresh(Real, "avg") for _ in range(9)], "double")
        made.append((e, r))
        return r
    ex.contracts["RotationMatrixToEulerAngles"] = r2e
    ex.contracts["EulerAnglesToRotationMatrix"] = e2r
    zero = Mat(3, 1, [z3.RealVal(0)] * 3, "double")
    el = lambda k: sel(vv.el, k)
    st = Fold(ex, "translations", zero, lambda s, k: Mat(3, 1, [s.e[i] + el(k).e[4 * i + 3] for i in range(3)], "double"))
    sa = Fold(ex, "angles", zero, lambda s, k: Mat(3, 1, [s.e[i] + eulers(ex, rot(el(k))).e[i] for i in range(3)], "double"))
    ex.folds.extend([st, sa])
    T = ex.val(call(ex, "AverageTransforms", None, [v], sig="double"))
    aborts_iff(ex, "there is no pose", vv.n == 0)
    reach(ex, "AverageTransforms")
    if len(made) != 1:
        raise Unsupported("average rotation not built by one conversion")
    e, r = made[0]
    n = z3.ToReal(vv.n)
    for i in range(3):
        post(ex, "translation %d is the mean" % i, T.e[4 * i + 3] * n == st.at(vv.n).e[i])
        post(ex, "angle %d is the mean" % i, e.e[i] * n == sa.at(vv.n).e[i])
    post(ex, "rotation is built from the mean angles", z3.And(*[x == y for x, y in zip(rot(T), r.e)]))
    post(ex, "last row", z3.And(*[T.e[12 + i] == (1 if i == 3 else 0) for i in range(4)]))
    post(ex, "the given poses are unchanged", eq(state_val(ex, v), vv))


P.harness("C18.cc", ["common/math.cc"], libs=["-lglog"], time=3)
