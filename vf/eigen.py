"""Fixed-size linear algebra (Eigen) evaluated element-wise."""
import z3
from .ast import Unsupported
from .values import *
from .types import strip, template, base_name, int_info


class EigenMixin:
    def neg_s(self, t):
        return -t if t.sort() == Int else self.num.neg(t)

    def s_add(self, a, b):
        return z3.simplify(a + b) if a.sort() == Int else self.num.add(a, b)

    def s_sub(self, a, b):
        return z3.simplify(a - b) if a.sort() == Int else self.num.sub(a, b)

    def s_mul(self, a, b):
        return a * b if a.sort() == Int else self.num.mul(a, b)

    def scalar_for(self, m, s):
        if m.e and m.e[0].sort() != s.sort() and s.sort() == Int:
            return self.num.cast(s, None, m.sc)
        return s

    def eigen_dims(self, t):
        b, a = template(t)
        sn = b.split("::")[-1]
        if sn == "Matrix":
            return strip(a[0]), int(a[1]), int(a[2])
        return None

    def eigen_static(self, name, args, n):
        """Matrix::Identity() etc.: dimensions come from the result type."""
        import re
        t = n.dtype
        m = re.search(r"Matrix<([a-z ]+), (-?\d+), (-?\d+)", t)
        if not m and "Quaternion" in t and name == "Identity":
            return Struct("Quaternion", {k: self.num.const(1 if k == "w" else 0) for k in "wxyz"})
        if not m:
            raise Unsupported("Eigen %s of %s" % (name, t))
        sc, r, c = m.group(1), int(m.group(2)), int(m.group(3))
        if r < 0 or c < 0:
            raise Unsupported("dynamic Eigen " + name)
        one = self.num.const(1, sc) if sc in ("float", "double") else z3.IntVal(1)
        zero = self.num.const(0, sc) if sc in ("float", "double") else z3.IntVal(0)
        if name == "Identity":
            e = [one if i == j else zero for i in range(r) for j in range(c)]
        elif name == "Zero":
            e = [zero] * (r * c)
        elif name == "Ones":
            e = [one] * (r * c)
        elif name == "Constant":
            e = [self.ev(args[0])] * (r * c)
        elif name.startswith("Unit"):
            k = "XYZ".index(name[-1])
            if r == c:
                c = 1            # the type names the square matrix it is a column of
            e = [one if i == k else zero for i in range(r * c)]
        else:
            raise Unsupported("Eigen " + name)
        return Mat(r, c, e, sc)

    def eigen_build(self, r, c, sc, vals):
        if len(vals) == 1 and isinstance(vals[0], Mat):
            return vals[0]
        out = []
        for v in vals:
            if sc in ("float", "double") and v.sort() == Int:
                v = self.num.cast(v, None, sc)
            elif sc not in ("float", "double") and v.sort() != Int:
                v = self.num.cast(v, "double", sc)
            out.append(v)
        if len(out) != r * c:
            raise Unsupported("matrix constructor")
        return Mat(r, c, out, sc)

    def eigen_construct(self, t, sn, targs, real, n):
        if sn == "Matrix" or self.eigen_dims(t):
            sc, r, c = self.eigen_dims(t)
            if not real:
                if r < 0 or c < 0:
                    return self.default(t)
                return self.default(t, "mat")
            vs = [self.ev(a) for a in real]
            if len(vs) == 1:
                v = vs[0]
                if isinstance(v, Mat):
                    return self.fit(v, r, c, sc)
                if isinstance(v, Seq):
                    return v
                if isinstance(v, Struct) and v.cls == "Quaternion":
                    return self.quat_to_mat(v)
                if isinstance(v, Struct) and v.cls == "eigaa":
                    return self.quat_to_mat(self.aa_to_quat(v))
                if isinstance(v, Struct) and v.cls == "eigtr":
                    return v.f["v"]
            if r > 0 and c > 0:
                return self.eigen_build(r, c, sc, vs)
            if r < 0 and c < 0 and len(vs) == 2 and all(z3.is_expr(x) and x.sort() == Int for x in vs):
                return self.dyn_new(sc, vs[0], vs[1])
            raise Unsupported("dynamic matrix construction")
        if sn in ("Quaternion",):
            vs = [self.ev(a) for a in real]
            if not vs:
                return self.default(t, "quat")
            if len(vs) == 4:
                return Struct("Quaternion", dict(zip("wxyz", vs)))
            v = vs[0]
            if isinstance(v, Struct) and v.cls == "Quaternion":
                return v
            if isinstance(v, Mat) and v.r == 3 and v.c == 3:
                return self.mat_to_quat(v)
            if isinstance(v, Struct) and v.cls == "eigaa":
                return self.aa_to_quat(v)
            raise Unsupported("quaternion construction")
        if sn == "AngleAxis":
            vs = [self.ev(a) for a in real]
            if len(vs) == 2:
                return Struct("eigaa", {"angle": vs[0], "axis": vs[1]})
            if len(vs) == 1 and isinstance(vs[0], Struct) and vs[0].cls == "eigaa":
                return vs[0]
            raise Unsupported("AngleAxis construction")
        if len(real) == 1:
            return self.e(real[0])
        raise Unsupported("Eigen construction of " + t[:80])

    def fit(self, v, r, c, sc):
        if (v.r, v.c) == (r, c) or r < 0 or c < 0:
            return Mat(v.r, v.c, v.e, sc)
        if v.r * v.c == r * c:
            return Mat(r, c, v.e, sc)
        raise Unsupported("matrix size mismatch %dx%d from %dx%d" % (r, c, v.r, v.c))

    def aa_to_quat(self, v):
        h = self.num.mul(self.num.const(0.5), v.f["angle"])
        s, c = self.num.fn("sin", h), self.num.fn("cos", h)
        x, y, z = [self.num.mul(s, t) for t in v.f["axis"].e]
        return Struct("Quaternion", {"w": c, "x": x, "y": y, "z": z})

    def quat_to_mat(self, q):
        N = self.num
        w, x, y, z = (q.f[k] for k in "wxyz")
        two, one = N.const(2), N.const(1)

        def m(a, b):
            return N.mul(a, b)

        def t(a):
            return N.mul(two, a)
        e = [N.sub(one, t(N.add(m(y, y), m(z, z)))), t(N.sub(m(x, y), m(w, z))), t(N.add(m(x, z), m(w, y))),
             t(N.add(m(x, y), m(w, z))), N.sub(one, t(N.add(m(x, x), m(z, z)))), t(N.sub(m(y, z), m(w, x))),
             t(N.sub(m(x, z), m(w, y))), t(N.add(m(y, z), m(w, x))), N.sub(one, t(N.add(m(x, x), m(y, y))))]
        return Mat(3, 3, e)

    def mat_to_quat(self, m):
        """Quaternion of a rotation matrix: assumed contract (unit, same
        rotation) for proper rotations; functional in the matrix."""
        self.assumed.add("Eigen::Quaternion(Matrix3): q(M) is a function of M and rotates like M")
        e = [self.num.cast(x, None, "double") if x.sort() == Int else x for x in m.e]
        comps = []
        for k in "wxyz":
            f = z3.Function("m2q_" + k, *([t.sort() for t in e] + [e[0].sort()]))
            comps.append(f(*e))
        return Struct("Quaternion", dict(zip("wxyz", comps)))

    def quat_mul(self, a, b):
        N = self.num
        aw, ax, ay, az = (a.f[k] for k in "wxyz")
        bw, bx, by, bz = (b.f[k] for k in "wxyz")

        def m(p, q):
            return N.mul(p, q)
        w = N.sub(N.sub(N.sub(m(aw, bw), m(ax, bx)), m(ay, by)), m(az, bz))
        x = N.sub(N.add(N.add(m(aw, bx), m(ax, bw)), m(ay, bz)), m(az, by))
        y = N.sub(N.add(N.add(m(aw, by), m(ay, bw)), m(az, bx)), m(ax, bz))
        z = N.sub(N.add(N.add(m(aw, bz), m(az, bw)), m(ax, by)), m(ay, bx))
        return Struct("Quaternion", {"w": w, "x": x, "y": y, "z": z})

    def quat_method(self, obj, q, name, args, n):
        N = self.num
        if name in ("w", "x", "y", "z"):
            return obj.map(lambda l: l.f(name))
        if name in ("toRotationMatrix", "matrix"):
            return self.quat_to_mat(q)
        if name in ("conjugate", "inverse"):
            if name == "inverse":
                self.assumed.add("Eigen::Quaternion::inverse of a unit quaternion is its conjugate")
            return Struct("Quaternion", {"w": q.f["w"], "x": N.neg(q.f["x"]), "y": N.neg(q.f["y"]),
                                         "z": N.neg(q.f["z"])})
        if name in ("normalized", "normalize"):
            nn = self.norm_of([q.f[k] for k in "wxyz"])
            r = Struct("Quaternion", {k: N.div(q.f[k], nn) for k in "wxyz"})
            if name == "normalize":
                self.write(obj, r)
                return None
            return r
        if name == "slerp":
            t = self.ev(args[0])
            b = self.ev(args[1])
            self.assumed.add("Eigen::Quaternion::slerp (spherical interpolation, functional)")
            ls = [t] + [q.f[k] for k in "wxyz"] + [b.f[k] for k in "wxyz"]
            comps = []
            for k in "wxyz":
                f = z3.Function("slerp_" + k, *([x.sort() for x in ls] + [t.sort()]))
                comps.append(f(*ls))
            return Struct("Quaternion", dict(zip("wxyz", comps)))
        if name == "cast":
            return q
        if name == "norm":
            return self.norm_of([q.f[k] for k in "wxyz"])
        if name == "operator=":
            v = self.ev(args[0])
            self.write(obj, v)
            return obj
        if name == "coeffs":
            return Mat(4, 1, [q.f[k] for k in "xyzw"])
        if name in ("setIdentity",):
            self.write(obj, Struct("Quaternion", {"w": N.const(1), "x": N.const(0), "y": N.const(0), "z": N.const(0)}))
            return None
        raise Unsupported("quaternion method " + name)

    def norm_of(self, es):
        s = None
        for x in es:
            p = self.num.mul(x, x)
            s = p if s is None else self.num.add(s, p)
        return self.num.sqrt(s)

    def mat_coeff(self, ref, v, idx):
        ks = []
        for x in idx:
            x = z3.simplify(x)
            ks.append(x.as_long() if z3.is_int_value(x) else x)
        if len(ks) == 1:
            k = ks[0]
            if v.c != 1 and v.r != 1:
                raise Unsupported("linear index into matrix")
            if isinstance(k, int):
                if not 0 <= k < len(v.e):
                    self.safe(z3.BoolVal(False), "coefficient index in range")
            else:
                self.safe(z3.And(k >= 0, k < len(v.e)), "coefficient index in range")
        else:
            i, j = ks
            if isinstance(i, int) and isinstance(j, int):
                if not (0 <= i < v.r and 0 <= j < v.c):
                    self.safe(z3.BoolVal(False), "coefficient index in range")
                k = i * v.c + j
            else:
                self.safe(z3.And(i >= 0, i < v.r, j >= 0, j < v.c), "coefficient index in range")
                k = z3.simplify((i if z3.is_expr(i) else z3.IntVal(i)) * v.c + j)
        return ref.map(lambda l: l.sub(("e", k)))

    def const_int(self, a):
        v = z3.simplify(self.ev(a))
        if not z3.is_int_value(v):
            raise Unsupported("non-constant matrix dimension")
        return v.as_long()

    def tparams(self, n):
        """Template integer arguments of e.g. block<3, 3>(0, 0) from the type."""
        import re
        m = re.search(r", (-?\d+), (-?\d+)(?:, (?:true|false))?>\s*(?:const)?\s*$", n.dtype.replace("Eigen::", ""))
        if m:
            return int(m.group(1)), int(m.group(2))
        return None

    def mat_method(self, obj, v, name, args, n):
        N = self.num
        args = [a for a in args if a.kind != "CXXDefaultArgExpr"]
        if name in ("rows", "cols", "size"):
            return z3.IntVal({"rows": v.r, "cols": v.c, "size": v.r * v.c}[name])
        if name in ("x", "y", "z", "w"):
            return self.mat_coeff(obj, v, [z3.IntVal("xyzw".index(name))])
        if name in ("coeff", "coeffRef", "operator()", "operator[]"):
            return self.mat_coeff(obj, v, [self.ev(a) for a in args])
        if name == "transpose":
            return Mat(v.c, v.r, [v.at(i, j) for j in range(v.c) for i in range(v.r)], v.sc)
        if name == "block":
            ks = [self.const_int(a) for a in args]
            if len(ks) == 4:
                b = tuple(ks)
            else:
                d = self.tparams(n)
                if d is None or d[0] < 0:
                    raise Unsupported("block type " + n.dtype)
                b = (ks[0], ks[1], d[0], d[1])
            if b[0] < 0 or b[1] < 0 or b[0] + b[2] > v.r or b[1] + b[3] > v.c:
                self.safe(z3.BoolVal(False), "block inside matrix")
            return obj.map(lambda l: l.sub(("b", b)))
        if name in ("topRows", "head", "topLeftCorner", "topRightCorner", "bottomRows", "tail", "segment",
                    "leftCols", "rightCols", "middleCols", "bottomLeftCorner", "bottomRightCorner"):
            d = self.tparams(n)
            ks = [self.const_int(a) for a in args]
            if name in ("head", "tail", "segment"):
                if name == "segment":
                    off, ln = ks[0], ks[1] if len(ks) > 1 else (d[0] if v.c == 1 else d[1])
                else:
                    ln = ks[0] if ks else (d[0] if v.c == 1 else d[1])
                    off = 0 if name == "head" else v.r * v.c - ln
                b = (off, 0, ln, 1) if v.c == 1 else (0, off, 1, ln)
            else:
                if name in ("topRows", "bottomRows"):
                    k = ks[0] if ks else d[0]
                    b = (0 if name == "topRows" else v.r - k, 0, k, v.c)
                elif name in ("leftCols", "rightCols"):
                    k = ks[0] if ks else d[1]
                    b = (0, 0 if name == "leftCols" else v.c - k, v.r, k)
                else:
                    nr, nc = (ks[0], ks[1]) if len(ks) == 2 else d
                    b = (0 if "top" in name else v.r - nr, 0 if "Left" in name else v.c - nc, nr, nc)
            return obj.map(lambda l: l.sub(("b", b)))
        if name in ("col", "row"):
            k = self.const_int(args[0])
            b = (0, k, v.r, 1) if name == "col" else (k, 0, 1, v.c)
            return obj.map(lambda l: l.sub(("b", b)))
        if name == "cast":
            import re
            m = re.search(r"scalar_cast_op<[a-z ]+, ([a-z ]+)>", n.dtype)
            dst = m.group(1) if m else v.sc
            return Mat(v.r, v.c, [N.cast(x, v.sc, dst) for x in v.e], dst)
        if name in ("norm", "stableNorm"):
            return self.norm_of(v.e)
        if name == "squaredNorm":
            s = None
            for x in v.e:
                p = self.s_mul(x, x)
                s = p if s is None else self.s_add(s, p)
            return s
        if name in ("normalized", "normalize"):
            nn = self.norm_of(v.e)
            r = Mat(v.r, v.c, [N.div(x, nn) for x in v.e], v.sc)
            if name == "normalize":
                self.write(obj, r)
                return None
            return r
        if name == "dot":
            w = self.ev(args[0])
            s = None
            for x, y in zip(v.e, w.e):
                p = self.s_mul(x, y)
                s = p if s is None else self.s_add(s, p)
            return s
        if name == "cross":
            w = self.ev(args[0])
            a, b = v.e, w.e
            return Mat(3, 1, [N.sub(N.mul(a[1], b[2]), N.mul(a[2], b[1])), N.sub(N.mul(a[2], b[0]), N.mul(a[0], b[2])),
                              N.sub(N.mul(a[0], b[1]), N.mul(a[1], b[0]))], v.sc)
        if name in ("minCoeff", "maxCoeff"):
            r = v.e[0]
            for x in v.e[1:]:
                lt = (x < r) if x.sort() == Int else N.lt(x, r)
                gt = (r < x) if x.sort() == Int else N.lt(r, x)
                r = z3.If(lt if name == "minCoeff" else gt, x, r)
            return r
        if name in ("sum",):
            s = v.e[0]
            for x in v.e[1:]:
                s = self.s_add(s, x)
            return s
        if name in ("cwiseAbs", "array", "matrix", "eval", "noalias", "derived", "cwiseAbs2"):
            if name == "cwiseAbs":
                return Mat(v.r, v.c, [N.abs(x) if x.sort() != Int else z3.If(x >= 0, x, -x) for x in v.e], v.sc)
            return obj
        if name in ("cwiseProduct", "cwiseQuotient", "cwiseMin", "cwiseMax"):
            w = self.ev(args[0])
            if not isinstance(w, Mat):
                w = Mat(v.r, v.c, [w] * len(v.e), v.sc)
            f = {"cwiseProduct": self.s_mul, "cwiseQuotient": N.div,
                 "cwiseMin": lambda a, b: z3.If(N.lt(b, a), b, a) if a.sort() != Int else z3.If(b < a, b, a),
                 "cwiseMax": lambda a, b: z3.If(N.lt(a, b), b, a) if a.sort() != Int else z3.If(a < b, b, a)}[name]
            return Mat(v.r, v.c, [f(a, b) for a, b in zip(v.e, w.e)], v.sc)
        if name in ("setZero", "setIdentity", "setOnes", "setConstant", "fill"):
            one = N.const(1, v.sc) if v.e[0].sort() != Int else z3.IntVal(1)
            zero = N.const(0, v.sc) if v.e[0].sort() != Int else z3.IntVal(0)
            if name == "setZero":
                e = [zero] * len(v.e)
            elif name == "setIdentity":
                e = [one if i == j else zero for i in range(v.r) for j in range(v.c)]
            elif name == "setOnes":
                e = [one] * len(v.e)
            else:
                e = [self.scalar_for(v, self.ev(args[0]))] * len(v.e)
            self.write(obj, Mat(v.r, v.c, e, v.sc))
            return obj
        if name == "inverse":
            return self.mat_inverse(v)
        if name == "eulerAngles":
            raise Unsupported("eulerAngles")
        if name == "determinant" and v.r == 3:
            return self.det3(v)
        if name == "trace":
            s = v.at(0, 0)
            for i in range(1, v.r):
                s = N.add(s, v.at(i, i))
            return s
        if name == "data":
            return Iter(obj.loc, z3.IntVal(0))
        if name in ("begin", "end"):
            return self.seq_iter(obj, name)
        if name == "operator=":
            y = self.ev(args[0])
            return self.assign(obj, v, y, n)
        if name in ("homogeneous",):
            return Mat(v.r + 1, 1, v.e + [N.const(1)], v.sc)
        if name in ("value",):
            return v.e[0]
        if name in ("isApprox",):
            raise Unsupported("isApprox")
        if name in ("allFinite", "hasNaN") and self.fp == "real":
            return z3.BoolVal(name == "allFinite")
        if name.startswith("operator "):
            if len(v.e) == 1:
                return v.e[0]
        raise Unsupported("matrix method " + name)

    def det3(self, v):
        N = self.num
        a, b, c, d, e, f, g, h, i = v.e
        return N.add(N.sub(N.mul(a, N.sub(N.mul(e, i), N.mul(f, h))), N.mul(b, N.sub(N.mul(d, i), N.mul(f, g)))),
                     N.mul(c, N.sub(N.mul(d, h), N.mul(e, g))))

    def mat_inverse(self, v):
        """General inverse: fresh matrix with M * X = X * M = I (assumed for
        invertible M), functional in M."""
        self.assumed.add("Eigen inverse(): M * inv(M) = inv(M) * M = I for invertible M")
        fs = [z3.Function("inv%d_%d" % (v.r, k), *([t.sort() for t in v.e] + [v.e[0].sort()]))
              for k in range(v.r * v.c)]
        X = Mat(v.r, v.c, [f(*v.e) for f in fs], v.sc)
        key = ("inv",) + tuple(t.get_id() for t in v.e)
        P = self.mat_op("*", v, X, None)
        Q = self.mat_op("*", X, v, None)
        ident = [self.num.const(1) if i == j else self.num.const(0) for i in range(v.r) for j in range(v.c)]
        self.invs = getattr(self, "invs", [])
        self.invs.append((v, X))
        if getattr(self, "inverse_axioms", True) and self.fp == "real":
            self.num.axiom(key, *[a == b for a, b in zip(P.e, ident)], *[a == b for a, b in zip(Q.e, ident)])
        return X

    def mat_op(self, op, v, y, n):
        N = self.num
        if isinstance(v, Struct) and v.cls == "eigaa":
            v = self.aa_to_quat(v)
        if isinstance(y, Struct) and y.cls == "eigaa":
            y = self.aa_to_quat(y)
        if isinstance(v, Struct) and v.cls == "Quaternion":
            if op == "*" and isinstance(y, Struct) and y.cls == "Quaternion":
                return self.quat_mul(v, y)
            if op == "*" and isinstance(y, Mat):
                return self.mat_op("*", self.quat_to_mat(v), y, n)
            raise Unsupported("quaternion operator " + op)
        if isinstance(v, Struct) or isinstance(y, Struct) or isinstance(v, Seq) or isinstance(y, Seq):
            return self.dyn_op(op, v, y, n)
        if op == "*":
            if isinstance(v, Mat) and isinstance(y, Mat):
                if v.c != y.r:
                    raise Unsupported("matrix product dimensions")
                e = []
                for i in range(v.r):
                    for j in range(y.c):
                        s = None
                        for k in range(v.c):
                            p = self.s_mul(v.at(i, k), y.at(k, j))
                            s = p if s is None else self.s_add(s, p)
                        e.append(s)
                return Mat(v.r, y.c, e, v.sc)
            if isinstance(v, Mat):
                y = self.scalar_for(v, y)
                return Mat(v.r, v.c, [self.s_mul(x, y) for x in v.e], v.sc)
            v = self.scalar_for(y, v)
            return Mat(y.r, y.c, [self.s_mul(v, x) for x in y.e], y.sc)
        if op == "/":
            y = self.scalar_for(v, y)
            if y.sort() == Int:
                raise Unsupported("integer matrix division")
            return Mat(v.r, v.c, [N.div(x, y) for x in v.e], v.sc)
        if op in ("+", "-"):
            if not isinstance(y, Mat) or (v.r, v.c) != (y.r, y.c):
                raise Unsupported("matrix sum dimensions")
            f = self.s_add if op == "+" else self.s_sub
            return Mat(v.r, v.c, [f(a, b) for a, b in zip(v.e, y.e)], v.sc)
        if op in ("==", "!="):
            c = z3.And(*[a == b if a.sort() == Int else N.feq(a, b) for a, b in zip(v.e, y.e)])
            return c if op == "==" else z3.Not(c)
        raise Unsupported("matrix operator " + op)

    def dyn_new(self, sc, rows, cols):
        """Dynamic matrix with a constant number of rows: sequence of columns."""
        r = z3.simplify(rows)
        if not z3.is_int_value(r) or not 0 < r.as_long() <= 6:
            raise Unsupported("dynamic number of rows")
        es = self.num.const(0, sc).sort() if sc in ("float", "double") else Int
        el = Mat(r.as_long(), 1, [self.fresh(z3.ArraySort(Int, es), "dyn") for _ in range(r.as_long())], sc)
        self.safe(cols >= 0, "non-negative matrix size")
        return Seq("dynmat", cols, el)

    def dyn_op(self, op, v, y, n):
        c = self.fresh(Int, "col")
        if op == "*" and isinstance(v, Mat) and isinstance(y, Seq) and y.kind == "dynmat" and v.c == y.el.r:
            m = self.mat_op("*", v, sel(y.el, c), n)
            return Seq("dynmat", y.n, Mat(m.r, 1, [z3.Lambda([c], x) for x in m.e], m.sc))
        raise Unsupported("dynamic matrix operator " + op)

    def dyn_method(self, obj, v, name, args, n):
        from .engine import Ref
        if v.kind == "dynmat":
            rows = len(leaves(v.el))
            if name == "cols":
                return v.n
            if name == "rows":
                return z3.IntVal(rows)
            if name == "col":
                i = self.ev(args[0])
                self.safe(z3.And(i >= 0, i < v.n), "column index in range")
                return obj.map(lambda l: l.i(i))
            if name == "resize":
                self.write(obj, self.dyn_new(v.el.sc, self.ev(args[0]), self.ev(args[1])))
                return None
            if name in ("setConstant", "setZero", "setOnes", "fill"):
                x = self.ev(args[0]) if args else self.num.const(0 if name == "setZero" else 1, v.el.sc)
                self.write(obj, Seq("dynmat", v.n, tmap(lambda a: z3.K(Int, x), v.el)))
                return obj
            if name in ("block", "topRows"):
                args = [a for a in args if a.kind != "CXXDefaultArgExpr"]
                ks = [z3.simplify(self.ev(a)) for a in args]
                if name == "topRows":
                    ks = [z3.IntVal(0), z3.IntVal(0)] + ks + [v.n]
                if len(ks) != 4 or not all(z3.is_int_value(k) for k in (ks[0], ks[1], ks[2])):
                    raise Unsupported("dynamic block")
                r0, c0, nr = (k.as_long() for k in ks[:3])
                if c0 or not self.valid(ks[3] == v.n):
                    if nr == rows and r0 == 0 and z3.is_int_value(ks[3]) and ks[3].as_long() == 1:
                        return obj.map(lambda l: l.i(ks[1]))
                    raise Unsupported("dynamic block")
                if r0 < 0 or nr < 0 or r0 + nr > rows:
                    self.safe(z3.BoolVal(False), "block inside matrix")
                return obj.map(lambda l: l.sub(("dr", (r0, nr))))
            if name == "conservativeResize":
                c = self.ev(args[1])
                self.write(obj, Seq("dynmat", c, v.el))
                return None
        if v.kind == "dynvec":
            if name in ("size", "rows"):
                return v.n
            if name == "cols":
                return z3.IntVal(1)
            if name in ("sum", "mean", "dot", "squaredNorm") and self.fp == "real":
                self.assumed.add("Eigen sum(), dot(): sums over all coefficients")
                A = z3.ArraySort(Int, Real)
                if name in ("sum", "mean"):
                    r = z3.Function("vsum", A, Int, Real)(v.el, v.n)
                    return r if name == "sum" else self.num.div(r, z3.ToReal(v.n))
                w = self.ev(args[0]) if name == "dot" else v
                self.safe(w.n == v.n, "equal vector sizes")
                a, b = sorted((v.el, w.el), key=lambda t: t.sexpr())     # commutative
                return z3.Function("vdot", A, A, Int, Real)(a, b, v.n)
            if name == "resize":
                c = self.ev(args[0])
                m = tmap(lambda a: self.fresh(a.sort(), "rs"), v.el)
                self.write(obj, Seq("dynvec", c, m))
                return None
        raise Unsupported("dynamic matrix method " + name)

    def dyn_coeff(self, ref, v, idx):
        if v.kind == "dynvec" and len(idx) == 1:
            self.safe(z3.And(idx[0] >= 0, idx[0] < v.n), "coefficient index in range")
            return ref.map(lambda l: l.i(idx[0]))
        if v.kind == "dynmat" and len(idx) == 2:
            r = z3.simplify(idx[0])
            self.safe(z3.And(idx[1] >= 0, idx[1] < v.n), "column index in range")
            return ref.map(lambda l: l.i(idx[1]).sub(("e", r.as_long() if z3.is_int_value(r) else r)))
        raise Unsupported("dynamic coefficient")

    def eigobj_method(self, obj, v, name, args, n):
        if v.cls == "eigaa":
            if name in ("toRotationMatrix", "matrix"):
                return self.quat_to_mat(self.aa_to_quat(v))
            if name == "angle":
                return v.f["angle"]
        if v.cls == "eigcomma" and name == "finished":
            return self.read(Ref_(v))
        raise Unsupported("Eigen object method " + name)

    # comma initialiser:  m << a, b, c;
    def comma_init(self, a, first):
        r = self.ref(a)
        st = Struct("eigcomma", {"pos": z3.IntVal(0)})
        loc = self.new_root(st, "comma")
        self.commas = getattr(self, "commas", {})
        self.commas[loc.root] = r
        from .engine import Ref
        ref = Ref(loc)
        self.comma_put(ref, first)
        return ref

    def comma_next(self, a, x):
        self.comma_put(a, x)
        return a

    def comma_put(self, ref, x):
        tgt = self.commas[ref.loc.root]
        st = self.read(ref)
        p = st.f["pos"].as_long()
        m = self.read(tgt)
        vals = x.e if isinstance(x, Mat) else [x]
        if isinstance(x, Mat) and x.c != 1 and m.c != 1 and x.c != m.c:
            raise Unsupported("comma initialiser with blocks")
        if isinstance(x, Mat) and m.c != 1 and x.c == 1 and x.r > 1:
            raise Unsupported("comma initialiser with columns")
        e = list(m.e)
        for v in vals:
            if v.sort() == Int and m.sc in ("float", "double"):
                v = self.num.cast(v, None, m.sc)
            if p >= len(e):
                raise Unsupported("comma initialiser overflow")
            e[p] = v
            p += 1
        self.write(tgt, Mat(m.r, m.c, e, m.sc))
        self.write(ref, Struct("eigcomma", {"pos": z3.IntVal(p)}))
