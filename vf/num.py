"""Scalar arithmetic: exact integers, floating point as 'real' or 'uf'."""
from fractions import Fraction
import z3
from .ast import Unsupported
from .values import *
from .types import strip, int_info


class Num:
    def __init__(self, mode, axioms):
        self.mode = mode
        self.axioms = axioms     # list to append global axioms to
        self._done = set()
        self._keep = []
        self.within = None       # (term, lo, hi) -> known to lie in the range

    # ---- helpers
    def _uf(self, name, *args, ret=None):
        sorts = [a.sort() for a in args]
        f = z3.Function(name + "".join("_" + _sn(s) for s in sorts), *(sorts + [args[0].sort() if ret is None else ret]))
        return f(*args)

    def axiom(self, key, *fs):
        if key in self._done:
            return
        self._done.add(key)
        self._keep.append(fs)
        self.axioms.extend(fs)

    def commutes(self, name, s):
        if (name, s.name(), str(s)) in self._done:
            return
        x, y = z3.Const("x!c", s), z3.Const("y!c", s)
        f = self._uf(name, x, y)
        self.axiom((name, s.name(), str(s)), z3.ForAll([x, y], f == self._uf(name, y, x), patterns=[f]))

    def widen(self, a):
        """float -> double is exact: same number, NaN stays NaN."""
        x = z3.Const("x!w", F32)
        w = z3.Function("widen", F32, F64)
        self.axiom(("widen",), z3.ForAll([x], z3.And(fkey(w(x)) == fkey(x), fnan(w(x)) == fnan(x)), patterns=[w(x)]))
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(a.arg(0), self.widen(a.arg(1)), self.widen(a.arg(2)))
        if fval(a) is not None:
            return flit(fval(a), F64)
        return w(a)

    def narrow(self, a):
        x = z3.Const("x!n", F32)
        w = z3.Function("widen", F32, F64)
        n = z3.Function("narrow", F64, F32)
        self.axiom(("narrow",), z3.ForAll([x], n(w(x)) == x, patterns=[w(x)]))
        if fval(a) is not None:
            return flit(fval(a), F32)
        if z3.is_app(a) and a.decl().eq(w):
            return a.arg(0)
        return n(a)

    def fold(self, op, *args):
        """Constant folding on literals (double precision, then rounded)."""
        vs = [fval(a) for a in args]
        if any(v is None for v in vs):
            return None
        try:
            return flit(op(*vs), args[0].sort())
        except (ZeroDivisionError, OverflowError, ValueError):
            return None

    def fsort(self, t):
        if self.mode == "real":
            return Real
        return F32 if strip(t) == "float" else F64

    def const(self, v, t="double"):
        if self.mode == "real":
            if isinstance(v, float):
                # idealised arithmetic: the decimal number the literal stands for
                v = Fraction(short32(v) if strip(t) == "float" else repr(v))
            return z3.RealVal(v if isinstance(v, str) else Fraction(v))
        return flit(v, self.fsort(t))

    def is_f(self, a):
        return a.sort() in (Real, F32, F64)

    def isnum(self, a):
        return z3.is_rational_value(a) or z3.is_int_value(a) or fval(a) is not None

    # ---- arithmetic on floats
    def add(self, a, b):
        if self.mode == "real":
            if _zero(a):
                return b
            if _zero(b):
                return a
            return a + b
        r = self.fold(lambda x, y: x + y, a, b)
        if r is not None:
            return r
        self.commutes("fadd", a.sort())
        return self._uf("fadd", a, b)

    def sub(self, a, b):
        if self.mode == "real":
            return a if _zero(b) else a - b
        r = self.fold(lambda x, y: x - y, a, b)
        if r is not None:
            return r
        return self._uf("fsub", a, b)

    def mul(self, a, b):
        if self.mode == "real":
            if _zero(a) or _zero(b):
                return z3.RealVal(0)
            if _one(a):
                return b
            if _one(b):
                return a
            return a * b
        r = self.fold(lambda x, y: x * y, a, b)
        if r is not None:
            return r
        self.commutes("fmul", a.sort())
        return self._uf("fmul", a, b)

    def div(self, a, b):
        if self.mode == "real":
            a, b = self.simp(a), self.simp(b)
            if _one(b):
                return a
            if z3.is_rational_value(b) and not _zero(b):
                return a / b
            r = self._uf("rdiv", a, b)
            if not getattr(self, "opaque_div", False):
                self.axiom(("div", r.get_id()), z3.Implies(b != 0, r * b == a))
            return r
        r = self.fold(lambda x, y: x / y, a, b)
        if r is not None:
            return r
        return self._uf("fdiv", a, b)

    def neg(self, a):
        if self.mode == "real":
            return -a if not _zero(a) else a
        r = self.fold(lambda x: -x, a)
        if r is not None:
            return r
        x = z3.Const("x!g", a.sort())
        f = z3.Function("fneg_" + a.sort().name(), a.sort(), a.sort())
        self.axiom(("fneg", a.sort().name()), z3.ForAll([x], z3.And(
            fkey(f(x)) == -fkey(x), fnan(f(x)) == fnan(x)), patterns=[f(x)]))
        return f(a)

    def abs(self, a):
        if self.mode == "real":
            return z3.If(a >= 0, a, -a)
        r = self.fold(abs, a)
        if r is not None:
            return r
        x = z3.Const("x!g", a.sort())
        f = z3.Function("fabs_" + a.sort().name(), a.sort(), a.sort())
        self.axiom(("fabs", a.sort().name()), z3.ForAll([x], z3.And(
            fkey(f(x)) == z3.If(fkey(x) >= 0, fkey(x), -fkey(x)), fnan(f(x)) == fnan(x)), patterns=[f(x)]))
        return f(a)

    infinity = None     # real mode: stands for a number beyond all finite ones in use
    ring = None         # hypotheses for rewriting reals (vf/ring.py)

    def simp(self, t):
        """The term itself or a single monomial it equals under the ring's
        hypotheses."""
        if self.ring is None or self.mode != "real":
            return t
        return self.ring.monomial(t)

    def lt(self, a, b):
        a, b = self.simp(a), self.simp(b)
        return a < b if self.mode == "real" else z3.And(notnan(a), notnan(b), fkey(a) < fkey(b))

    def le(self, a, b):
        a, b = self.simp(a), self.simp(b)
        return a <= b if self.mode == "real" else z3.And(notnan(a), notnan(b), fkey(a) <= fkey(b))

    def feq(self, a, b):
        return a == b if self.mode == "real" else z3.And(notnan(a), notnan(b), fkey(a) == fkey(b))

    def sqrt(self, a):
        if self.mode == "uf":
            return self._uf("fsqrt", a)
        a = self.simp(a)
        if self.ring is not None:
            r = self.ring.root(a)
            if r is not None:
                return r
        if z3.is_rational_value(a):
            f = a.as_fraction()
            import math
            p, q = math.isqrt(f.numerator) if f >= 0 else -1, math.isqrt(f.denominator)
            if p >= 0 and p * p == f.numerator and q * q == f.denominator:
                return z3.RealVal(Fraction(p, q))
        r = self._uf("rsqrt", a)
        self.axiom(("sqrt", r.get_id()), z3.Implies(a >= 0, z3.And(r >= 0, r * r == a)))
        return r

    def fn(self, name, *args):
        """Other mathematical functions: uninterpreted."""
        if self.mode == "real":
            if name in ("sin", "cos"):
                x = args[0]
                if _zero(x):
                    return z3.RealVal(0 if name == "sin" else 1)
                s, c = self._uf("sin", x), self._uf("cos", x)
                self.axiom(("sc", x.get_id()), s * s + c * c == 1)
                return s if name == "sin" else c
            if name == "floor":
                return z3.ToReal(z3.ToInt(args[0]))
            if name == "ceil":
                return -z3.ToReal(z3.ToInt(-args[0]))
            if name in ("round", "lround"):
                x = args[0]
                if z3.is_to_real(x):
                    return x.arg(0) if name == "lround" else x
                h = z3.RealVal("1/2")
                r = z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(-x + h))
                return r if name == "lround" else z3.ToReal(r)
            if name == "exp":
                r = self._uf("exp", args[0])
                low = r > 0 if self.infinity is None else z3.And(r >= 0, z3.Implies(args[0] <= -746, r == 0))
                self.axiom(("exp", r.get_id()), low, (r <= 1) == (args[0] <= 0), (r == 1) == (args[0] == 0))
                return r
        if name == "lround":
            return self._uf("lround", args[0], ret=Int)
        return self._uf("m_" + name, *args)

    # ---- conversions
    def cast(self, a, src, dst):
        """Value conversion between arithmetic C++ types given by strings."""
        s = a.sort()
        dst = strip(dst)
        if dst in ("bool", "_Bool"):
            return self.to_bool(a)
        if dst in ("float", "double", "long double"):
            if s == Bool:
                return z3.If(a, self.const(1, dst), self.const(0, dst))
            if s == Int:
                if self.mode == "real":
                    if z3.is_int_value(a):
                        return z3.RealVal(a.as_long())
                    return z3.ToReal(a)
                if z3.is_int_value(a):
                    return flit(a.as_long(), self.fsort(dst))
                return self._uf("i2f", a, ret=self.fsort(dst))
            if self.mode == "real":
                return a
            d = self.fsort(dst)
            if s == d:
                return a
            return self.widen(a) if d == F64 else self.narrow(a)
        ii = int_info(dst) or (32, True)
        if s == Bool:
            return z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if s == Int:
            si = int_info(src) if src else None
            return wrap(a, ii, si, self.within)
        # float -> int: truncation toward zero
        if self.mode == "real":
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
                return wrap(a.arg(0), ii, None, self.within)
            return wrap(z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a)), ii, None, self.within)
        return self._uf("f2i%d" % ii[0], a, ret=Int)

    def to_bool(self, a):
        s = a.sort()
        if s == Bool:
            return a
        if s == Int:
            return a != 0
        if s == Real:
            return a != 0
        return z3.Or(fnan(a), fkey(a) != 0)


def notnan(a):
    v = fval(a)
    return z3.BoolVal(v == v) if v is not None else z3.Not(fnan(a))


def wrap(a, ii, si, within=None):
    b, signed = ii
    lo, hi = (-(2 ** (b - 1)), 2 ** (b - 1) - 1) if signed else (0, 2 ** b - 1)
    if z3.is_int_value(a):
        v = a.as_long()
        if lo <= v <= hi:
            return a
        v %= 2 ** b
        if signed and v > hi:
            v -= 2 ** b
        return z3.IntVal(v)
    if si is not None:
        slo, shi = (-(2 ** (si[0] - 1)), 2 ** (si[0] - 1) - 1) if si[1] else (0, 2 ** si[0] - 1)
        if slo >= lo and shi <= hi:
            return a
    if within is not None and within(a, lo, hi):
        return a
    if si is not None and si[1] and not signed and si[0] <= b:
        return z3.If(a >= 0, a, a + 2 ** b)
    m = a % (2 ** b)
    if signed:
        w = z3.If(m > hi, m - 2 ** b, m)
    else:
        w = m
    return z3.If(z3.And(a >= lo, a <= hi), a, w)


def _sn(s):
    return str(s).replace(" ", "").replace("(", "").replace(")", "").replace(",", "_")


def _zero(a):
    return z3.is_rational_value(a) and a.numerator_as_long() == 0


def _one(a):
    return z3.is_rational_value(a) and a.numerator_as_long() == 1 and a.denominator_as_long() == 1


def short32(v):
    """Shortest decimal that rounds to the same single-precision number."""
    import struct
    try:
        w = struct.pack("f", v)
    except OverflowError:
        return repr(v)
    for d in range(1, 10):
        t = "%.*g" % (d, v)
        if struct.pack("f", float(t)) == w:
            return t
    return repr(v)
