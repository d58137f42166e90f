"""C01: time-stamp arithmetic is exact to the nanosecond."""
from vf.driver import Property
from vf.spec import *

P = Property("C01")
FILES = ("common/simple_time.cc",)
G = 10 ** 9
T = "static_map::SimpleTime"


def ns(v):
    return v.f["secs"] * G + v.f["nsecs"]


def stamp(ex, hint):
    """Arbitrary stamp as the constructors make them, sub-second part < 1 s."""
    r, v = obj(ex, T, hint)
    ex.assume(z3.And(v.f["nsecs"] < G, v.f["u_judge_range"] == 1))
    return r, v


def wellformed(ex, what, v):
    post(ex, what + " has a sub-second part below one second", z3.And(v.f["nsecs"] >= 0, v.f["nsecs"] < G))
    post(ex, what + " keeps the equality tolerance", v.f["u_judge_range"] == 1)


def op(name, sym):
    @P.proof("operator%s" % sym, FILES)
    def _(c):
        ex = c.exec(fp="real", track_overflow=True)
        a, av = stamp(ex, "a")
        b, bv = stamp(ex, "b")
        if sym == "+" or sym == "+=":
            ex.assume((ns(av) + ns(bv)) < 2 ** 32 * G)
        r = call(ex, "SimpleTime::operator" + sym, a, [b])
        no_abort(ex, "operator" + sym)
        reach(ex, "operator%s returns" % sym)
        x, y = ns(av), ns(bv)
        if sym in ("<", "<=", ">", ">="):
            w = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[sym]
            post(ex, "a %s b compares the nanosecond counts" % sym, ex.num.to_bool(ex.val(r)) == w)
        elif sym in ("==", "!="):
            w = z3.And(x - y <= 1, y - x <= 1)
            post(ex, "a %s b compares the nanosecond counts within one" % sym,
                 ex.num.to_bool(ex.val(r)) == (w if sym == "==" else z3.Not(w)))
        else:
            v = state_val(ex, a) if sym == "+=" else ex.val(r)
            w = z3.If(x >= y, x - y, 0) if sym == "-" else x + y
            post(ex, "a %s b is exact to the nanosecond" % sym, ns(v) == w)
            wellformed(ex, "a %s b" % sym, v)
        if sym != "+=":
            post(ex, "operator%s leaves its left operand" % sym, eq(state_val(ex, a), av))
        post(ex, "operator%s leaves its right operand" % sym, eq(state_val(ex, b), bv))


for _s in ("<", "<=", ">", ">=", "==", "!=", "+", "-", "+="):
    op(None, _s)


@P.proof("operator/=", FILES)
def _(c):
    ex = c.exec(fp="real", track_overflow=True)
    a, av = stamp(ex, "a")
    d = ex.sym("int", "divisor")
    loc = ex.new_root(d, "divisor")
    call(ex, "SimpleTime::operator/=", a, [Ref(loc)])
    no_abort(ex, "operator/=")
    v = state_val(ex, a)
    m = z3.If(d < 0, -d, d)
    post(ex, "dividing by zero changes nothing", z3.Implies(d == 0, eq(v, av)))
    post(ex, "quotient not above the exact one", z3.Implies(d != 0, ns(v) * m <= ns(av)))
    post(ex, "quotient is the largest such", z3.Implies(d != 0, ns(av) < (ns(v) + 1) * m))
    wellformed(ex, "quotient", v)


@P.proof("nanosecond round trip", FILES)
def _(c):
    ex = c.exec(fp="real", track_overflow=True)
    a, av = stamp(ex, "a")
    n = ex.val(call(ex, "SimpleTime::ToNanoSec", a))
    post(ex, "nanosecond count is exact", n == ns(av))
    r = ex.val(call(ex, "SimpleTime::FromNanoSec", None, [n]))
    post(ex, "stamp -> nanoseconds -> stamp is the identity", eq(r, av))
    ex2 = c.exec(fp="real", track_overflow=True)
    t = ex2.sym("unsigned long", "t")
    ex2.assume(t < 2 ** 32 * G)
    r = ex2.val(call(ex2, "SimpleTime::FromNanoSec", None, [t]))
    post(ex2, "FromNanoSec is exact", ns(r) == t)
    wellformed(ex2, "FromNanoSec", r)


@P.proof("micro-second conversions", FILES)
def _(c):
    ex = c.exec(fp="real", track_overflow=True)
    u = ex.sym("unsigned long", "us")
    ex.assume(u * 1000 < 2 ** 32 * G)
    lu = ex.new_root(u, "us")
    r = ex.val(call(ex, "ToLocalTime", None, [Ref(lu)]))
    post(ex, "micro-seconds to stamp is exact", ns(r) == u * 1000)
    wellformed(ex, "stamp from micro-seconds", r)
    a, av = stamp(ex, "a")
    q = ex.val(call(ex, "ToPclTime", None, [a]))
    post(ex, "stamp to micro-seconds rounds down", z3.And(q * 1000 <= ns(av), ns(av) < q * 1000 + 1000))


@P.proof("seconds", FILES)
def _(c):
    ex = c.exec(fp="real", track_overflow=True)
    s = ex.sym("double", "sec")
    ex.assume(s < 2 ** 32)
    r = ex.val(call(ex, "SimpleTime::FromSec", None, [s]))
    no_abort(ex, "FromSec")
    post(ex, "negative seconds give zero", z3.Implies(s < 0, ns(r) == 0))
    post(ex, "integer seconds are exact", z3.Implies(s >= 0, r.f["secs"] == z3.ToInt(s)))
    post(ex, "rounded down to the nanosecond",
         z3.Implies(s >= 0, z3.And(z3.ToReal(ns(r)) <= s * G, s * G < z3.ToReal(ns(r)) + 1)))
    wellformed(ex, "stamp from seconds", r)
    a, av = stamp(ex, "a")
    q = ex.val(call(ex, "SimpleTime::ToSec", a))
    post(ex, "seconds of a stamp", q * G == z3.ToReal(ns(av)))


@P.proof("construction", FILES)
def _(c):
    ex = c.exec(fp="real")
    r = ex.val(call(ex, "SimpleTime::TimeMax"))
    post(ex, "the maximum is not below any stamp", ns(r) == (2 ** 32 - 1) * G + G - 1)
    wellformed(ex, "maximum", r)


P.harness("C01.cc", ["common/simple_time.cc", "common/macro_defines.cc"], libs=["-lglog", "-lpthread"], time=3)
