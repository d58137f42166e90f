"""Shared by the sensor data collector properties."""
from vf.spec import *
from .C01 import ns, G
from .C02 import search_cands

FILES = ("builder/data/data_collector.cc", "common/simple_time.cc")
DC = "static_map::data::DataCollector"
NATIVE = ["builder/data/data_collector.cc", "builder/data/cloud_types.cc", "builder/data/data_types.cc", "pre_processors/*.cc",
          "common/*.cc", "common/performance/*.cc", "third_parties/pugixml/pugixml.cc"]
LIVE = "samples of one kind arrive in time order, more than one microsecond apart"


def wf(t):
    """A time stamp as the constructors make them."""
    return z3.And(t.f["nsecs"] >= 0, t.f["nsecs"] < G, t.f["secs"] >= 0, t.f["secs"] < 2 ** 32)


def stamps(ex, *ts):
    """Contracts of the time stamp operations, proved in C01."""
    def sub(ex, this, args, n):
        a, b = ex.val(this), ex.val(args[0])
        d = ex.sym("static_map::SimpleTime", "difference")
        ex.st.pc.append(z3.And(wf(d), ns(d) == z3.If(ns(a) >= ns(b), ns(a) - ns(b), 0)))
        return d

    def cmp(f):
        return lambda ex, this, args, n: f(ns(ex.val(this)), ns(ex.val(args[0])))
    C = ex.contracts
    C["SimpleTime::operator-"] = sub
    C["SimpleTime::operator<"] = cmp(lambda a, b: a < b)
    C["SimpleTime::operator>"] = cmp(lambda a, b: a > b)
    C["SimpleTime::operator<="] = cmp(lambda a, b: a <= b)
    C["SimpleTime::operator>="] = cmp(lambda a, b: a >= b)
    C["SimpleTime::ToSec"] = lambda ex, this, args, n: z3.ToReal(ns(ex.val(this))) / G


def collector(c, fp="real", contracts=True):
    ex = c.exec(fp=fp)
    if contracts:
        stamps(ex)
    this, v = obj(ex, DC, "collector")
    return ex, this, v


def history(ex, v, f, gap=1000):
    """Arbitrary stored samples; returns the sequence, the nanosecond count of
    sample k and the assumption that they are in time order."""
    s = v.f[f]
    tm = lambda k: sel(s.el, k).f["time"]
    j, k = z3.Ints("j!h k!h")
    at = lambda k: ns(tm(k))
    ex.assume(z3.And(s.n >= 0, s.n <= 2 ** 31 - 1))
    ex.assume(forall([k], wf(tm(k)), tm(k).f["nsecs"]))
    return s, at, forall([j, k], z3.Implies(z3.And(0 <= j, j < k, k < s.n), at(j) + gap < at(k)),
                         z3.MultiPattern(tm(j).f["nsecs"], tm(k).f["nsecs"]))


def given(ex, f):
    """Assumption f on the initial state, made after the execution (the loops
    do not need it)."""
    for s in ([ex.st] if ex.st is not None else []) + list(ex.aborts) + list(ex.throws):
        s.pc.append(f)


def query(ex):
    q, qv = obj(ex, "static_map::SimpleTime", "time")
    ex.assume(wf(qv))
    return q, ns(qv)
