"""C02: the bracketing search encloses the time between neighbours."""
from vf.driver import Property
from vf.ast import HERE
from vf.spec import *
from .C01 import ns, stamp, G

P = Property("C02")
FILES = ("common/simple_time.cc", HERE + "/stubs/bracketing.cc")


def search_cands(seq, t, attr=lambda s: s.f["time"]):
    """Invariant templates: an index variable is in range and its sample is on
    one side of the time."""
    def cands(ex, info):
        out = []
        for key, old, nl in info.hv:
            if nl.sort() != Int:
                continue

            def mk(key):
                L = ex.leaf_at

                def x(st):
                    return ns(attr(sel(seq.el, L(st, key))))
                nm = "sample at %s" % (key[0][0].split("!")[0],)
                return [Cand(nm + " in range", lambda st, i: z3.And(L(st, key) >= 0, L(st, key) < seq.n)),
                        Cand(nm + " up to the end", lambda st, i: z3.And(L(st, key) >= 0, L(st, key) <= seq.n)),
                        Cand(nm + " <= time", lambda st, i: x(st) <= t),
                        Cand(nm + " < time", lambda st, i: x(st) < t),
                        Cand(nm + " >= time", lambda st, i: x(st) >= t),
                        Cand(nm + " > time", lambda st, i: x(st) > t)]
            out.extend(mk(key))
        return out
    return cands


@P.proof("bracketing search", FILES)
def _(c):
    ex = c.exec(fp="real", track_overflow=True)
    vec, v = obj(ex, "std::vector<static_map::StampedSample>", "samples")
    tm, tv = stamp(ex, "time")
    k = z3.Int("k!s")
    ex.assume(z3.And(v.n >= 2, v.n <= 2 ** 30))
    ex.assumed.add("containers hold at most 2^30 samples (12 bytes each or more)")
    s = lambda i: sel(v.el, i).f["time"]
    ex.assume(z3.ForAll([k], z3.And(s(k).f["nsecs"] < G, s(k).f["secs"] >= 0, s(k).f["nsecs"] >= 0),
                        patterns=[s(k).f["nsecs"]]))
    ex.assume(z3.And(ns(s(z3.IntVal(0))) <= ns(tv), ns(tv) < ns(s(v.n - 1))))
    ex.extra_cands.append(search_cands(v, ns(tv)))
    r = ex.val(call(ex, "TimeStampBinarySearch", None, [vec, tm], sig="StampedSample"))
    no_abort(ex, "bracketing search")
    reach(ex, "bracketing search returns")
    f, g = r.f["first"], r.f["second"]
    post(ex, "the two positions are neighbours inside the container", z3.And(f >= 0, g == f + 1, g < v.n))
    post(ex, "the first sample is not later than the time", ns(s(f)) <= ns(tv))
    post(ex, "the second sample is later than the time", ns(s(g)) > ns(tv))
    post(ex, "the samples are unchanged", eq(state_val(ex, vec), v))


P.harness("C02.cc", ["common/simple_time.cc", "common/macro_defines.cc"], libs=["-lglog", "-lpthread"], time=3)
