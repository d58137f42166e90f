"""C11: saved clouds read back identically, short files are refused."""
from vf.driver import Property, CLOUD_LIBS
from vf.spec import *
from vf.loops import pats

P = Property("C11")
FILES = ("builder/data/cloud_types.cc",)
CLOUD = "static_map::data::InnerCloudType"
POINT = "static_map::data::InnerPointType"
P.assumptions.append("an object's bytes determine its value and back: records are trivially copyable")
P.assumptions.append("enough memory for the announced number of points; writes to an open stream succeed")
TYPES = (POINT, "static_map::SimpleTime", "unsigned long")
STAMP, HEAD, SIZE = 12, 20, 20       # bytes of the stamp, the stamp and the number of points, a point


def start(c):
    ex = c.exec(fp="uf")
    ex.types.stream_types = TYPES
    if ex.sizeof(TYPES[1]) != STAMP or ex.sizeof(POINT) != SIZE:
        raise Unsupported("record sizes")
    return ex


def same_stream(a, b, but=()):
    return z3.And(*[eq(a.f[k], b.f[k]) for k in a.f if k not in but])


@P.proof("one point", FILES)
def _(c):
    ex = start(c)
    p, pv = obj(ex, POINT, "point")
    s, sv = obj(ex, "std::fstream", "file")
    ex.assume(z3.And(sv.f["open"], sv.f["good"]))
    r = ex.val(call(ex, "InnerPointType::Serialize", p, [ptr(ex, s)]))
    no_abort(ex, "writing a point")
    w = state_val(ex, s)
    post(ex, "writing reports the bytes written", z3.And(r == w.f["pos"] - sv.f["pos"], r > 0))
    post(ex, "writing leaves the point", eq(state_val(ex, p), pv))
    q, qv = obj(ex, POINT, "other")
    extra = ex.fresh(Int, "extra")
    ex.assume(extra >= 0)
    put(ex, s, w.set("rec", sv.f["rec"]).set("pos", sv.f["pos"]).set("left", w.f["pos"] - sv.f["pos"] + extra))
    r = ex.val(call(ex, "InnerPointType::Deserialize", q, [ptr(ex, s)]))
    no_abort(ex, "reading a point")
    reach(ex, "a point is written and read")
    post(ex, "reading succeeds", r >= 0)
    post(ex, "the point reads back identically", eq(state_val(ex, q), pv))
    post(ex, "reading consumes what was written", state_val(ex, s).f["left"] == extra)


@P.proof("a cut off point", FILES)
def _(c):
    ex = start(c)
    q, qv = obj(ex, POINT, "point")
    s, sv = obj(ex, "std::fstream", "file")
    r = ex.val(call(ex, "InnerPointType::Deserialize", q, [ptr(ex, s)]))
    no_abort(ex, "reading a point")
    reach(ex, "a point is read")
    post(ex, "fewer bytes than a point are a failure", z3.Implies(sv.f["left"] < SIZE, r < 0))
    post(ex, "a closed file is a failure", z3.Implies(z3.Not(sv.f["open"]), r < 0))
    for m, cls in (("Serialize", "a point"), ("Deserialize", "a point")):
        ex2 = start(c)
        q, qv = obj(ex2, POINT, "point")
        r = ex2.val(call(ex2, "InnerPointType::" + m, q, [Ptr(z3.IntVal(0), "fstream")]))
        no_abort(ex2, m + " without a file")
        post(ex2, m + " without a file is a failure", r < 0)


def writer_cands(ex, info, root, pts, c0, p0):
    """Records written so far by a loop over the points."""
    j = ex.fresh(Int, "j")

    def head(st, i):
        v = ex.root_val(st, root)
        return z3.And(v.f["open"], v.f["good"], v.f["rec"] == c0 + 2 + i, v.f["pos"] == p0 + HEAD + SIZE * i)

    def body(st, i):
        v = ex.root_val(st, root)
        k = c0 + 2 + j
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.And(
            v.f["kind"][k] == 0, v.f["size"][k] == SIZE, eq(sel(v.f["data_InnerPointType"], k), sel(pts.el, j)))),
            patterns=leaves(sel(pts.el, j)))

    def first(st, i):
        a, b = ex.root_val(st, root), ex.root_val(info.S0, root)
        return z3.And(*[eq(x, y) for k in (c0, c0 + 1) for d in a.f if d in ("kind", "size") or d.startswith("data_")
                        for x, y in [(sel(a.f[d], k), sel(b.f[d], k))]])
    return [Cand("stream position", head), Cand("points written", body), Cand("heading stays", first)]


def reader_cands(ex, info, root, cloud, S):
    j = ex.fresh(Int, "j")

    def head(st, i):
        v = ex.root_val(st, root)
        return z3.And(v.f["open"], v.f["good"], v.f["rec"] == S.f["rec"] + 2 + i,
                      v.f["left"] == S.f["left"] - HEAD - SIZE * i, v.f["left"] >= 0)

    def body(st, i):
        pts = ex.root_val(st, cloud).f["points"]
        k = S.f["rec"] + 2 + j
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i, S.f["kind"][k] == 0, S.f["size"][k] == SIZE),
                                         eq(sel(pts.el, j), sel(S.f["data_InnerPointType"], k))),
                         patterns=[p for x in leaves(pts.el) for p in pats(x, j)])
    return [Cand("stream position", head), Cand("points read", body)]


@P.proof("a cloud is written", FILES)
def _(c):
    write_cloud(c)


def write_cloud(c):
    ex = start(c)
    a, av = obj(ex, CLOUD, "cloud")
    s, sv = obj(ex, "std::fstream", "file")
    pts = av.f["points"]
    ex.assume(z3.And(sv.f["open"], sv.f["good"]))
    c0, p0 = sv.f["rec"], sv.f["pos"]
    ex.extra_cands.append(lambda ex, info: writer_cands(ex, info, s.loc.root, pts, c0, p0))
    r = ex.val(call(ex, "InnerCloudType::Serialize", a, [ptr(ex, s)]))
    no_abort(ex, "writing a cloud")
    reach(ex, "a cloud is written")
    w = state_val(ex, s)
    j = ex.fresh(Int, "j")
    post(ex, "writing succeeds", r == 0)
    post(ex, "the cloud is unchanged", eq(state_val(ex, a), av))
    post(ex, "length of the file", w.f["pos"] == p0 + HEAD + SIZE * pts.n)
    post(ex, "time stamp first", z3.And(w.f["kind"][c0] == 1, w.f["size"][c0] == STAMP,
                                        eq(sel(w.f["data_SimpleTime"], c0), av.f["stamp"])))
    post(ex, "then the number of points", z3.And(w.f["kind"][c0 + 1] == 2, w.f["size"][c0 + 1] == 8,
                                                 w.f["data_unsigned long"][c0 + 1] == pts.n))
    k = c0 + 2 + j
    post(ex, "then the points in order", z3.Implies(z3.And(0 <= j, j < pts.n), z3.And(
        w.f["kind"][k] == 0, w.f["size"][k] == SIZE, eq(sel(w.f["data_InnerPointType"], k), sel(pts.el, j)))))


@P.proof("a written cloud is read back", FILES)
def _(c):
    ex = start(c)
    # the file as the previous unit leaves it for an arbitrary cloud
    a, av = obj(ex, CLOUD, "written")
    pts = av.f["points"]
    s, S = obj(ex, "std::fstream", "file")
    c0 = S.f["rec"]
    j = ex.fresh(Int, "j")
    k = c0 + 2 + j
    extra = ex.fresh(Int, "extra")
    ex.assume(z3.And(S.f["open"], S.f["good"], extra >= 0, S.f["left"] == HEAD + SIZE * pts.n + extra,
                     S.f["kind"][c0] == 1, S.f["size"][c0] == STAMP, eq(sel(S.f["data_SimpleTime"], c0), av.f["stamp"]),
                     S.f["kind"][c0 + 1] == 2, S.f["size"][c0 + 1] == 8, S.f["data_unsigned long"][c0 + 1] == pts.n))
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < pts.n), z3.And(
        S.f["kind"][k] == 0, S.f["size"][k] == SIZE, eq(sel(S.f["data_InnerPointType"], k), sel(pts.el, j)))),
        patterns=leaves(sel(pts.el, j))))
    b, bv = obj(ex, CLOUD, "read")
    ex.extra_cands.append(lambda ex, info: reader_cands(ex, info, s.loc.root, b.loc.root, S))
    r = ex.val(call(ex, "InnerCloudType::Deserialize", b, [ptr(ex, s)]))
    no_abort(ex, "reading a cloud")
    reach(ex, "a cloud is read")
    v = state_val(ex, b)
    m = ex.fresh(Int, "m")
    post(ex, "reading succeeds", r == 0)
    post(ex, "same time stamp", eq(v.f["stamp"], av.f["stamp"]))
    post(ex, "same number of points", v.f["points"].n == pts.n)
    for f in ("x", "y", "z", "intensity", "factor"):
        post(ex, "same points in order: " + f, z3.Implies(
            z3.And(0 <= m, m < pts.n), sel(v.f["points"].el, m).f[f] == sel(pts.el, m).f[f]))
    post(ex, "consumes exactly what was written", state_val(ex, s).f["left"] == extra)


@P.proof("a short file", FILES)
def _(c):
    ex = start(c)
    s, S = obj(ex, "std::fstream", "file")
    b, bv = obj(ex, CLOUD, "read")
    ex.extra_cands.append(lambda ex, info: reader_cands(ex, info, s.loc.root, b.loc.root, S))
    r = ex.val(call(ex, "InnerCloudType::Deserialize", b, [ptr(ex, s)]))
    no_abort(ex, "reading a cloud")
    reach(ex, "a cloud is read")
    n = state_val(ex, b).f["points"].n
    post(ex, "without the heading reading fails", z3.Implies(S.f["left"] < HEAD, r < 0))
    post(ex, "success needs all announced points", z3.Implies(r >= 0, S.f["left"] >= HEAD + SIZE * n))
    post(ex, "success means the announced number of points", z3.Implies(
        z3.And(r >= 0, S.f["kind"][S.f["rec"] + 1] == 2, S.f["size"][S.f["rec"] + 1] == 8),
        n == S.f["data_unsigned long"][S.f["rec"] + 1]))
    post(ex, "a closed file is a failure", z3.Implies(z3.Not(S.f["open"]), r < 0))
    for m in ("Serialize", "Deserialize"):
        ex2 = start(c)
        q, qv = obj(ex2, CLOUD, "cloud")
        r = ex2.val(call(ex2, "InnerCloudType::" + m, q, [Ptr(z3.IntVal(0), "fstream")]))
        no_abort(ex2, m + " without a file")
        post(ex2, m + " without a file is a failure", r < 0)


P.harness("C11.cc", ["builder/data/cloud_types.cc", "common/*.cc", "common/performance/*.cc"], libs=CLOUD_LIBS, time=3)
