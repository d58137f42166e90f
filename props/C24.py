"""C24: occupancy odds of the voxel map."""
from vf.driver import Property
from vf.spec import *
from vf.types import msel

P = Property("C24")
FILES = ("builder/multi_resolution_voxel_map.cc",)
CLS = "static_map::MultiResolutionVoxelMap"
P.assumptions.append("real arithmetic; exp and log are strictly increasing and inverse to each other, log 1 = 0")
P.assumptions.append("the parallel loop over the points is taken as running its iterations one after another")
P.assumptions.append("weights are clamped and the table is filled (established by initialisation, proved here)")
R = lambda x: z3.RealVal(x)
L = z3.Function("prob_to_odd", Real, Real)
E = z3.Function("odd_to_prob", Real, Real)


def ax(ex, xs):
    """log/exp facts for the given arguments of log."""
    lg, xp = lambda x: ex.num.fn("log", x), lambda x: ex.num.fn("exp", x)
    for x in xs:
        ex.assume(z3.Implies(x > 0, xp(lg(x)) == x))
        for y in xs:
            if x is not y:
                ex.assume(z3.Implies(z3.And(x > 0, x < y), lg(x) < lg(y)))
    ex.assume(lg(R(1)) == 0)


@P.proof("conversion", FILES)
def _(c):
    ex = c.exec()
    m, mv = obj(ex, CLS, "m")
    p, q = ex.fresh(Real, "p"), ex.fresh(Real, "q")
    ex.assume(z3.And(0 < p, p < q, q < 1))
    odd = lambda x: ex.val(call(ex, "MultiResolutionVoxelMap::ProbabilityToOdd", m, [x]))
    pr = lambda x: ex.val(call(ex, "MultiResolutionVoxelMap::OddToProbability", m, [x]))
    a, b, h = odd(p), odd(q), odd(R("1/2"))
    args = [t.arg(0) for t in (a, b, h) if z3.is_app(t) and t.num_args() == 1]
    if len(args) != 3:
        raise Unsupported("odds are not a logarithm")
    ax(ex, args + [R(1)])
    post(ex, "odds grow with the probability", a < b)
    post(ex, "even odds are zero", h == 0)
    post(ex, "converting there and back", pr(a) == p)
    x, y = ex.fresh(Real, "x"), ex.fresh(Real, "y")
    u, v = pr(x), pr(y)
    xp = lambda x: ex.num.fn("exp", x)
    ex.assume(z3.And(xp(x) > 0, xp(y) > 0, z3.Implies(x < y, xp(x) < xp(y))))
    post(ex, "the probability grows with the odds", z3.Implies(x < y, u < v))
    no_abort(ex, "conversion")
    reach(ex, "conversion")


def conversions(ex, facts=True):
    """The two conversions by their contract, proved in unit 'conversion'."""
    if facts:
        conversion_facts(ex)
    ex.contracts["MultiResolutionVoxelMap::ProbabilityToOdd"] = lambda ex, this, args, n: L(ex.val(args[0]))
    ex.contracts["MultiResolutionVoxelMap::OddToProbability"] = lambda ex, this, args, n: E(ex.val(args[0]))


def conversion_facts(ex):
    p, q = z3.Reals("cp cq")
    ex.assume(z3.ForAll([p, q], z3.Implies(z3.And(0 < p, p < q, q < 1), L(p) < L(q)), patterns=[z3.MultiPattern(L(p), L(q))]))
    ex.assume(z3.ForAll([p], z3.Implies(z3.And(0 < p, p < 1), E(L(p)) == p), patterns=[L(p)]))
    ex.assume(z3.ForAll([p, q], z3.Implies(p < q, E(p) < E(q)), patterns=[z3.MultiPattern(E(p), E(q))]))
    ex.assume(L(R("1/2")) == 0)


@P.proof("weights", FILES)
def _(c):
    ex = c.exec()
    m, mv = obj(ex, CLS, "m")
    s, sv = obj(ex, "static_map::MrvmSettings", "settings")
    call(ex, "MultiResolutionVoxelMap::Initialise", m, [s])
    aborts_iff(ex, "no points allowed per cell", sv.f["max_point_num_in_cell"] <= 0)
    reach(ex, "initialise")
    t = state_val(ex, m).f["settings_"]
    cl = lambda x, a, b: z3.If(x < a, a, z3.If(x > b, b, x))
    f = lambda x: ex.num.const(x, "float")
    near = lambda a, b: z3.And(a - b < R("1/1000000"), b - a < R("1/1000000"))
    for nm, lo, hi in (("hit_prob", "0.501", "0.9"), ("miss_prob", "0.1", "0.499")):
        x, y = sv.f[nm], t.f[nm]
        post(ex, nm + " clamped", near(y, cl(x, R(lo), R(hi))))
        post(ex, nm + " inside the limits is kept", z3.Implies(z3.And(x >= R(lo) + R("1/1000000"), x <= R(hi) - R("1/1000000")), x == y))
    frame(ex, "other settings as given", sv, t, except_=("hit_prob", "miss_prob"))
    frame(ex, "the cells are untouched", mv, state_val(ex, m), except_=("settings_",))


@P.proof("table", FILES)
def _(c):
    ex = c.exec()
    conversions(ex, False)
    j = ex.fresh(Int, "j")

    def cands(ex, info):
        out = []
        for root, v in list(info.S0.roots.items()):
            if isinstance(v, Struct) and v.cls == "MultiResolutionVoxelMap":
                out.append(Cand("table filled so far", lambda st, i, root=root: z3.Implies(
                    z3.And(1 <= j, j < i), sel(ex.root_val(st, root).f["odds_table_"].el, j) == L(z3.ToReal(j) / 256))))
        return out
    ex.extra_cands.append(cands)
    m, v = make(ex, "MultiResolutionVoxelMap")
    no_abort(ex, "construction")
    reach(ex, "construction")
    post(ex, "table holds the odds", z3.Implies(z3.And(1 <= j, j < 256), sel(v.f["odds_table_"].el, j) == L(z3.ToReal(j) / 256)))
    post(ex, "no cells", v.f["high_resolution_voxels_"].size == 0)


LO, HI = 25, 230         # limits of the stored byte


@P.proof("insertion", FILES)
def _(c):
    ex = c.exec()
    ex.serial_parallel = True
    conversions(ex)
    m, mv = obj(ex, CLS, "m")
    cloud, cv = obj(ex, "static_map::data::InnerCloudType", "cloud")
    o, ov = obj(ex, "Eigen::Vector3f", "origin")
    st = mv.f["settings_"]
    ex.assume(z3.And(st.f["hit_prob"] > R("1/2"), st.f["hit_prob"] < 1, st.f["miss_prob"] > 0,
                     st.f["miss_prob"] < R("1/2"), st.f["max_point_num_in_cell"] > 0))
    t = z3.Int("t")
    ex.assume(z3.ForAll([t], z3.Implies(z3.And(1 <= t, t < 256), sel(mv.f["odds_table_"].el, t) == L(z3.ToReal(t) / 256)),
                        patterns=[sel(mv.f["odds_table_"].el, t)]))
    # an arbitrary cell, and an arbitrary other one
    K = [ex.fresh(Int, "k%d" % i) for i in range(3)]
    at = lambda v: sel_map(v.f["high_resolution_voxels_"], K)
    pres0, cell0 = at(mv)
    p0 = z3.If(pres0, cell0.f["probability"], z3.IntVal(128))
    ok = lambda p: z3.And(LO <= p, p <= HI)
    # every cell starts within the limits
    G = [z3.Int("g%d" % i) for i in range(3)]
    gp, gc = sel_map(mv.f["high_resolution_voxels_"], G)
    ex.assume(z3.ForAll(G, z3.Implies(gp, ok(gc.f["probability"])), patterns=[gp]))
    # the ray as a function of its arguments
    sorts = [Real] * 7
    rlen = z3.Function("ray_len", *(sorts + [Int]))
    rel = [z3.Function("ray_%d" % i, *(sorts + [z3.ArraySort(Int, Int)])) for i in range(3)]

    def ray(ex, this, args, n):
        a = [l for x in args for l in leaves(norm(ex.val(x)))]
        if len(a) != 7:
            raise Unsupported("arguments of the voxel ray")
        ex.assumed.add("VoxelCastingBresenham: a non-empty list, a function of its arguments (contract, C16)")
        ex.st.pc.append(rlen(*a) >= 1)
        return Seq("vector", rlen(*a), Mat(3, 1, [f(*a) for f in rel], "int"))
    ex.contracts["VoxelCastingBresenham"] = ray
    pts = cv.f["points"]
    oo = [ov.e[0], ov.e[1], ov.e[2] + st.f["z_offset"]]

    def rayof(i):
        p = sel(pts.el, i)
        a = oo + [p.f[k] for k in "xyz"] + [st.f["high_resolution"]]
        return rlen(*a), lambda j: z3.And(*[z3.Select(f(*a), j) == k for f, k in zip(rel, K)])
    i, j = z3.Ints("ri rj")
    n_, hit = rayof(i)
    inside = z3.And(0 <= i, i < pts.n)
    crossed = z3.Exists([i, j], z3.And(inside, 0 <= j, j < n_ - 1, hit(j)))
    ended = z3.Exists([i], z3.And(inside, hit(n_ - 1)))
    nocross, noend = ex.fresh(Bool, "nocross"), ex.fresh(Bool, "noend")
    ex.assume(z3.Implies(nocross, z3.Not(crossed)))
    ex.assume(z3.Implies(noend, z3.Not(ended)))
    # a beam passes through the cell: the cj-th voxel of the ci-th ray
    passed, ci, cj = ex.fresh(Bool, "passed"), ex.fresh(Int, "ci"), ex.fresh(Int, "cj")
    nc, hitc = rayof(ci)
    ex.assume(z3.Implies(passed, z3.And(0 <= ci, ci < pts.n, 0 <= cj, cj < nc - 1, hitc(cj))))
    # between scans every cell takes part in updates

    def takes(cell):
        x = leaves(cell.f["need_update"])[0]
        return x if x.sort() == Bool else x == 1
    ex.assume(z3.ForAll(G, z3.Implies(gp, takes(gc)), patterns=[gp]))

    def cands(ex, info):
        out = []

        def cell(st):
            v = ex.root_val(st, m.loc.root)
            pr, c = at(v)
            return pr, c.f["probability"], v

        def all_ok(st, i):
            g, cc = sel_map(ex.root_val(st, m.loc.root).f["high_resolution_voxels_"], G)
            return forall(G, z3.Implies(g, ok(cc.f["probability"])), g)
        out.append(Cand("every cell within the limits", all_ok))
        out.append(Cand("cells stay", lambda st, i: z3.Implies(pres0, cell(st)[0])))
        out.append(Cand("not crossed, not lowered", lambda st, i: z3.Implies(z3.And(nocross, cell(st)[0]), cell(st)[1] >= p0)))
        out.append(Cand("no end, not raised", lambda st, i: z3.Implies(noend, z3.And(cell(st)[0] == pres0, z3.Implies(pres0, cell(st)[1] <= p0)))))

        def lower(st):
            return z3.Or(cell(st)[1] < p0, cell(st)[1] <= LO)

        def part(st):
            pr, c = at(ex.root_val(st, m.loc.root))
            return pr, takes(c)
        seen = z3.And(noend, pres0)
        out.append(Cand("lowered stays lowered", lambda st, i: z3.Implies(z3.And(seen, lower(info.S0)), lower(st))))
        out.append(Cand("passed, lowered", lambda st, i: z3.Implies(z3.And(seen, passed, i > ci), lower(st))))
        out.append(Cand("takes part", lambda st, i: z3.Implies(seen, part(st)[1])))
        for root, v0 in info.S0.roots.items():
            if isinstance(v0, Seq) and isinstance(v0.el, Mat) and len(v0.el.e) == 3:
                out.append(Cand("passed on this ray, lowered", lambda st, i, root=root: z3.Implies(
                    z3.And(seen, 0 <= cj, cj < i, *[z3.Select(e, cj) == k for e, k in zip(ex.root_val(st, root).el.e, K)]),
                    lower(st))))
                out.append(Cand("the end of this ray is left alone", lambda st, i, root=root: (lambda l: z3.Implies(
                    z3.And(l.n >= 1, *[z3.Select(e, l.n - 1) == k for e, k in zip(l.el.e, K)]),
                    z3.Not(part(st)[1])))(ex.root_val(st, root))))
            if isinstance(v0, Map) and len(v0.ksorts) == 3:       # the cells rays ended in
                out.append(Cand("takes part unless an end", lambda st, i, root=root: z3.Implies(
                    part(st)[0], z3.Or(part(st)[1], sel_map(ex.root_val(st, root), K)[0]))))
                out.append(Cand("not collected as an end", lambda st, i, root=root: z3.Implies(
                    noend, z3.Not(sel_map(ex.root_val(st, root), K)[0]))))
        for loc, en in getattr(ex, "enums", []):
            out.append(Cand("takes part unless still to come", lambda st, i, en=en: z3.Implies(
                part(st)[0], z3.Or(part(st)[1], z3.And(msel(en.pres, K), en.pos(K) >= i)))))
        return out
    ex.extra_cands.append(cands)
    ex.cand_filter = lambda nm: nm.startswith(("loop bound", "map ", "frame ")) or nm == "unchanged m.high_resolution_voxels_#1"
    call(ex, "MultiResolutionVoxelMap::InsertPointCloud", m, [ptr(ex, cloud), o])
    reach(ex, "insertion")
    v = state_val(ex, m)
    pres1, cell1 = at(v)
    post(ex, "occupancy stays within the limits", z3.Implies(pres1, ok(cell1.f["probability"])))
    post(ex, "hits never lower a cell", z3.Implies(z3.And(nocross, pres1), cell1.f["probability"] >= p0))
    post(ex, "misses never raise a cell", z3.Implies(z3.And(noend, pres0), cell1.f["probability"] <= p0))
    post(ex, "misses lower a cell down to the limit", z3.Implies(
        z3.And(noend, passed, pres0), z3.Or(cell1.f["probability"] < p0, cell1.f["probability"] <= LO)))
    post(ex, "every cell takes part in the next update", z3.Implies(pres1, takes(cell1)))
    post(ex, "rays passing through create no cell", z3.Implies(noend, pres1 == pres0))
    frame(ex, "settings and table unchanged", mv, v, except_=("high_resolution_voxels_",))
    post(ex, "the inserted cloud is unchanged", eq(state_val(ex, cloud).f["points"].n, pts.n))


P.harness("C24.cc", ["builder/multi_resolution_voxel_map.cc", "builder/data/cloud_types.cc", "common/*.cc",
                     "common/performance/*.cc"], time=4)
