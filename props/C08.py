"""C08: voxel-grid filter."""
from vf.driver import Property
from vf.loops import Cand
from vf.spec import *
from props.filters import NS, CLOUD

P = Property("C08")
FILES = ("pre_processors/filter_voxel_grid.cc", "pre_processors/filter_interface.cc")
P.assumptions.append("real arithmetic; lround rounds to the nearest integer, halves away from zero; voxel numbers fit an int")
P.assumptions.append("std::unordered_map keeps one entry for each key (the hash of integer vectors is a function of the vector: not under contract)")
COMP = ("x", "y", "z", "intensity")


def setup(c, null=None):
    ex = c.exec()
    ex.num.opaque_div = True
    this, v = obj(ex, NS + "VoxelGrid", "filter")
    inp, iv = obj(ex, CLOUD, "in")
    out, ov = obj(ex, CLOUD, "out")
    pin, pout = ptr(ex, inp), ptr(ex, out)
    if null == "in":
        pin = Ptr(z3.IntVal(0), "InnerCloudType")
    if null == "out":
        pout = Ptr(z3.IntVal(0), "InnerCloudType")
    v = v.set("inner_cloud_", pin)
    put(ex, this, v)
    return ex, this, v, inp, iv, out, ov, pout


def point_lists(ex, st, moving, written):
    """Lists of points a loop may run over: under a moving iterator, or named by
    a variable in scope, and not written."""
    locs = [r.loc for n, r in st.roots.items() if isinstance(r, Iter) and r.en is None and r.key is None and n in moving]
    f = ex.frame
    while f is not None:
        locs += [r.loc for r in f.vars.values() if isinstance(r, Ref)]
        f = f.parent
    res = []
    for loc in locs:
        if loc.root in written or loc.root not in st.roots:
            continue
        s = ex.nav(ex.root_val(st, loc.root), loc.path)
        if isinstance(s, Seq) and isinstance(s.el, Struct) and set(COMP) <= set(s.el.f) and not any(
                eq_trees(s, r) for r in res):
            res.append(s)
    return res


def eq_trees(a, b):
    return all(x.get_id() == y.get_id() for x, y in zip(leaves(a), leaves(b)))


@P.proof("VoxelGrid::Filter", FILES)
def _(c):
    ex, this, v, inp, iv, out, ov, pout = setup(c)
    size = v.f["voxel_size_"]
    ex.assume(size > z3.RealVal("1/1000000"))
    src = iv.f["points"]
    K = [ex.fresh(Int, "k%d" % i) for i in range(3)]         # an arbitrary voxel
    num = lambda k, a: ex.num.fn("lround", ex.num.div(sel(src.el, k).f[a], size))
    keep = lambda k: z3.And(*[num(k, a) == q for a, q in zip("xyz", K)])
    G = [z3.Int("g%d" % i) for i in range(3)]
    lim = 2 ** 31
    t = z3.Int("t")
    for a in "xyz":
        ex.assume(forall([t], z3.And(num(t, a) >= -lim, num(t, a) < lim), sel(src.el, t).f[a]))
    members = index_fold(ex, "members", keep, lambda k: sel(src.el, k))
    empty = members.init
    A = z3.ArraySort(Int, Real)
    vsum = z3.Function("list_sum", A, Int, Real)

    def unfold(a, i):
        ex.axioms.append(vsum(a, z3.IntVal(0)) == 0)
        ex.axioms.append(z3.Implies(i >= 0, vsum(a, z3.simplify(i + 1)) == vsum(a, i) + z3.Select(a, i)))
    mean = lambda f, comp: ex.num.div(vsum(f.el.f[comp], f.n), z3.ToReal(f.n))
    N = src.n

    def cands(ex, info):
        res = []
        moving = {k[0][0] for k in info.ind}
        written = {k[0][0] for k, _, _ in info.hv}
        for root, r0 in info.S0.roots.items():
            if isinstance(r0, Map) and len(r0.ksorts) == 3 and isinstance(r0.el, Seq) and root in written:
                def own(st, i, root=root):
                    p, s = sel_map(ex.root_val(st, root), K)
                    m = members.at(i)
                    return z3.And(p == (m.n > 0), eq(m, ite(p, s, empty)))
                res.append(Cand("members of the voxel so far", own))

                def filled(st, i, root=root):
                    p, s = sel_map(ex.root_val(st, root), G)
                    return forall(G, z3.Implies(p, s.n > 0), p)
                res.append(Cand("no voxel without points", filled))
        lists = point_lists(ex, info.S0, moving, written)
        for key, _, nl in info.hv if lists else ():
            if key[0][0] == out.loc.root:
                continue
            if nl.sort() == Real:
                at = [("", lambda st, key=key: ex.leaf_at(st, key))]
            elif nl.sort() == A:
                at = [("[%d]" % j, lambda st, key=key, j=j: z3.Select(ex.leaf_at(st, key), j)) for j in range(4)]
            else:
                continue
            for s in lists:
                for comp in COMP:
                    a = s.el.f[comp]
                    unfold(a, info.it)
                    for nm, get in at:
                        res.append(Cand("%s%s is the sum of %s" % (key[0][0].split("!")[0], nm, comp),
                                        lambda st, i, get=get, a=a: get(st) == vsum(a, i)))
        for loc, en in getattr(ex, "enums", ()) if out.loc.root in written else ():
            J = en.pos(K)

            def done(st, i, en=en, J=J):
                o = ex.root_val(st, out.loc.root).f["points"]
                m = members.at(N)
                p = sel(o.el, J)
                return z3.And(o.n == i, z3.Implies(z3.And(m.n > 0, J < i), z3.And(*[p.f[k] == mean(m, k) for k in COMP])))
            res.append(Cand("voxels written so far", done))
        return res
    ex.extra_cands.append(cands)
    ex.cand_filter = lambda nm: nm.startswith("loop bound")
    call(ex, "VoxelGrid::Filter", this, [pout])
    no_abort(ex, "filtering")
    reach(ex, "filtering")
    if len(getattr(ex, "enums", ())) != 1:
        raise Unsupported("voxels are not enumerated once")
    en = ex.enums[0][1]
    J, o, m = en.pos(K), state_val(ex, out), members.at(N)
    Q = o.f["points"]
    post(ex, "an occupied voxel has an output point", z3.Implies(m.n > 0, z3.And(0 <= J, J < Q.n)))
    post(ex, "the point belongs to that voxel alone", z3.Implies(m.n > 0, z3.And(*[a == b for a, b in zip(en.key(J), K)])))
    for k in COMP:
        post(ex, "its %s is the mean over the voxel's points" % k, z3.Implies(m.n > 0, sel(Q.el, J).f[k] == mean(m, k)))
    j = ex.fresh(Int, "j")
    post(ex, "every output point stands for an occupied voxel", z3.Implies(
        z3.And(0 <= j, j < Q.n, *[a == b for a, b in zip(en.key(j), K)]), z3.And(m.n > 0, J == j)))
    post(ex, "output carries the input's time stamp", eq(o.f["stamp"], iv.f["stamp"]))
    post(ex, "the input is unchanged", eq(state_val(ex, inp), iv))
    frame(ex, "the configuration is unchanged", v, state_val(ex, this), ("inliers_", "outliers_"))


@P.proof("VoxelGrid::Filter without input or output", FILES)
def _(c):
    for null in ("in", "out"):
        ex, this, v, inp, iv, out, ov, pout = setup(c, null)
        call(ex, "VoxelGrid::Filter", this, [pout])
        no_abort(ex, "without " + null)
        frame(ex, "without %sput nothing of the filter changes" % null, v, state_val(ex, this))
        post(ex, "without %sput the output stays" % null, eq(state_val(ex, out), ov))


from props.filters import NATIVE  # noqa: E402
P.harness("C08.cc", NATIVE, time=4)
