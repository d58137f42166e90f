"""C15: octree subdivision hands each point to exactly one child cell."""
from vf.driver import Property
from vf.spec import *
from .C14 import inv, inside, BOX

P = Property("C15")
FILES = ("common/octree.cc", "common/bounding_box.cc")
P.assumptions.append("recursion: BuildTree's contract is assumed at its recursive calls (partial correctness); the "
                     "depth grows by one per call and is bounded by the limit, so the recursion ends")
P.assumptions.append("real arithmetic: cell geometry ignores rounding; a point within rounding of a cell border may "
                     "be dropped by the running code")


def octant(b, p):
    """Octant the cube assigns to a contained point (C14)."""
    c = b.f["center_"]
    x, y, z = [p.e[i] >= c.e[i] for i in range(3)]
    return z3.If(z3.And(x, y), 0, z3.If(y, 1, z3.If(z3.Not(x), 2, 3))) + z3.If(z, 0, 4)


@P.proof("one subdivision step", FILES)
def _(c):
    calls = []
    ex = c.exec()
    tree, tv = obj(ex, "static_map::common::Octree", "tree")
    box, bv = obj(ex, BOX, "cell")
    pts, pv = obj(ex, "std::vector<Eigen::Vector3d>", "points")
    depth = ex.sym("int", "depth")
    cfg = tv.f["config_"]
    maxd, cap = cfg.f["max_depth"], cfg.f["max_num_points_in_voxel"]
    ex.assume(z3.And(inv(bv), depth >= 0, depth <= maxd, cap >= 0, tv.f["max_depth_"] <= maxd, pv.n <= 2 ** 31 - 1))
    k = z3.Int("k!p")
    ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < pv.n), inside(bv, sel(pv.el, k))),
                        patterns=[sel(pv.el, k).e[0]]))
    sub = ex.val(call(ex, "CubeBoundingBox::GenerateSubBoxes", box))
    subs = [sel(sub.el, z3.IntVal(i)) for i in range(8)]
    folds = [index_fold(ex, "cell%d" % i, lambda m, i=i: octant(bv, sel(pv.el, m)) == i, lambda m: sel(pv.el, m))
             for i in range(8)]
    j = z3.Int("j!p")

    def allin(i, q):
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < q.n), inside(subs[i], sel(q.el, j))))

    # lemmas over the specification folds
    base = list(ex.st.pc)
    for i in range(8):
        P_ = lambda m, i=i: z3.And(folds[i].at(m).n >= 0, z3.Implies(m <= pv.n, allin(i, folds[i].at(m))))
        for nm, h, g in folds[i].induct("points given to child %d lie in its cell" % i, P_):
            lemma(ex, nm, base + h, g)
    m0 = ex.fresh(Int, "m")
    for f in folds:
        f.unfold(m0)
    tot = lambda m: z3.Sum([f.at(m).n for f in folds]) == m
    lemma(ex, "every point goes to exactly one child (base)", base, tot(z3.IntVal(0)))
    lemma(ex, "every point goes to exactly one child (step)", base + [m0 >= 0, tot(m0)], tot(m0 + 1))
    for i in range(8):
        ex.assume(z3.And(folds[i].at(pv.n).n >= 0, allin(i, folds[i].at(pv.n))))

    def cells(ex, info):
        out = []
        for pat in dict.fromkeys(x[0][:x[0].index(("*",))] if ("*",) in x[0] else x[0] for x, _, _ in info.hv):
            v = ex.value_at(info.S0, pat)
            if isinstance(v, Seq) and isinstance(v.el, Seq):
                for i in range(8):
                    out.append(Cand("child list %d == cell%d(it)" % (i, i), lambda st, it, i=i, pat=pat: eq(
                        sel(ex.value_at(st, pat).el, z3.IntVal(i)), folds[i].at(it))))
        return out
    ex.extra_cands.append(cells)

    def rec(ex, this, args, n):
        d, b, q = [ex.val(a) for a in args]
        ex.oblige("a recursive call goes one level deeper, within the limit", z3.And(d == depth + 1, d <= maxd))
        ex.oblige("a recursive call is for a proper cube", inv(b))
        t = ex.val(this)
        r = Ptr(ex.fresh(Int, "child"), "OctreeNode")
        ex.assume(r.t > 0)
        m = ex.fresh(Int, "max_depth")
        ex.assume(z3.And(m >= t.f["max_depth_"], m >= d, m <= maxd))
        ex.write(this, t.set("max_depth_", m))
        calls.append((r, b, q))
        return r
    ex.contracts["Octree::BuildTree"] = rec
    node = ex.val(call(ex, "Octree::BuildTree", tree, [depth, box, pts]))
    no_abort(ex, "BuildTree")
    reach(ex, "BuildTree returns")
    nv = ex.read(ex.deref(node))
    leaf = ex.num.to_bool(nv.f["is_leaf_"])
    post(ex, "the cell has the requested depth", nv.f["depth_"] == depth)
    post(ex, "the cell has the requested cube", eq(nv.f["bbox_"], bv))
    small = z3.Or(depth == maxd, pv.n <= cap)
    post(ex, "a cell is a leaf exactly when small enough or at the depth limit", leaf == small)
    post(ex, "a leaf holds exactly the points of its cell", z3.Implies(small, eq(nv.f["points_"], pv)))
    post(ex, "an inner cell holds no points itself", z3.Implies(z3.Not(small), nv.f["points_"].n == 0))
    ch = nv.f["children_"]
    post(ex, "an inner cell has eight children", z3.Implies(z3.Not(small), ch.n == 8))
    made = []
    for i in range(8):
        t = simplify_select(z3.Select(ch.el.t, z3.IntVal(i)))
        made.append([x for x in calls if any(k.eq(x[0].t) for k in consts(t))])
    if any(len(x) != 1 for x in made):
        raise Unsupported("recursive calls cannot be told apart")
    for i, ((r, b, q),) in enumerate(made):
        g = lambda x: z3.Implies(z3.Not(small), x)
        post(ex, "child %d is the cell of octant %d" % (i, i), g(z3.And(
            sel(ch.el, z3.IntVal(i)).t == r.t, eq(b, subs[i]))))
        post(ex, "child %d gets exactly the points of octant %d" % (i, i), g(eq(q, folds[i].at(pv.n))))
    tv2 = state_val(ex, tree)
    post(ex, "the reported depth covers this cell and stays within the limit",
         z3.And(tv2.f["max_depth_"] >= depth, tv2.f["max_depth_"] <= maxd, tv2.f["max_depth_"] >= tv.f["max_depth_"]))
    frame(ex, "the configuration is unchanged", tv, tv2, ("max_depth_",))
    post(ex, "the points given are unchanged", eq(state_val(ex, pts), pv))


P.harness("C15.cc", ["common/octree.cc", "common/bounding_box.cc"], libs=["-lglog"], time=4)
