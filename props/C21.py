"""C21: submap frames."""
from vf.driver import Property
from vf.loops import Cand
from vf.spec import *

P = Property("C21")
FILES = ("builder/submap.cc", "builder/frame.cc", "builder/frame_base.cc", "builder/data/cloud_types.cc")
NS = "static_map::"
P.assumptions.append("a pose is stored with its rotation part normalised (a function of the pose; the identity on proper "
                     "rotations: see C17)")
P.assumptions.append("a frame is inserted once; clouds of the frames are in memory when the submap becomes full")
P.assumptions.append("moving a cloud and appending a cloud: contracts proved in C12")
P.assumptions.append("voxel grid reduction and the multi-resolution map of a full submap: checked by the harness only / not at all")


def normalised(m):
    fs = [z3.Function("normrot_%d" % k, *([x.sort() for x in m.e] + [m.e[0].sort()])) for k in range(16)]
    return Mat(4, 4, [f(*m.e) for f in fs], m.sc)


def moved_cloud(pose, cloud):
    ls = list(pose.e) + leaves(cloud)
    fs = [z3.Function("moved_cloud_%d" % i, *([x.sort() for x in ls] + [l.sort()])) for i, l in enumerate(leaves(cloud))]
    return rebuild(cloud, [f(*ls) for f in fs])


def appended(a, b):
    """The points of a followed by those of b."""
    ls = leaves(a) + leaves(b)
    fs = [z3.Function("appended_%d" % i, *([x.sort() for x in ls] + [l.sort()])) for i, l in enumerate(leaves(a))]
    return rebuild(a, [f(*ls) for f in fs])


def setup(c):
    ex = c.exec(fp="uf")

    def nr(ex, this, args, n):
        ex.write(args[0], normalised(ex.val(args[0])))

    def at(ex, this, args, n):
        dst = ex.deref(ex.val(args[1]))
        m = moved_cloud(ex.val(args[0]), norm(ex.read(this)))
        ex.st.pc.append(m.f["points"].n >= 0)
        ex.write(dst, m)

    def app(ex, this, args, n):
        a = norm(ex.read(this))
        b = appended(a.f["points"], norm(ex.val(args[0])).f["points"])
        ex.st.pc.append(b.n >= 0)
        ex.write(this, a.set("points", b))
        return this
    ex.contracts["NormalizeRotation"] = nr
    ex.contracts["InnerCloudType::ApplyTransformToOutput"] = at
    ex.contracts["InnerCloudType::operator+="] = app

    def holder(ex, this, args, n):
        h = ex.read(this)
        p = ex.val(args[0])
        e = ex.fresh(Int, "eigen_cloud")
        ex.assume(e > 0)
        h = h.set("eigen_cloud_", Ptr(e, h.f["eigen_cloud_"].cls))
        ex.write(this, h.set("inner_cloud_", p).set("time_", ex.read(ex.deref(p)).f["stamp"]).set("is_cloud_in_memory_", z3.BoolVal(True)))
    ex.contracts["InnerPointCloudData::SetInnerCloudImpl"] = holder
    ex.contracts["InnerPointCloudData::CloudInMemory"] = lambda ex, this, args, n: z3.BoolVal(True)
    ex.contracts["EigenPointCloud::CalculateNormals"] = lambda ex, this, args, n: None
    this, v = obj(ex, NS + "Submap", "submap")
    ex.assume(v.f["frames_"].n >= 0)
    return ex, this, v


def heap(ex, st, cls, t):
    return sel(ex.root_val(st, "heap:" + cls).el, t)


@P.proof("Submap::InsertFrame", FILES)
def _(c):
    ex, this, v = setup(c)
    fr = v.f["frames_"]
    t = ex.fresh(Int, "frame")
    ex.assume(t > 0)
    k_ = z3.Int("k")
    fid = lambda k: leaves(sel(fr.el, k))[0]
    ex.assume(forall([k_], z3.Implies(z3.And(0 <= k_, k_ < fr.n), z3.And(fid(k_) > 0, fid(k_) != t)), fid(k_)))
    opt = v.f["options_"]
    for o in ("enable_inner_mrvm", "enable_voxel_filter", "enable_check"):
        opt = opt.set(o, z3.BoolVal(False))
    v = v.set("options_", opt)
    put(ex, this, v)
    f0 = heap(ex, ex.st, "Frame", t)
    one = ex.num.const(1.0, "double")
    zero = ex.num.const(0.0, "double")
    first = fr.n == 0
    ident = Mat(4, 4, [one if i % 5 == 0 else zero for i in range(16)], f0.f["global_pose_"].sc)
    rel = ex.mat_op("*", ex.mat_inverse(v.f["global_pose_"]), f0.f["global_pose_"], None)
    local = ite(first, normalised(ident), normalised(rel))

    # clouds of the frames, each in its local pose, joined in order
    H = ex.st.copy()

    def cloud_of(k):
        f = heap(ex, H, "Frame", z3.If(k == fr.n, t, fid(k)))
        d = heap(ex, H, "InnerPointCloudData", leaves(f.f["inner_cloud_"])[0])
        return leaves(d.f["inner_cloud_"])[0], leaves(f.f["inner_cloud_"])[0]

    def part(k):
        pose = ite(k == fr.n, local, heap(ex, H, "Frame", fid(k)).f["local_pose_"])
        return moved_cloud(pose, norm(heap(ex, H, "InnerCloudType", cloud_of(k)[0])))
    A = ex.fresh(Int, "alloc")          # the next free address
    ex.st.roots["alloc"] = A
    old = lambda k: z3.And(*[z3.And(x > 0, x < A) for x in cloud_of(k)])
    ex.assume(forall([k_], z3.Implies(z3.And(0 <= k_, k_ <= fr.n), old(k_)), fid(k_)))
    ex.assume(z3.And(A > 0, old(fr.n)))
    joined = Fold(ex, "joined", ex.zero(NS + "data::InnerCloudType").f["points"],
                  lambda s, k: appended(s, part(k).f["points"]))
    ex.folds.append(joined)

    def cands(ex, info):
        res = []
        for r, r0 in info.S0.roots.items():
            if isinstance(r0, Struct) and "points" in r0.f and "stamp" in r0.f:
                res.append(Cand("joined so far", lambda st, i, r=r: eq(ex.root_val(st, r).f["points"], joined.at(i))))
        return res
    ex.extra_cands.append(cands)
    K = ex.fresh(Int, "K")
    k0 = heap(ex, ex.st, "Frame", K)
    call(ex, "Submap::InsertFrame", this, [Ptr(t, "Frame")])
    aborts_iff(ex, "frames are refused exactly when the submap is full", v.f["full_"])
    w = state_val(ex, this)
    reach(ex, "inserting", z3.Not(w.f["full_"]))
    reach(ex, "filling", w.f["full_"])
    f1 = heap(ex, ex.st, "Frame", t)
    post(ex, "a full submap refuses frames", z3.Not(v.f["full_"]))
    post(ex, "frames are numbered from zero", f1.f["id_"].f["frame_index"] == fr.n)
    post(ex, "frames carry the submap's identifiers", z3.And(
        f1.f["id_"].f["submap_index"] == v.f["id_"].f["submap_index"],
        f1.f["id_"].f["trajectory_index"] == v.f["id_"].f["trajectory_index"]))
    n = w.f["frames_"]
    J = ex.fresh(Int, "J")
    post(ex, "the frame is appended", z3.And(n.n == fr.n + 1, leaves(sel(n.el, fr.n))[0] == t))
    post(ex, "earlier frames stay", z3.Implies(z3.And(0 <= J, J < fr.n), leaves(sel(n.el, J))[0] == fid(J)))
    post(ex, "the submap takes its pose from the first frame only",
         eq(w.f["global_pose_"], ite(first, f0.f["global_pose_"], v.f["global_pose_"])))
    post(ex, "the submap takes its time stamp from the first frame only",
         eq(w.f["stamp_"], ite(first, f0.f["stamp_"], v.f["stamp_"])))
    post(ex, "the local pose is the pose relative to the submap",
         eq(f1.f["local_pose_"], local))
    post(ex, "full exactly when the count is reached",
         w.f["full_"] == z3.Or(v.f["full_"], fr.n + 1 == v.f["options_"].f["frame_count"]))
    full = w.f["full_"]
    post(ex, "a submap not yet full has no new cloud", z3.Implies(z3.Not(full), eq(w.f["inner_cloud_"], v.f["inner_cloud_"])))
    S1 = ex.st
    ex.st = ex.st.copy()
    ex.st.pc.append(full)
    cl = norm(ex.read(ex.deref(norm(ex.read(ex.deref(w.f["inner_cloud_"]))).f["inner_cloud_"])))
    post(ex, "the cloud of a full submap is its frames' clouds in local poses joined in order",
         eq(cl.f["points"], joined.at(fr.n + 1)))
    post(ex, "the cloud carries the first frame's time stamp",
         eq(cl.f["stamp"], heap(ex, H, "InnerCloudType", cloud_of(z3.IntVal(0))[0]).f["stamp"]))
    ex.st = S1
    frame(ex, "the rest of the frame stays", f0, f1, ("id_", "local_pose_"))
    post(ex, "other frames stay", z3.Implies(K != t, eq(heap(ex, ex.st, "Frame", K), k0)))
    frame(ex, "the rest of the submap stays", v, w, ("frames_", "full_", "global_pose_", "stamp_", "inner_cloud_"))


@P.proof("Submap::UpdateInnerFramePose", FILES)
def _(c):
    ex, this, v = setup(c)
    fr = v.f["frames_"]
    j = z3.Int("j")
    fid = lambda k: leaves(sel(fr.el, k))[0]
    ex.assume(forall([j], z3.Implies(z3.And(0 <= j, j < fr.n), fid(j) > 0), fid(j)))
    H = ex.st.copy()
    G = v.f["global_pose_"]
    want = lambda t: normalised(ex.mat_op("*", G, heap(ex, H, "Frame", t).f["local_pose_"], None))
    K = ex.fresh(Int, "K")
    ex.root_val(ex.st, "heap:Frame")

    def cands(ex, info):
        at = lambda st, t: heap(ex, st, "Frame", t)
        return [Cand("poses so far", lambda st, i: forall([j], z3.Implies(
                    z3.And(0 <= j, j < i), eq(at(st, fid(j)).f["global_pose_"], want(fid(j)))), fid(j))),
                Cand("a frame not met keeps its pose", lambda st, i: z3.Or(
                    eq(at(st, K).f["global_pose_"], heap(ex, H, "Frame", K).f["global_pose_"]),
                    z3.Exists([j], z3.And(0 <= j, j < i, fid(j) == K))))]
    ex.extra_cands.append(cands)
    call(ex, "Submap::UpdateInnerFramePose", this, [])
    no_abort(ex, "updating")
    reach(ex, "updating")
    J = ex.fresh(Int, "J")
    inlist = z3.And(0 <= J, J < fr.n)
    post(ex, "every frame's global pose is the submap's pose composed with its local pose",
         z3.Implies(inlist, eq(heap(ex, ex.st, "Frame", fid(J)).f["global_pose_"], want(fid(J)))))
    k0, k1 = heap(ex, H, "Frame", K), heap(ex, ex.st, "Frame", K)
    frame(ex, "nothing but global poses changes", k0, k1, ("global_pose_",))
    post(ex, "frames of other submaps keep their pose", z3.Implies(
        forall([j], z3.Implies(z3.And(0 <= j, j < fr.n), fid(j) != K), fid(j)), eq(k0.f["global_pose_"], k1.f["global_pose_"])))
    frame(ex, "the submap stays", v, state_val(ex, this))


@P.proof("Submap::GetFrame", FILES)
def _(c):
    ex, this, v = setup(c)
    fr = v.f["frames_"]
    i, iv = obj(ex, NS + "FrameId", "id")
    ex.assume(iv.f["frame_index"] >= 0)
    r = ex.val(call(ex, "Submap::GetFrame", this, [i]))
    no_abort(ex, "looking up a frame")
    mine = z3.And(iv.f["submap_index"] == v.f["id_"].f["submap_index"],
                  iv.f["trajectory_index"] == v.f["id_"].f["trajectory_index"], iv.f["frame_index"] < fr.n)
    post(ex, "the frame with this number, or none", r.t == z3.If(mine, leaves(sel(fr.el, iv.f["frame_index"]))[0], 0))
    frame(ex, "the submap stays", v, state_val(ex, this))


@P.proof("Submap::Submap", FILES)
def _(c):
    ex = c.exec(fp="uf")
    o, ov = obj(ex, NS + "SubmapOptions", "options")
    this, v = make(ex, NS + "Submap", [o])
    post(ex, "a new submap is empty and not full", z3.And(v.f["frames_"].n == 0, z3.Not(v.f["full_"])))
    post(ex, "a new submap has the given options", eq(v.f["options_"], ov))


P.harness("C21.cc", ["builder/submap.cc", "builder/frame.cc", "builder/frame_base.cc", "builder/data/cloud_types.cc",
                     "builder/multi_resolution_voxel_map.cc", "pre_processors/*.cc", "common/*.cc", "common/performance/*.cc",
                     "descriptor/m2dp.cc", "third_parties/pugixml/pugixml.cc"], time=4)
