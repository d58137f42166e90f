"""C30: a cloud released from memory comes back from its file."""
from vf.driver import Property
from vf.loops import Cand
from vf.spec import *
from vf.stream import IN, OUT, APP

P = Property("C30")
FILES = ("builder/data/cloud_types.cc",)
USERS = ("builder/submap.cc", "builder/frame.cc", "builder/frame_base.cc")
NS = "static_map::"
HOLDER = NS + "data::InnerPointCloudData"
CL, EC = "InnerCloudType", "EigenPointCloud"
P.assumptions.append("writing a cloud to a file and reading it back: contracts proved in C11")
P.assumptions.append("matrix form of a cloud: a function of its points (C13)")
P.assumptions.append("nobody else changes the file meanwhile")
P.assumptions.append("sequential use of one cloud (its lock is not modelled here)")


def heap(ex, st, cls, t):
    return norm(sel(ex.root_val(st, "heap:" + cls).el, t))


class Files:
    """name -> (complete, content of a cloud)"""
    def __init__(self, ex):
        self.ex = ex
        self.proto = norm(ex.sym(NS + "data::" + CL, "proto"))
        ex.st.roots["ghost:complete"] = ex.fresh(z3.ArraySort(Str, Bool), "complete")
        ex.st.roots["ghost:exists"] = ex.fresh(z3.ArraySort(Str, Bool), "exists")
        for i, l in enumerate(leaves(self.proto)):
            ex.st.roots["ghost:file%d" % i] = ex.fresh(z3.ArraySort(Str, l.sort()), "file")

    def get(self, name, st=None):
        R = lambda n: self.ex.root_val(st or self.ex.st, "ghost:" + n)
        return R("complete")[name], rebuild(self.proto, [R("file%d" % i)[name] for i in range(len(leaves(self.proto)))])

    def write(self, root, name, x):
        r = "ghost:" + root
        self.ex.write_loc(Loc(r), z3.Store(self.ex.root_val(self.ex.st, r), name, x))

    def opened(self, name, mode):
        ex = self.ex
        if mode & OUT:
            ok = ex.fresh(Bool, "writable")
            ex.writable = ok
            keep = mode & (IN | APP)
            self.write("complete", name, z3.If(z3.And(ok, z3.BoolVal(not keep)), False, self.get(name)[0]))
            self.write("exists", name, z3.Or(ok, ex.root_val(ex.st, "ghost:exists")[name]))
            return ok
        return ex.root_val(ex.st, "ghost:exists")[name]

    def same(self, a, b, but=None):
        k = self.ex.fresh(Str, "other")
        ca, va = self.get(k, a)
        cb, vb = self.get(k, b)
        return z3.Implies(k != but if but is not None else z3.BoolVal(True), z3.And(ca == cb, eq(va, vb)))


def setup(c, files=FILES):
    ex = c.exec(fp="uf")
    ex.types.stream_types = "files"
    fs = Files(ex)
    ex.on_open = fs.opened

    def put_file(ex, t_, args, n):
        s = ex.read(ex.deref(ex.val(args[0])))
        plain = s.f["mode"].as_long() & (OUT | IN | APP) == OUT
        ok = z3.And(s.f["open"], z3.BoolVal(plain))
        nm = s.f["name"]
        v = norm(ex.read(t_))
        for i, l in enumerate(leaves(v)):
            fs.write("file%d" % i, nm, z3.If(ok, l, leaves(fs.get(nm)[1])[i]))
        fs.write("complete", nm, z3.If(ok, True, fs.get(nm)[0]))
        r = ex.fresh(Int, "result")
        ex.st.pc.append(z3.Implies(s.f["open"], r == 0))
        return r

    def get_file(ex, t_, args, n):
        s = ex.read(ex.deref(ex.val(args[0])))
        can = z3.BoolVal(bool(s.f["mode"].as_long() & IN))
        full, v = fs.get(s.f["name"])
        ok = z3.And(s.f["open"], can, full)
        junk = norm(ex.sym(NS + "data::" + CL, "partial"))
        ex.st.pc.append(z3.And(v.f["points"].n >= 0, junk.f["points"].n >= 0))
        ex.write(t_, ite(ok, v, junk))
        r = ex.fresh(Int, "result")
        ex.st.pc.append(z3.If(ok, r == 0, r < 0))
        return r
    ex.contracts[CL + "::Serialize"] = put_file
    ex.contracts[CL + "::Deserialize"] = get_file

    def from_points(ex, t_, args, n):
        pts = norm(ex.val(args[0]))
        empty = pts.n == 0
        ex.st.pc.append(z3.Not(empty)) if ex.valid(z3.Not(empty)) else abort_if(ex, empty)
        ex.write(t_, matrix_form(ex, norm(ex.read(t_)), pts))
    ex.contracts[EC + "::FromPointCloud"] = from_points
    return ex, fs


def abort_if(ex, cond):
    s = ex.st.copy()
    s.pc.append(cond)
    ex.aborts.append(s)
    ex.st.pc.append(z3.Not(cond))


def matrix_form(ex, proto, pts):
    ls = leaves(pts)
    fs = [z3.Function("matrix_form_%d" % i, *([x.sort() for x in ls] + [l.sort()])) for i, l in enumerate(leaves(proto))]
    return rebuild(proto, [f(*ls) for f in fs])


def holder(c):
    ex, fs = setup(c)
    this, v = obj(ex, HOLDER, "cloud")
    cl = heap(ex, ex.st, CL, v.f["inner_cloud_"].t)
    heap(ex, ex.st, EC, z3.IntVal(1))
    ex.assume(z3.And(v.f["inner_cloud_"].t > 0, v.f["eigen_cloud_"].t > 0, cl.f["points"].n >= 0))
    return ex, fs, this, v, cl


def cloud(ex, w, st=None):
    """Content of the cloud in memory."""
    return norm(ex.read(ex.deref(w.f["inner_cloud_"])))


@P.proof("InnerPointCloudData::SaveToFile", FILES)
def _(c):
    ex, fs, this, v, cl = holder(c)
    nm, nv = obj(ex, "std::string", "filename")
    ex.assume(v.f["is_cloud_in_memory_"])
    H = ex.st.copy()
    ex.writable = z3.BoolVal(False)
    r = ex.val(call(ex, "InnerPointCloudData::SaveToFile", this, [nm]))
    aborts_iff(ex, "there is nothing to save or no file to save to",
               z3.Or(nv == str_term(""), cl.f["points"].n == 0, z3.Not(ex.writable)))
    reach(ex, "saving", cl.f["points"].n > 2)
    w = state_val(ex, this)
    full, got = fs.get(nv)
    post(ex, "saving succeeds", r)
    post(ex, "the file holds the whole cloud", z3.And(full, eq(got, cl)))
    post(ex, "other files stay", fs.same(ex.st, H, nv))
    post(ex, "the file is remembered", w.f["filename_"] == nv)
    frame(ex, "saving leaves the cloud in memory", v, w, ("filename_",))
    post(ex, "saving leaves the points", eq(cloud(ex, w), cl))


@P.proof("InnerPointCloudData::Clear", FILES)
def _(c):
    ex, fs, this, v, cl = holder(c)
    H = ex.st.copy()
    K = ex.fresh(Int, "K")
    ex.assume(K > 0)
    call(ex, "InnerPointCloudData::Clear", this, [])
    no_abort(ex, "releasing")
    w = state_val(ex, this)
    reach(ex, "releasing", v.f["is_cloud_in_memory_"])
    post(ex, "the cloud is released", z3.Not(w.f["is_cloud_in_memory_"]))
    post(ex, "its file is still known", w.f["filename_"] == v.f["filename_"])
    post(ex, "its time is still known", eq(w.f["time_"], v.f["time_"]))
    post(ex, "files stay", fs.same(ex.st, H))
    post(ex, "points handed out before stay", eq(heap(ex, ex.st, CL, K), heap(ex, H, CL, K)))
    post(ex, "a released cloud stays as it is", z3.Implies(z3.Not(v.f["is_cloud_in_memory_"]), z3.And(
        *[eq(w.f[f], v.f[f]) for f in v.f if not isinstance(v.f[f], Opaque)])))
    ex.st.pc.append(v.f["is_cloud_in_memory_"])
    post(ex, "memory is given back", cloud(ex, w).f["points"].n == 0)


@P.proof("InnerPointCloudData::CloudInMemory", FILES)
def _(c):
    ex, fs, this, v, cl = holder(c)
    H = ex.st.copy()
    K = ex.fresh(Int, "K")
    ex.assume(K > 0)
    mem = v.f["is_cloud_in_memory_"]
    full, stored = fs.get(v.f["filename_"])
    exists = ex.root_val(ex.st, "ghost:exists")[v.f["filename_"]]
    ex.assume(z3.Implies(full, exists))
    r = ex.val(call(ex, "InnerPointCloudData::CloudInMemory", this, []))
    aborts_iff(ex, "the cloud was released and its file does not hold a whole cloud",
               z3.And(z3.Not(mem), z3.Or(z3.Not(z3.And(full, exists)), stored.f["points"].n == 0)))
    reach(ex, "already in memory", mem)
    reach(ex, "loading again", z3.And(z3.Not(mem), stored.f["points"].n > 2))
    w = state_val(ex, this)
    post(ex, "the cloud is in memory", z3.And(r, w.f["is_cloud_in_memory_"]))
    post(ex, "a cloud in memory stays as it is", z3.Implies(mem, z3.And(
        *[eq(w.f[f], v.f[f]) for f in v.f if not isinstance(v.f[f], Opaque)])))
    post(ex, "files stay", fs.same(ex.st, H))
    post(ex, "points handed out before stay", eq(heap(ex, ex.st, CL, K), heap(ex, H, CL, K)))
    post(ex, "its file is still known", w.f["filename_"] == v.f["filename_"])
    S = ex.st
    ex.st = ex.st.copy()
    ex.st.pc.append(z3.Not(mem))
    post(ex, "the points, attributes and time stamp of the file", eq(cloud(ex, w), stored))
    post(ex, "the time of the file", eq(w.f["time_"], stored.f["stamp"]))
    e = norm(ex.read(ex.deref(w.f["eigen_cloud_"])))
    post(ex, "the matrix form of the file's points", z3.And(*[a == b for a, b in zip(
        leaves(e), leaves(matrix_form(ex, e, stored.f["points"])))]))
    ex.st = S


@P.proof("save, release, use", FILES)
def _(c):
    ex, fs, this, v, cl = holder(c)
    nm, nv = obj(ex, "std::string", "filename")
    ex.assume(z3.And(v.f["is_cloud_in_memory_"], eq(v.f["time_"], cl.f["stamp"])))
    ex.writable = z3.BoolVal(False)
    call(ex, "InnerPointCloudData::SaveToFile", this, [nm])
    ok = z3.And(nv != str_term(""), cl.f["points"].n > 0, ex.writable)
    call(ex, "InnerPointCloudData::Clear", this, [])
    call(ex, "InnerPointCloudData::CloudInMemory", this, [])
    aborts_iff(ex, "it could not be saved", z3.Not(ok))
    reach(ex, "the cloud is used again", cl.f["points"].n > 2)
    w = state_val(ex, this)
    post(ex, "the same points, attributes and time stamp", z3.And(eq(cloud(ex, w), cl), eq(w.f["time_"], cl.f["stamp"])))
    call(ex, "InnerPointCloudData::Clear", this, [])
    call(ex, "InnerPointCloudData::CloudInMemory", this, [])
    reach(ex, "the cloud is used a third time", cl.f["points"].n > 2)
    post(ex, "also the next time", eq(cloud(ex, state_val(ex, this)), cl))


def changed(name, do):
    @P.proof("save, %s, release, use" % name, FILES)
    def _(c):
        ex, fs, this, v, cl = holder(c)
        nm, nv = obj(ex, "std::string", "filename")
        ex.assume(v.f["is_cloud_in_memory_"])
        ex.assume(z3.Not(ex.root_val(ex.st, "ghost:exists")[str_term("")]))
        ex.writable = z3.BoolVal(False)
        call(ex, "InnerPointCloudData::SaveToFile", this, [nm])
        do(ex, this)
        reach(ex, "the saved cloud is changed")
        want = cloud(ex, state_val(ex, this))
        call(ex, "InnerPointCloudData::Clear", this, [])
        reach(ex, "and released")
        call(ex, "InnerPointCloudData::CloudInMemory", this, [])
        # the change was not saved: refusing to use the cloud is an answer, the outdated file is not
        if ex.st is not None:
            post(ex, "the outdated file is not taken for the cloud", eq(cloud(ex, state_val(ex, this)), want))


def replace(ex, this):
    b, bv = obj(ex, NS + "data::" + CL, "other")
    ex.assume(bv.f["points"].n > 0)
    call(ex, "InnerPointCloudData::SetInnerCloud", this, [ptr(ex, b)])


def move(ex, this):
    t, tv = obj(ex, "Eigen::Matrix4d", "transform")

    def inplace(ex, t_, args, n):
        x = norm(ex.read(t_))
        y = ex.sym(NS + "data::" + CL, "moved")
        ex.st.pc.append(y.f["points"].n == x.f["points"].n)
        ex.write(t_, y)
    ex.contracts[CL + "::ApplyTransformInplace"] = inplace
    ex.contracts[EC + "::ApplyTransform"] = lambda ex, t_, args, n: ex.write(t_, ex.sym(NS + "data::" + EC, "moved"))
    call(ex, "InnerPointCloudData::TransformCloud", this, [t])


changed("replace", replace)
changed("transform", move)


# ---------------------------------------------------------------- users of a cloud
def user(c, cls):
    """Frames and submaps see a cloud through its contracts; ghost: which clouds
    are saved, and that only those are released."""
    ex = c.exec(fp="uf")
    arr = z3.ArraySort(Int, Bool)
    ex.st.roots["ghost:saved"] = ex.fresh(arr, "saved")
    addr = lambda this: this.alts[0][1].path[0][1] if this.alts[0][1].root.startswith("heap:") else z3.IntVal(-1)

    def h(this):
        if len(this.alts) != 1 or not this.alts[0][1].root.startswith("heap:"):
            raise Unsupported("cloud of a frame")
        return this.alts[0][1].path[0][1]

    def save(ex, this, args, n):
        ex.write(this, norm(ex.read(this)).set("filename_", ex.val(args[0])))
        ex.write_loc(Loc("ghost:saved"), z3.Store(ex.read_loc(Loc("ghost:saved")), h(this), True))
        return z3.BoolVal(True)

    def clear(ex, this, args, n):
        if ex.must_be_saved and not ex.dry:
            ex.oblige("only saved clouds are released", ex.read_loc(Loc("ghost:saved"))[h(this)], kind="call")
        ex.write(this, norm(ex.read(this)).set("is_cloud_in_memory_", z3.BoolVal(False)))

    def use(ex, this, args, n):
        ex.write(this, norm(ex.read(this)).set("is_cloud_in_memory_", z3.BoolVal(True)))
        return z3.BoolVal(True)
    ex.must_be_saved = False
    ex.contracts["InnerPointCloudData::SaveToFile"] = save
    ex.contracts["InnerPointCloudData::Clear"] = clear
    ex.contracts["InnerPointCloudData::CloudInMemory"] = use
    ex.contracts["InnerPointCloudData::Empty"] = lambda ex, this, args, n: ex.fresh(Bool, "empty")
    ex.contracts["FrameId::DebugString"] = lambda ex, this, args, n: ex.fresh(Str, "name")
    this, v = obj(ex, NS + cls, cls.lower())
    hd = ex.root_val(ex.st, "heap:InnerPointCloudData")
    return ex, this, v


def held(ex, st, t):
    return heap(ex, st, "InnerPointCloudData", t).f["is_cloud_in_memory_"]


for _cls in ("Frame", "Submap"):
    def _unit(cls):
        @P.proof(cls + "::Cloud", USERS)
        def _(c):
            ex, this, v = user(c, cls)
            t = v.f["inner_cloud_"].t
            ex.assume(t >= 0)
            r = ex.val(call(ex, cls + "::Cloud", this, []))
            aborts_iff(ex, "there is no cloud", t == 0)
            reach(ex, "a cloud is used")
            post(ex, "the cloud of the %s" % cls.lower(), r.t == t)
            post(ex, "it is in memory", held(ex, ex.st, t))
            if cls == "Submap":
                post(ex, "it counts as used", state_val(ex, this).f["cloud_inactive_time_"] == 0)
            frame(ex, "nothing else changes", v, state_val(ex, this), ("cloud_inactive_time_",))
    _unit(_cls)


@P.proof("Submap::UpdateInactiveTime", USERS)
def _(c):
    ex, this, v = user(c, "Submap")
    t = v.f["inner_cloud_"].t
    ex.assume(t > 0)
    dt = ex.fresh(Int, "seconds")
    idle = v.f["cloud_inactive_time_"]
    ex.assume(z3.And(0 <= dt, dt < 2 ** 30, 0 <= idle, idle < 2 ** 30))
    H = ex.st.copy()
    K = ex.fresh(Int, "K")
    call(ex, "Submap::UpdateInactiveTime", this, [dt])
    no_abort(ex, "waiting")
    saved = z3.And(v.f["options_"].f["enable_disk_saving"], v.f["got_matched_transform_to_next_"])
    late = z3.And(saved, idle + dt > v.f["options_"].f["disk_saving_delay"])
    reach(ex, "releasing", late)
    reach(ex, "waiting", z3.Not(saved))
    post(ex, "a cloud is released only when it was saved and not used for the configured time",
         z3.Implies(z3.Not(late), held(ex, ex.st, t) == held(ex, H, t)))
    post(ex, "and then it is", z3.Implies(late, z3.Not(held(ex, ex.st, t))))
    post(ex, "no other cloud is touched", z3.Implies(K != t, held(ex, ex.st, K) == held(ex, H, K)))
    post(ex, "time adds up", z3.Implies(saved, state_val(ex, this).f["cloud_inactive_time_"] == idle + dt))
    frame(ex, "nothing else changes", v, state_val(ex, this), ("cloud_inactive_time_",))


@P.proof("Submap::SetMatchedTransformedToNext", USERS)
def _(c):
    ex, this, v = user(c, "Submap")
    ex.must_be_saved = True
    t, tv = obj(ex, "Eigen::Matrix4d", "transform")
    fr = v.f["frames_"]
    own = v.f["inner_cloud_"].t
    k = z3.Int("k")
    fid = lambda k: leaves(sel(fr.el, k))[0]
    ex.assume(z3.And(own > 0, fr.n >= 0))
    ex.assume(forall([k], z3.Implies(z3.And(0 <= k, k < fr.n), fid(k) > 0), fid(k)))
    ex.contracts["FrameBase::SetTransformToNext"] = lambda ex, this, args, n: ex.write(
        this.map(lambda l: l.f("transform_to_next_")), ex.val(args[0])) if "transform_to_next_" in v.f else None
    ex.extra_cands.append(lambda ex, info: [Cand("saved clouds stay saved", lambda st, i: z3.ForAll(
        [k], z3.Implies(info.S0.roots["ghost:saved"][k], ex.root_val(st, "ghost:saved")[k])))])
    call(ex, "Submap::SetMatchedTransformedToNext", this, [t])
    disk = v.f["options_"].f["enable_disk_saving"]
    reach(ex, "with files", z3.And(disk, fr.n > 2))
    reach(ex, "without files", z3.Not(disk))
    w = state_val(ex, this)
    post(ex, "a submap that may be released is saved", z3.Implies(disk, ex.read_loc(Loc("ghost:saved"))[own]))
    post(ex, "the submap is marked", w.f["got_matched_transform_to_next_"])
    H = ex.root_val(ex.st, "ghost:saved")


P.harness("C30.cc", ["builder/submap.cc", "builder/frame.cc", "builder/frame_base.cc", "builder/data/cloud_types.cc",
                     "builder/multi_resolution_voxel_map.cc", "pre_processors/*.cc", "common/*.cc", "common/performance/*.cc",
                     "descriptor/m2dp.cc", "third_parties/pugixml/pugixml.cc"], time=4)
