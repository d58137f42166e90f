"""C28: accumulated scans keep every point in order, clouds are delivered in order."""
from vf.driver import Property
from vf.ast import HERE
from vf.loops import Cand
from .collector import *

P = Property("C28")
SRC = ("builder/data/data_collector.cc", "common/simple_time.cc", HERE + "/stubs/collector.cc")
P.assumptions.append("scans are given by one thread (documented)")
P.assumptions.append("conversion of a pcl cloud and appending clouds: contracts proved in C13 and C12")
P.assumptions.append("time stamp comparison and conversion: contracts proved in C01, C13")
P.assumptions.append("a delivered cloud has at least one point before filtering (an empty cloud is refused by the filters and by "
                     "every user of a cloud)")
CL = "InnerCloudType"


def heap(ex, st, t):
    return norm(sel(ex.root_val(st, "heap:" + CL).el, t))


def fresh_cloud(ex):
    """A new object: its address and an arbitrary content."""
    p = ex.fresh(Int, "cloud")
    v = ex.sym("static_map::data::" + CL, "content")
    ex.st.pc.append(v.f["points"].n >= 0)
    a = ex.new_object(v, "cloud", CL)
    return a, norm(v)


def same_points(a, b, k, what=("x", "y", "z", "intensity")):
    x, y = sel(a.el, k), sel(b.el, k)
    return z3.And(*[x.f[f] == y.f[f] for f in what])


def appended(ex, A, B):
    """The points of A followed by those of B."""
    E = ex.sym("std::vector<static_map::data::InnerPointType>", "joined")
    k = z3.Int("k!app")
    for a, b, e in zip(leaves(A.el), leaves(B.el), leaves(E.el)):
        ex.st.pc.append(z3.ForAll([k], e[k] == z3.If(k < A.n, a[k], b[k - A.n]), patterns=[e[k]]))
    ex.st.pc.append(E.n == A.n + B.n)
    return E


def scans(kind):
    @P.proof("DataCollector::AddSensorData(%s)" % kind, SRC)
    def _(c):
        ex, this, v = collector(c, fp="uf")
        ex.contracts["ToLocalTime"] = lambda ex, t_, args, n: local_time(ex, ex.val(args[0]))
        conv = {}

        def local_time(ex, us):
            t = ex.sym("static_map::SimpleTime", "stamp")
            ex.st.pc.append(z3.And(wf(t), ns(t) == us * 1000))
            return t

        def convert(ex, t_, args, n):
            src = norm(ex.val(args[0]))
            a, d = fresh_cloud(ex)
            s, g = src.f["points"], d.f["points"]
            ex.st.pc.append(g.n == s.n)
            for f in ("x", "y", "z"):
                ex.st.pc.append(g.el.f[f] == s.el.f[f])
            if kind == "PointXYZI":
                ex.st.pc.append(g.el.f["intensity"] == s.el.f["intensity"])
            else:
                ex.st.pc.append(g.el.f["intensity"] == z3.K(Int, ex.num.const(0, "float")))
            ex.st.pc.append(z3.And(wf(d.f["stamp"]), ns(d.f["stamp"]) == src.f["header"].f["stamp"] * 1000))
            return a

        def app(ex, t_, args, n):
            a = norm(ex.read(t_))
            ex.write(t_, a.set("points", appended(ex, a.f["points"], norm(ex.val(args[0])).f["points"])))
            return t_
        ex.contracts["ToInnerPointCloud"] = convert
        ex.contracts["InnerCloudType::operator+="] = app
        m, mv = obj(ex, "pcl::PointCloud<pcl::%s>" % kind, "scan")
        X = mv.f["points"]
        us = mv.f["header"].f["stamp"]
        ex.assume(z3.And(us >= 0, us < 2 ** 32 * 1000000))
        num = v.f["options_"].f["accumulate_cloud_num"]
        cnt = v.f["accumulated_cloud_count_"]
        acc = v.f["accumulated_point_cloud_"]
        Q = v.f["cloud_data_before_preprocessing_"]
        K = ex.fresh(Int, "K")                  # some cloud of earlier
        A = heap(ex, ex.st, acc.t)
        k0 = heap(ex, ex.st, K)
        many = num > 1
        old = z3.And(many, cnt > 0)             # scans are being accumulated
        ex.assume(z3.And(Q.n >= 0, cnt >= 0, z3.Implies(many, cnt < num), z3.Implies(old, acc.t > 0), A.f["points"].n >= 0,
                         X.n >= 0, X.n + A.f["points"].n < 2 ** 31, K > 0, num < 2 ** 31 - 1))
        ex.assume(wf(v.f["first_time_in_accmulated_cloud_"]))
        sp = ex.types.shape
        p, _ = obj(ex, "std::shared_ptr<pcl::PointCloud<pcl::%s>>" % kind, "arg")
        put(ex, p, ptr(ex, m))
        call(ex, "DataCollector::AddSensorData", this, [p], sig=kind)
        no_abort(ex, "adding a scan")
        w = state_val(ex, this)
        Q1 = w.f["cloud_data_before_preprocessing_"]
        done = z3.Or(z3.Not(many), cnt + 1 >= num)
        reach(ex, "accumulating", z3.And(z3.Not(done), cnt > 1))
        reach(ex, "delivering one scan", z3.And(done, num == 1))
        reach(ex, "delivering several scans", z3.And(done, num == 3))
        n0 = z3.If(old, A.f["points"].n, 0)
        k = ex.fresh(Int, "k")
        J = ex.fresh(Int, "J")
        first = z3.If(old, ns(v.f["first_time_in_accmulated_cloud_"]), us * 1000)
        zero = ex.num.const(0, "float")

        def holds(nm, guard, cl):
            G = cl.f["points"]
            post(ex, nm + ": number of points", z3.Implies(guard, G.n == n0 + X.n))
            post(ex, nm + ": the points of earlier scans come first",
                 z3.Implies(z3.And(guard, 0 <= k, k < n0), same_points(G, A.f["points"], k)))
            g, x = sel(G.el, n0 + k), sel(X.el, k)
            post(ex, nm + ": then those of this scan in order", z3.Implies(z3.And(guard, 0 <= k, k < X.n), z3.And(
                *[g.f[f] == x.f[f] for f in "xyz"],
                g.f["intensity"] == (x.f["intensity"] if kind == "PointXYZI" else zero))))
        S1 = ex.st
        for nm, guard, want in (("accumulated", z3.Not(done), w.f["accumulated_point_cloud_"]),
                                ("queued", done, leaves(sel(Q1.el, Q.n))[0])):
            ex.st = S1.copy()
            ex.st.pc.append(guard)
            t = want.t if isinstance(want, Ptr) else want
            post(ex, nm + ": there is a cloud", t != 0)
            cl = norm(ex.read(ex.deref(Ptr(t, CL))))
            holds(nm, z3.BoolVal(True), cl)
            if nm == "queued":
                post(ex, "a queued cloud carries the first scan's time stamp", z3.And(
                    ns(cl.f["stamp"]) == first, cl.f["stamp"].f["nsecs"] < G))
        ex.st = S1
        post(ex, "a cloud is queued once the count is reached", Q1.n == z3.If(done, Q.n + 1, Q.n))
        post(ex, "clouds queued earlier stay in order", z3.Implies(z3.And(0 <= J, J < Q.n), eq(sel(Q1.el, J), sel(Q.el, J))))
        post(ex, "scans are counted", z3.Implies(many, w.f["accumulated_cloud_count_"] == z3.If(done, 0, cnt + 1)))
        post(ex, "the first scan's time is kept", z3.Implies(z3.Not(done), ns(w.f["first_time_in_accmulated_cloud_"]) == first))
        post(ex, "clouds queued earlier stay as they are", z3.Implies(z3.Or(z3.Not(old), K != acc.t), eq(heap(ex, ex.st, K), k0)))
        post(ex, "the scan stays as it is", eq(state_val(ex, m), mv))
        post(ex, "clouds waiting for the user stay", eq(w.f["cloud_data_"], v.f["cloud_data_"]))


for _k in ("PointXYZI", "PointXYZ"):
    scans(_k)


@P.proof("DataCollector::GetNewCloud, GetRemainingCloudSize, ClearAllCloud", SRC)
def _(c):
    ex, this, v = collector(c, fp="uf")
    Q = v.f["cloud_data_"]
    ex.assume(Q.n >= 0)
    k = z3.Int("k")
    ex.assume(forall([k], z3.Implies(z3.And(0 <= k, k < Q.n), leaves(sel(Q.el, k))[0] > 0), leaves(sel(Q.el, k))[0]))
    r = ex.val(call(ex, "DataCollector::GetNewCloud", this, []))
    no_abort(ex, "taking a cloud")
    reach(ex, "taking a cloud", Q.n > 2)
    reach(ex, "no cloud to take", Q.n == 0)
    w = state_val(ex, this)
    Q1 = w.f["cloud_data_"]
    J = ex.fresh(Int, "J")
    post(ex, "the oldest cloud is taken, or none", r.t == z3.If(Q.n > 0, leaves(sel(Q.el, z3.IntVal(0)))[0], 0))
    post(ex, "it is taken once", Q1.n == z3.If(Q.n > 0, Q.n - 1, 0))
    post(ex, "the others keep their order", z3.Implies(z3.And(0 <= J, J < Q1.n), eq(sel(Q1.el, J), sel(Q.el, J + 1))))
    frame(ex, "nothing else changes by taking a cloud", v, w, ("cloud_data_",))
    ex, this, v = collector(c, fp="uf")
    r = ex.val(call(ex, "DataCollector::GetRemainingCloudSize", this, []))
    post(ex, "the number of clouds waiting", r == v.f["cloud_data_"].n)
    frame(ex, "asking changes nothing", v, state_val(ex, this))
    ex, this, v = collector(c, fp="uf")
    call(ex, "DataCollector::ClearAllCloud", this, [])
    no_abort(ex, "clearing")
    w = state_val(ex, this)
    post(ex, "no cloud is left", w.f["cloud_data_"].n == 0)
    frame(ex, "clearing drops nothing but clouds", v, w, ("cloud_data_", "cloud_data_before_preprocessing_"))


@P.proof("DataCollector::CloudPreProcessing", SRC)
def _(c):
    """Ghost history: In(0), In(1), ... are the clouds ever queued for the
    worker, Out(0), ... those it ever queued for the user.  While the lock is
    free the queues are In(taken..pushed) and Out(popped..made); others may
    queue and take clouds meanwhile."""
    ex, this, v = collector(c, fp="uf")
    ex.locks = {}
    ex.guarded = this.loc.root
    ex.volatile = {"kill_cloud_preprocessing_thread_"}
    ex.assume(v.f["filter_factory_"].t > 0)
    g = lambda n: ex.read_loc(Loc("ghost:" + n))
    gw = lambda n, x: ex.write_loc(Loc("ghost:" + n), x)
    arr = z3.ArraySort(Int, Int)
    In = z3.Const("In", arr)
    for n in ("taken", "pushed", "made", "popped"):
        ex.st.roots["ghost:" + n] = ex.fresh(Int, n)
    ex.st.roots["ghost:input"] = z3.IntVal(0)
    ex.st.roots["ghost:Out"] = ex.fresh(arr, "Out")
    ex.st.roots["ghost:from"] = ex.fresh(arr, "from")        # cloud -> the cloud it was filtered from
    A = ex.fresh(Int, "alloc")
    ex.st.roots["alloc"] = A
    j = z3.Int("j")
    start = g("made")
    ex.assume(z3.And(0 <= g("popped"), g("popped") <= start, g("taken") == start, start <= g("pushed"), A > 0))
    ex.assume(forall([j], z3.And(0 < In[j], In[j] < A), In[j]))
    ex.assume(forall([j], z3.And(0 < g("Out")[j], g("Out")[j] < A), g("Out")[j]))
    at = lambda f: Loc(this.loc.root, this.loc.path + (("f", f),))
    QI, QO = "cloud_data_before_preprocessing_", "cloud_data_"
    H0 = ex.st.copy()

    def acquire(key):
        taken, made = g("taken"), g("made")
        pushed, popped = ex.fresh(Int, "pushed"), ex.fresh(Int, "popped")
        ex.st.pc.append(z3.And(pushed >= g("pushed"), popped >= g("popped"), popped <= made))
        for f, lo, hi, src in ((QI, taken, pushed, In), (QO, popped, made, g("Out"))):
            q = ex.read_loc(at(f))
            el = ex.fresh(arr, f)
            ex.st.pc.append(z3.ForAll([j], el[j] == src[lo + j], patterns=[el[j]]))
            ex.write_loc(at(f), Seq(q.kind, hi - lo, rebuild(q.el, [el])))
        gw("pushed", pushed)
        gw("popped", popped)

    def release(key):
        q, o = ex.read_loc(at(QI)), ex.read_loc(at(QO))
        qe, oe = leaves(q.el)[0], leaves(o.el)[0]
        taken, pushed, made, popped, out = g("taken"), g("pushed"), g("made"), g("popped"), g("Out")
        t1, m1 = pushed - q.n, popped + o.n
        if not ex.dry:
            K = ex.fresh(Int, "K")
            ex.oblige("the worker takes clouds from the front only", z3.And(t1 >= taken, t1 <= pushed, z3.Implies(
                z3.And(0 <= K, K < q.n), qe[K] == In[t1 + K])), kind="lock")
            ex.oblige("the worker adds clouds at the back only", z3.And(m1 >= made, z3.Implies(
                z3.And(popped <= K, K < made), oe[K - popped] == out[K])), kind="lock")
            new = z3.And(made <= K, K < m1)
            src = g("from")[oe[K - popped]]
            ex.oblige("a delivered cloud is the filtered input", z3.Implies(new, eq(
                heap(ex, ex.st, oe[K - popped]), filtered(heap(ex, ex.st, src)))), kind="lock")
        o1 = ex.fresh(arr, "Out")
        ex.st.pc.append(z3.ForAll([j], o1[j] == z3.If(j < made, out[j], oe[j - popped]), patterns=[o1[j]]))
        gw("taken", t1)
        gw("made", m1)
        gw("Out", o1)
    ex.on_acquire, ex.on_release = acquire, release

    def filtered(cl):
        ls = leaves(cl)
        fs = [z3.Function("filtered_%d" % i, *([x.sort() for x in ls] + [l.sort()])) for i, l in enumerate(ls)]
        r = rebuild(cl, [f(*ls) for f in fs])
        return r.set("stamp", cl.f["stamp"])

    def set_input(ex, t_, args, n):
        gw("input", ex.val(args[0]).t)

    def run(ex, t_, args, n):
        p = ex.val(args[0]).t
        ex.safe(z3.And(p != 0, g("input") != 0), "the filter has an input and an output")
        new = filtered(heap(ex, ex.st, g("input")))
        ex.st.pc.append(new.f["points"].n >= 0)
        ex.write(ex.deref(Ptr(p, CL)), new)
        gw("from", z3.Store(g("from"), p, g("input")))
    for cls in ("Factory", "ProcesserInterface", "Interface"):
        ex.contracts[cls + "::SetInputCloud"] = set_input
        ex.contracts[cls + "::Filter"] = run
    ex.contracts["SimpleTime::operator=="] = lambda ex, t_, args, n: eq(ex.val(t_), ex.val(args[0]))
    ex.contracts["SimpleTime::Sleep"] = lambda ex, t_, args, n: None
    ex.contracts["SimpleTime::FromSec"] = lambda ex, t_, args, n: ex.sym("static_map::SimpleTime", "t")

    def cands(ex, info):
        R = lambda st, n: ex.root_val(st, "ghost:" + n)
        return [
            Cand("every cloud taken was delivered", lambda st, i: z3.And(R(st, "taken") == R(st, "made"), R(st, "made") >= start)),
            Cand("counters", lambda st, i: z3.And(R(st, "popped") <= R(st, "made"), R(st, "taken") <= R(st, "pushed"),
                                                  R(st, "popped") >= R(H0, "popped"))),
            Cand("addresses", lambda st, i: z3.And(ex.root_val(st, "alloc") >= A, z3.ForAll(
                [j], z3.Implies(z3.And(start <= j, j < R(st, "made")), z3.And(A <= R(st, "Out")[j], R(st, "Out")[j] < ex.root_val(st, "alloc")))))),
            Cand("delivered clouds stay", lambda st, i: z3.ForAll(
                [j], z3.Implies(j < start, R(st, "Out")[j] == R(H0, "Out")[j]))),
            Cand("in order", lambda st, i: z3.ForAll(
                [j], z3.Implies(z3.And(start <= j, j < R(st, "made")), R(st, "from")[R(st, "Out")[j]] == In[j]))),
        ]
    ex.extra_cands.append(cands)
    call(ex, "DataCollector::CloudPreProcessing", this, [])
    no_abort(ex, "the worker")
    reach(ex, "the worker stops", g("made") > start + 2)
    J = ex.fresh(Int, "J")
    K = ex.fresh(Int, "K")
    post(ex, "every cloud taken is delivered", g("taken") == g("made"))
    post(ex, "the n-th cloud delivered is the n-th cloud queued, filtered",
         z3.Implies(z3.And(start <= J, J < g("made")), g("from")[g("Out")[J]] == In[J]))
    post(ex, "clouds delivered earlier stay", z3.Implies(J < start, g("Out")[J] == ex.root_val(H0, "ghost:Out")[J]))
    post(ex, "queued clouds are not changed", z3.Implies(z3.And(0 < K, K < A), eq(heap(ex, ex.st, K), heap(ex, H0, K))))
    post(ex, "the worker returns without the lock", z3.And(*[z3.Not(ex.held(k)) for k in ex.locks]))


P.harness("C28.cc", NATIVE, time=5)
