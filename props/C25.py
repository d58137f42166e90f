"""C25: every task given to the pool runs exactly once, in order, before the pool is gone."""
from vf.driver import Property
from vf.ast import HERE
from vf.loops import Cand
from vf.spec import *

P = Property("C25")
SRC = (HERE + "/stubs/pool.cc",)
POOL = "static_map::common::ThreadPool"
P.assumptions.append("std::mutex, std::condition_variable, std::thread, std::packaged_task, std::bind and std::function do what "
                     "the standard says; the scheduler lets every runnable thread run")
P.assumptions.append("the pool has at least one worker; every task returns")
P.assumptions.append("nothing is submitted from outside after the destructor has returned")


def world(c):
    ex = c.exec()
    ex.types.task_types = True
    ex.locks = {}
    ex.spawned = []
    ex.on_spawn = lambda lam: (ex.oblige("a worker is started when the pool is open", z3.Not(field(ex, "stop_"))),
                               ex.spawned.append(lam))
    return ex


def field(ex, f, st=None):
    return norm(ex.nav(ex.root_val(st or ex.st, ex.pool), (("f", f),)))


def put_field(ex, f, v):
    ex.st.roots[ex.pool] = ex.root_val(ex.st, ex.pool).set(f, v)


def ghost(ex, k, v=None):
    if v is None:
        return ex.st.roots["ghost:" + k]
    ex.st.roots["ghost:" + k] = v


def pool(c):
    """A pool in use: others submit, take and stop whenever the lock is free."""
    ex = world(c)
    this, v = obj(ex, POOL, "pool")
    return shared(ex, this)


def shared(ex, this):
    ex.pool = this.loc.root
    ex.guarded = ex.pool
    ex.accesses = []
    ex.mutex = "lock:%s.queue_mutex_" % ex.pool
    ghost(ex, "q0", field(ex, "tasks_"))
    ghost(ex, "s0", field(ex, "stop_"))
    ghost(ex, "stops", z3.BoolVal(False))

    def on_acquire(key):
        if key != ex.mutex:
            return
        q, s = ex.sym("std::queue<std::function<void ()>>", "tasks"), ex.sym("bool", "stop")
        q = norm(q)
        k = z3.Int("k!task")
        ex.st.pc.append(z3.And(q.n >= 0, z3.ForAll([k], q.el.f["id"][k] > 0, patterns=[q.el.f["id"][k]])))
        ex.st.pc.append(z3.Implies(ghost(ex, "s0"), s))         # a pool once stopped stays stopped
        put_field(ex, "tasks_", q)
        put_field(ex, "stop_", s)
        ghost(ex, "q0", q)
        ghost(ex, "s0", s)
    ex.on_acquire = on_acquire
    return ex, this


def taken(ex, name, q0, q, d):
    k = ex.fresh(Int, "k")
    ex.oblige(name, z3.And(q.n == q0.n - d, z3.Implies(z3.And(0 <= k, k < q.n), q.el.f["id"][k] == q0.el.f["id"][k + d])))


def guarded(ex, what):
    seen = set()
    for f, w, held, pc, where in ex.accesses:
        key = (f, w, where) if z3.is_true(held.get(ex.mutex)) else None
        if f in ("tasks_", "stop_") and key not in seen:
            seen |= {key} if key else set()
            ex.obls.append(Obligation("%s: %s %s in %s with the lock held" % (what, f, "written" if w else "read", where),
                                      held.get(ex.mutex, z3.BoolVal(False)), pc, kind="lock"))


@P.proof("ThreadPool::ThreadPool", SRC)
def _(c):
    ex = world(c)
    n = ex.sym("size_t", "threads")
    ex.assume(n < 2 ** 31)
    ex.pool = None
    k = z3.Int("k!w")

    def cands(ex, info):
        return [Cand("every worker runs", lambda st, i: (lambda w: z3.ForAll(
            [k], z3.Implies(z3.And(0 <= k, k < w.n), w.el.f["state"][k] == 1)))(field(ex, "workers_", st))),
                Cand("one worker in each round", lambda st, i: field(ex, "workers_", st).n == i)]
    ex.extra_cands.append(cands)
    new_root = ex.new_root

    def root(v, name="", *a):
        loc = new_root(v, name, *a)
        if ex.pool is None and name == "ThreadPool":
            ex.pool = loc.root
        return loc
    ex.new_root = root
    this, v = make(ex, POOL, [n])
    no_abort(ex, "construction")
    reach(ex, "construction", n == 3)
    w = v.f["workers_"]
    K = ex.fresh(Int, "K")
    post(ex, "as many workers as asked for", w.n == n)
    post(ex, "every worker is running", z3.Implies(z3.And(0 <= K, K < w.n), w.el.f["state"][K] == 1))
    post(ex, "the pool starts open", z3.Not(v.f["stop_"]))
    post(ex, "the pool starts without tasks", v.f["tasks_"].n == 0)


@P.proof("ThreadPool worker", SRC)
def _(c):
    ex = world(c)
    ex.pool = None
    ex.on_spawn = lambda lam: ex.spawned.append(lam)
    this, v = make(ex, POOL, [z3.IntVal(1)])
    lam = ex.spawned[-1]
    ex.obls.clear()
    ex.aborts.clear()
    ex, this = shared(ex, this)
    ghost(ex, "pending", z3.IntVal(0))
    ghost(ex, "mine", z3.IntVal(0))
    ghost(ex, "done", z3.BoolVal(False))

    def on_release(key):
        if key != ex.mutex:
            return
        q0, q = ghost(ex, "q0"), field(ex, "tasks_")
        d = q0.n - q.n
        ex.oblige("at most one task is taken at a time", z3.And(0 <= d, d <= 1))
        k = ex.fresh(Int, "k")
        ex.oblige("the oldest task is taken, the others stay in order",
                  z3.Implies(z3.And(0 <= k, k < q.n), q.el.f["id"][k] == q0.el.f["id"][k + d]))
        ex.oblige("a worker does not open or stop the pool", field(ex, "stop_") == ghost(ex, "s0"))
        ex.oblige("a task taken earlier has been run", z3.Implies(d == 1, ghost(ex, "pending") == 0))
        ghost(ex, "mine", z3.If(d == 1, q0.el.f["id"][0], ghost(ex, "mine")))
        ghost(ex, "pending", z3.If(d == 1, z3.IntVal(1), ghost(ex, "pending")))
        ghost(ex, "done", z3.And(field(ex, "stop_"), q.n == 0))
    ex.on_release = on_release

    def on_call(t):
        ex.oblige("a worker runs only a task it has taken, once", ghost(ex, "pending") == 1)
        ex.oblige("the task run is the one taken", t == ghost(ex, "mine"))
        ex.oblige("a task runs without the lock of the pool", z3.Not(ex.held(ex.mutex)))
        ghost(ex, "pending", z3.IntVal(0))
    ex.on_call = on_call

    def on_wait(p):
        work = z3.Or(field(ex, "stop_"), field(ex, "tasks_").n > 0)
        ex.oblige("a worker does not sleep when there is work or the pool is stopped",
                  z3.Not(work) if p is None else z3.Implies(work, p))
        if p is not None:
            ghost(ex, "woken", p)
    ex.on_wait = on_wait

    def cands(ex, info):
        R = lambda st, k: st.roots["ghost:" + k]
        return [Cand("no task is pending", lambda st, i: R(st, "pending") == 0),
                Cand("nothing taken since the lock was acquired", lambda st, i: z3.And(
                    eq(field(ex, "tasks_", st), R(st, "q0")), field(ex, "stop_", st) == R(st, "s0")))]
    ex.extra_cands.append(cands)
    try:
        ex.call_lambda(lam, [])
    except Dead:
        ex.st = None
    no_abort(ex, "a worker")
    ok = reach(ex, "a worker ends")
    if ex.st is not None:
        post(ex, "a worker ends only when the pool is stopped and no task is left", ghost(ex, "done"))
        post(ex, "a worker ends only after running what it took", ghost(ex, "pending") == 0)
        post(ex, "a worker ends without the lock", z3.Not(ex.held(ex.mutex)))
    guarded(ex, "worker")


def submission(nm, sig, withargs):
    @P.proof("ThreadPool::enqueue(%s)" % nm, SRC)
    def _(c):
        ex, this = pool(c)
        f = obj(ex, "std::function<void ()>", "f")[0]
        fid = norm(ex.val(f)).f["id"]
        ex.assume(fid > 0)
        args = [f]
        x = None
        if withargs:
            xo, x = obj(ex, "int", "x")
            args.append(xo)
        ghost(ex, "pushed", z3.BoolVal(False))
        ghost(ex, "told", z3.BoolVal(False))
        ghost(ex, "id", z3.IntVal(0))

        def on_release(key):
            if key != ex.mutex:
                return
            q0, q = ghost(ex, "q0"), field(ex, "tasks_")
            d = q.n - q0.n
            k = ex.fresh(Int, "k")
            ex.oblige("tasks queued earlier stay, in order",
                      z3.Implies(z3.And(0 <= k, k < q0.n), q.el.f["id"][k] == q0.el.f["id"][k]))
            ex.oblige("at most one task is added", z3.And(0 <= d, d <= 1))
            ex.oblige("nothing is added to a stopped pool", z3.Implies(ghost(ex, "s0"), d == 0))
            ex.oblige("submission does not open or stop the pool", field(ex, "stop_") == ghost(ex, "s0"))
            ex.oblige("a task is added once", z3.Implies(d == 1, z3.Not(ghost(ex, "pushed"))))
            ghost(ex, "id", z3.If(d == 1, q.el.f["id"][q0.n], ghost(ex, "id")))
            ghost(ex, "pushed", z3.Or(d == 1, ghost(ex, "pushed")))
        ex.on_release = on_release

        def on_notify(every):
            ghost(ex, "told", z3.Or(ghost(ex, "told"), ghost(ex, "pushed"), ex.held(ex.mutex)))
        ex.on_notify = on_notify
        r = call(ex, "ThreadPool::enqueue", this, args, sig=sig)
        ex.obls.append(Obligation("no abort: submission", z3.BoolVal(not ex.aborts), list(ex.st.pc) if ex.st else []))
        reach(ex, "a task is accepted")
        for s in ex.throws:
            ex.obls.append(Obligation("a task is refused only by a stopped pool", s.roots["ghost:s0"], list(s.pc)))
            ex.obls.append(Obligation("a refused task is not queued", z3.Not(s.roots["ghost:pushed"]), list(s.pc)))
            ex.obls.append(Obligation("a refusal leaves the lock free",
                                      z3.Not(s.roots.get(ex.mutex, z3.BoolVal(False))), list(s.pc)))
        if ex.st is None:
            return
        post(ex, "a stopped pool refuses", z3.Not(ghost(ex, "s0")))
        post(ex, "an accepted task is queued", ghost(ex, "pushed"))
        post(ex, "a worker is told of it", ghost(ex, "told"))
        post(ex, "submission returns without the lock", z3.Not(ex.held(ex.mutex)))
        guarded(ex, "submission")
        # what the queued callable does when a worker calls it
        pid = ghost(ex, "id")
        for t, what in ex.callables:
            if not isinstance(what, Lambda) or not ex.valid(pid == t):
                continue
            held = captured_by_reference(what)
            post(ex, "the queued task refers to nothing that ends with the submission" + "".join(" " + h for h in held),
                 z3.BoolVal(not held))
            before = ex.st.copy()
            ex.on_call = None
            ex.call_lambda(what, [])
            fut = norm(ex.val(r)).f["id"]
            jobs = [(x, ex.root_val(ex.st, k)) for k, x in sorted(before.roots.items())
                    if isinstance(x, Struct) and x.cls == "packaged_task"]
            if not jobs:
                raise Unsupported("work not found")
            ran = [(a, b.f["runs"] - a.f["runs"]) for a, b in jobs]
            post(ex, "running it runs the work of the future, once", z3.And(
                z3.Sum([d for _, d in ran]) == 1,
                *[z3.Implies(d != 0, z3.And(d == 1, a.f["runs"] == 0, a.f["future"] == fut)) for a, d in ran]))
            hits = [(w, u[1]) for w, u in ex.callables if isinstance(u, tuple) and u[0] == "bind"]
            given_ = [z3.And(w == a.f["work"], norm(u[0]).f["id"] == fid, *([norm(u[1]) == x] if withargs else []))
                      for a, d in ran for w, u in hits if len(u) == len(args)]
            if not withargs:
                given_ += [a.f["work"] == fid for a, d in ran]
            for a, d in ran:
                post(ex, "the work is the given function with the given arguments", z3.Implies(d != 0, z3.Or(*given_)))
            break
        else:
            post(ex, "the queued task is the one made here", z3.BoolVal(False))


submission("void()", "function<void ()>", False)
submission("int(int), int", "function<int (int)>", True)


def captured_by_reference(lam):
    """Names captured by reference (the object they refer to may be gone)."""
    rec = lam.node.inner[0]
    return [f.name or "?" for f in rec.inner if f.kind == "FieldDecl" and (f.dtype or f.type or "").rstrip().endswith("&")]


@P.proof("ThreadPool::~ThreadPool", SRC)
def _(c):
    ex, this = pool(c)
    w = field(ex, "workers_")
    k = z3.Int("k!w")
    ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < w.n), w.el.f["state"][k] == 1)))
    ghost(ex, "closed", z3.BoolVal(False))
    ghost(ex, "told", z3.BoolVal(False))

    def on_release(key):
        if key != ex.mutex:
            return
        q0, q = ghost(ex, "q0"), field(ex, "tasks_")
        taken(ex, "accepted tasks stay in the queue", q0, q, 0)
        ex.oblige("the pool is not opened again", z3.Implies(ghost(ex, "s0"), field(ex, "stop_")))
        ghost(ex, "closed", field(ex, "stop_"))
    ex.on_release = on_release

    def on_notify(every):
        if every:
            ghost(ex, "told", z3.Or(ghost(ex, "told"), ghost(ex, "closed"), z3.And(ex.held(ex.mutex), field(ex, "stop_"))))
    ex.on_notify = on_notify

    def on_join():
        ex.oblige("a worker is awaited only after all are told to end", z3.And(ghost(ex, "told"), ghost(ex, "closed")))
        ex.oblige("a worker is awaited without the lock", z3.Not(ex.held(ex.mutex)))
    ex.on_join = on_join

    def cands(ex, info):
        W = lambda st: field(ex, "workers_", st)
        return [Cand("workers seen are joined", lambda st, i: z3.ForAll([k], z3.Implies(
                    z3.And(0 <= k, k < i), W(st).el.f["state"][k] == 2))),
                Cand("the others run", lambda st, i: z3.ForAll([k], z3.Implies(
                    z3.And(i <= k, k < w.n), W(st).el.f["state"][k] == 1))),
                Cand("no worker is forgotten", lambda st, i: W(st).n == w.n)]
    ex.extra_cands.append(cands)
    call(ex, "ThreadPool::~ThreadPool", this, [])
    no_abort(ex, "destruction")
    reach(ex, "destruction", w.n == 3)
    K = ex.fresh(Int, "K")
    post(ex, "the pool is stopped", ghost(ex, "closed"))
    post(ex, "every worker has ended", z3.Implies(z3.And(0 <= K, K < w.n), field(ex, "workers_").el.f["state"][K] == 2))
    post(ex, "destruction ends without the lock", z3.Not(ex.held(ex.mutex)))
    guarded(ex, "destruction")


P.harness("C25.cc", [], libs=["-lpthread"], time=5, cflags=("-fsanitize=thread", "-g"))
