"""C09: a filter chain is the composition of its filters."""
from vf.driver import Property
from vf.loops import Cand
from vf.spec import *
from props.filters import NS, CLOUD, NATIVE

P = Property("C09")
FILES = ("pre_processors/filter_factory.cc", "pre_processors/filter_interface.cc")
P.assumptions.append("contract of every filter in a chain: its output is determined by the filter and its input cloud, it "
                     "leaves the input cloud alone, and without input it does nothing (proved for the range, axis, box, "
                     "sampling and voxel filters in C06, C07, C08; assumed for the others)")
P.assumptions.append("taking an input cloud acts as in the common base class (three filters add own preparation)")
P.assumptions.append("the input cloud of a chain is not empty (an empty cloud is never accepted as input) and is not the output")


def setup(c, null=None):
    ex = c.exec(fp="uf")
    this, v = obj(ex, NS + "Factory", "chain")
    inp, iv = obj(ex, CLOUD, "in")
    out, ov = obj(ex, CLOUD, "out")
    pin, pout = ptr(ex, inp), ptr(ex, out)
    if null == "in":
        pin = Ptr(z3.IntVal(0), "InnerCloudType")
    if null == "out":
        pout = Ptr(z3.IntVal(0), "InnerCloudType")
    v = v.set("inner_cloud_", pin)
    put(ex, this, v)
    ex.assume(iv.f["points"].n > 0)
    return ex, this, v, inp, iv, out, ov, pout


def apply_filter(ex, t, cloud):
    """Output of filter t for an input cloud: uninterpreted, one function per
    component; an empty input is passed on."""
    ls = leaves(norm(cloud))
    fs = [z3.Function("filter_out_%d" % i, *([Int] + [x.sort() for x in ls] + [l.sort()])) for i, l in enumerate(ls)]
    res = rebuild(norm(cloud), [f(t, *ls) for f in fs])
    return res


@P.proof("Factory::Filter", FILES)
def _(c):
    ex, this, v, inp, iv, out, ov, pout = setup(c)
    fl = v.f["filters_"]
    t = lambda k: leaves(sel(fl.el, k))[0]
    k_ = z3.Int("k")
    ex.assume(forall([k_], z3.Implies(z3.And(0 <= k_, k_ < fl.n), t(k_) > 0), t(k_)))

    def step(s, k):
        return ite(s.f["points"].n == 0, s, apply_filter(ex, t(k), s))
    chain = Fold(ex, "chain", norm(iv), step)
    ex.folds.append(chain)

    def filter_contract(ex, this, args, n):
        if len(this.alts) != 1 or not this.alts[0][1].path or this.alts[0][1].path[-1][0] != "i":
            raise Unsupported("filter object")
        tid = this.alts[0][1].path[-1][1]
        f = ex.read(this)
        src = f.f["inner_cloud_"]
        has = z3.simplify(unfold_select(src.t) != 0)
        dst = ex.deref(ex.val(args[0]))
        old = ex.read(dst)
        # contents of the input cloud, wherever it lives
        cin = ex.read(ex.deref(Ptr(z3.If(has, unfold_select(src.t), ex.val(args[0]).t), src.cls)))
        new = apply_filter(ex, tid, norm(cin))
        ex.st.pc.append(new.f["points"].n >= 0)
        ex.write(dst, ite(has, new, norm(old)))
        ex.assumed.add("Interface::Filter (contract)")
        return None
    ex.contracts["Interface::Filter"] = filter_contract

    def cands(ex, info):
        res = []
        for root, r0 in info.S0.roots.items():
            if isinstance(r0, Struct) and "points" in r0.f and "stamp" in r0.f:
                def at(st, root=root):
                    return norm(ex.root_val(st, root))
                res.append(Cand("holds the chain so far", lambda st, i, at=at: eq(at(st), chain.at(i))))
                res.append(Cand("holds the last output", lambda st, i, at=at: z3.Implies(i > 0, eq(at(st), chain.at(i)))))
        return res
    ex.extra_cands.append(cands)
    call(ex, "Factory::Filter", this, [pout])
    no_abort(ex, "filtering")
    reach(ex, "filtering")
    o = state_val(ex, out)
    post(ex, "an empty chain returns the input", z3.Implies(fl.n == 0, eq(o, iv)))
    post(ex, "the output is every filter applied once in order", z3.Implies(fl.n > 0, eq(o, chain.at(fl.n))))
    post(ex, "the input cloud is unchanged", eq(state_val(ex, inp), iv))
    frame(ex, "the chain is unchanged", v, state_val(ex, this), ("inliers_", "outliers_"))


@P.proof("Factory::Filter without input or output", FILES)
def _(c):
    for null in ("in", "out"):
        ex, this, v, inp, iv, out, ov, pout = setup(c, null)
        call(ex, "Factory::Filter", this, [pout])
        no_abort(ex, "without " + null)
        frame(ex, "without %sput nothing of the chain changes" % null, v, state_val(ex, this))
        post(ex, "without %sput the output stays" % null, eq(state_val(ex, out), ov))


P.harness("C09.cc", NATIVE, time=5)
