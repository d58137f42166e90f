"""C23: the view graph."""
from vf.driver import Property
from vf.spec import *

P = Property("C23")
FILES = ("back_end/view_graph.cc",)
NS = "static_map::back_end::"
P.assumptions.append("positions compared as real numbers (no NaN in a pose)")


def graph(c):
    ex = c.exec(fp="real")
    this, v = obj(ex, NS + "ViewGraph", "graph")
    m = v.f["graph_map_"]
    K = ex.fresh(Int, "K")                  # any vertex
    J = ex.fresh(Int, "J")                  # any of its edges
    has, item = sel_map(m, [K])
    ex.assume(item.f["connections"].n >= 0)
    return ex, this, v, m, K, J, has, item


def bounds(v):
    return v.f["min_bounding_"].e, v.f["max_bounding_"].e


@P.proof("ViewGraph::AddVertex", FILES)
def _(c):
    ex, this, v, m, K, J, has, item = graph(c)
    pose, pv = obj(ex, "Eigen::Matrix4d", "pose")
    i = ex.fresh(Int, "index")
    has_i, item_i = sel_map(m, [i])
    lo, hi = bounds(v)
    px, py = item.f["self_pose"].at(0, 3), item.f["self_pose"].at(1, 3)
    inside = z3.And(lo[0] <= px, px <= hi[0], lo[1] <= py, py <= hi[1])
    ex.assume(z3.Implies(has, inside))      # bounds cover every vertex present
    call(ex, "ViewGraph::AddVertex", this, [i, pose])
    no_abort(ex, "adding a vertex")
    reach(ex, "adding a vertex")
    w = state_val(ex, this)
    n = w.f["graph_map_"]
    h2, it2 = sel_map(n, [i])
    post(ex, "the vertex is present", h2)
    post(ex, "the vertex has its latest pose", eq(it2.f["self_pose"], pv))
    c0, c1 = item_i.f["connections"], it2.f["connections"]
    post(ex, "a new vertex has no edges", z3.Implies(z3.Not(has_i), c1.n == 0))
    post(ex, "an existing vertex keeps its edges", z3.Implies(has_i, eq(c0, c1)))
    h3, it3 = sel_map(n, [K])
    post(ex, "other vertices stay", z3.Implies(K != i, z3.And(h3 == has, z3.Implies(has, eq(it3, item)))))
    post(ex, "one more vertex when it is new", n.size == m.size + z3.If(has_i, 0, 1))
    lo2, hi2 = bounds(w)
    x, y = pv.at(0, 3), pv.at(1, 3)
    for a, p in ((0, x), (1, y)):
        post(ex, "lower bound %d is the least so far" % a, lo2[a] == z3.If(p < lo[a], p, lo[a]))
        post(ex, "upper bound %d is the greatest so far" % a, hi2[a] == z3.If(p > hi[a], p, hi[a]))
    qx, qy = it3.f["self_pose"].at(0, 3), it3.f["self_pose"].at(1, 3)
    post(ex, "the bounds cover every vertex", z3.Implies(h3, z3.And(lo2[0] <= qx, qx <= hi2[0], lo2[1] <= qy, qy <= hi2[1])))
    e0 = leaves(sel(item.f["connections"].el, J))[0]
    e1 = leaves(sel(it3.f["connections"].el, J))[0]
    post(ex, "every edge still leads to a present vertex", z3.Implies(
        z3.Implies(z3.And(has, 0 <= J, J < item.f["connections"].n), sel_map(m, [e0])[0]),
        z3.Implies(z3.And(h3, 0 <= J, J < it3.f["connections"].n), sel_map(n, [e1])[0])))


@P.proof("ViewGraph::AddEdge", FILES)
def _(c):
    ex, this, v, m, K, J, has, item = graph(c)
    t, tv = obj(ex, "Eigen::Matrix4d", "t")
    a, b = ex.fresh(Int, "a"), ex.fresh(Int, "b")
    ha, ia = sel_map(m, [a])
    hb, _ = sel_map(m, [b])
    ex.assume(ia.f["connections"].n >= 0)
    call(ex, "ViewGraph::AddEdge", this, [a, b, t])
    no_abort(ex, "adding an edge")
    reach(ex, "adding an edge")
    w = state_val(ex, this)
    n = w.f["graph_map_"]
    both = z3.And(ha, hb)
    ha2, ia2 = sel_map(n, [a])
    c0, c1 = ia.f["connections"], ia2.f["connections"]
    hk, ik = sel_map(n, [K])
    last = sel(c1.el, c0.n)
    post(ex, "the edge is appended", z3.Implies(both, z3.And(
        c1.n == c0.n + 1, last.f["first"] == b, eq(last.f["second"], tv))))
    post(ex, "earlier edges stay", z3.Implies(z3.And(both, 0 <= J, J < c0.n), eq(sel(c0.el, J), sel(c1.el, J))))
    post(ex, "the pose stays", z3.Implies(ha, eq(ia2.f["self_pose"], ia.f["self_pose"])))
    post(ex, "no vertex is added or removed", z3.And(hk == has, n.size == m.size))
    post(ex, "other vertices stay", z3.Implies(z3.And(has, K != a), eq(ik, item)))
    post(ex, "an edge with an unknown end changes nothing", z3.Implies(z3.And(z3.Not(both), has), eq(ik, item)))
    frame(ex, "the bounds stay", v, w, ("graph_map_",))
    e0 = leaves(sel(item.f["connections"].el, J))[0]
    e1 = leaves(sel(ik.f["connections"].el, J))[0]
    post(ex, "every edge leads to a present vertex", z3.Implies(
        z3.Implies(z3.And(has, 0 <= J, J < item.f["connections"].n), sel_map(m, [e0])[0]),
        z3.Implies(z3.And(hk, 0 <= J, J < ik.f["connections"].n), sel_map(n, [e1])[0])))


@P.proof("ViewGraph::ViewGraph", FILES)
def _(c):
    ex = c.exec(fp="real")
    this, v = make(ex, NS + "ViewGraph")
    m = v.f["graph_map_"]
    K = ex.fresh(Int, "K")
    post(ex, "a new graph has no vertex", z3.And(m.size == 0, z3.Not(sel_map(m, [K])[0])))
    lo, hi = bounds(v)
    D = ex.num.const(1.7976931348623157e308)
    x = ex.fresh(lo[0].sort(), "x")
    for a in (0, 1):
        post(ex, "any first position becomes both bounds %d" % a, z3.Implies(
            z3.And(-D <= x, x <= D), z3.And(z3.If(x < lo[a], x, lo[a]) == x, z3.If(x > hi[a], x, hi[a]) == x)))


@P.proof("ViewGraph::GetWholeGraph", FILES)
def _(c):
    ex, this, v, m, K, J, has, item = graph(c)
    r = call(ex, "ViewGraph::GetWholeGraph", this, [])
    r = norm(ex.val(r))
    h, it = sel_map(r, [K])
    post(ex, "the copy holds the same vertices", z3.And(h == has, r.size == m.size, z3.Implies(has, eq(it, item))))
    frame(ex, "the graph stays", v, state_val(ex, this))


P.harness("C23.cc", ["back_end/view_graph.cc", "common/macro_defines.cc", "common/simple_time.cc"], time=3, cflags=("-Dcimg_display=0",))
