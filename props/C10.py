"""C10: filter configuration."""
from vf.driver import Property
from vf.loops import Cand
from vf.spec import *
from vf import xml
from props.filters import NS, FILES, NATIVE

P = Property("C10")
P.assumptions.append("the parameter nodes of a configuration form a finite list")
P.assumptions.append("GetName gives the registered name of the filter's class (run-time type information, checked by the harness only)")

PARAMS = {
    "Range": {"min_range": "min_range_", "max_range": "max_range_"},
    "AxisRange": {"min": "min_", "max": "max_", "axis_index": "axis_index_"},
    "BoundingBoxRemoval": {"%s_%s" % (m, a): "%s_%s_" % (m, a) for m in ("min", "max") for a in "xyz"},
    "RandomSampler": {"sampling_rate": "sampling_rate_"},
    "VoxelGrid": {"voxel_size": "voxel_size_"},
}
SRC = dict(FILES, VoxelGrid=("pre_processors/filter_voxel_grid.cc", "pre_processors/filter_interface.cc"))


def valid(N, cls, f):
    if cls == "AxisRange":
        return z3.And(N.lt(f["min_"], f["max_"]), f["axis_index_"] >= 0, f["axis_index_"] <= 2)
    if cls == "BoundingBoxRemoval":
        return z3.And(*[N.lt(f["min_%s_" % a], f["max_%s_" % a]) for a in "xyz"])
    if cls == "RandomSampler":
        v = f["sampling_rate_"]
        return z3.And(N.le(N.const(0.0, "float"), v), N.le(v, N.const(1.0, "float")))
    if cls == "VoxelGrid":
        return N.lt(N.const(1e-6, "double"), N.cast(f["voxel_size_"], "float", "double"))
    return z3.BoolVal(True)


def unit(cls):
    @P.proof("%s::InitFromXmlNode" % cls, SRC[cls])
    def _(c):
        ex = c.exec(fp="uf")
        N = ex.num
        ex.map_known = True
        this, v = make(ex, NS + cls)
        fields = PARAMS[cls]
        for f in fields.values():
            v = v.set(f, ex.fresh(v.f[f].sort(), f))
        put(ex, this, v)
        node, nv = obj(ex, "pugi::xml_node", "node")
        nid = nv.f["id"]
        lit = lambda s: norm(StrLit(s))
        ex.contracts["Interface::GetName"] = lambda ex, this, args, n: lit(cls)

        kids = Fold(ex, "param", xml.child(nid, lit("param")), lambda s, k: xml.sibling(s, lit("param")))
        ex.folds.append(kids)
        cnt = ex.fresh(Int, "params")
        j = z3.Int("j")
        ex.assume(z3.And(cnt >= 0, kids.at(cnt) == 0))
        ex.assume(forall([j], z3.Implies(z3.And(0 <= j, j < cnt), kids.at(j) != 0), kids.at(j)))
        text = lambda a: z3.If(a != 0, xml.attr_str(a), lit(""))
        name = lambda k: text(xml.attr(kids.at(k), lit("name")))
        typ = lambda k: xml.attr(kids.at(k), lit("type"))
        is_int = lambda k: xml.attr_int(typ(k)) == 0
        num = lambda k: xml.text_num(kids.at(k), ex.types.fsort("float"), "float")
        integ = lambda k: xml.text_int(kids.at(k))
        good = lambda k: z3.And(z3.Or(*[name(k) == lit(p) for p in fields]), typ(k) != 0,
                                z3.Or(is_int(k), xml.attr_int(typ(k)) == 1))

        def value(f, k):
            if v.f[f].sort() == Int:
                return z3.If(is_int(k), integ(k), N.cast(num(k), "float", "int"))
            return z3.If(is_int(k), N.cast(integ(k), "int", "float"), num(k))

        def step(s, k):
            return Struct("params", {f: z3.If(name(k) == lit(p), value(f, k), s.f[f]) for p, f in fields.items()})
        st = Fold(ex, "values", Struct("params", {f: v.f[f] for f in fields.values()}), step)
        ex.folds.append(st)

        def cands(ex, info):
            res = []
            root = this.loc.root
            for f in fields.values():
                res.append(Cand("parameter " + f, lambda s, i, f=f: ex.root_val(s, root).f[f] == st.at(i).f[f]))
            for r, r0 in info.S0.roots.items():
                if isinstance(r0, Struct) and r0.cls == "xml_node" and r != node.loc.root:
                    res.append(Cand("node " + r, lambda s, i, r=r: ex.root_val(s, r).f["id"] == kids.at(i)))
            res.append(Cand("within the list", lambda s, i: i <= cnt))
            res.append(Cand("parameters so far are known", lambda s, i: forall(
                [j], z3.Implies(z3.And(0 <= j, j < i), good(j)), kids.at(j))))
            return res
        ex.extra_cands.append(cands)
        r = call(ex, "Interface::InitFromXmlNode", this, [node])
        w = state_val(ex, this)
        match = text(xml.attr(nid, lit("name"))) == lit(cls)
        bad = z3.Exists([j], z3.And(0 <= j, j < cnt, z3.Not(good(j))))
        aborts_iff(ex, "the node is no filter node or an unknown parameter is given",
                   z3.Or(xml.node_name(nid) != lit("filter"), z3.And(match, bad)))
        reach(ex, "initialising", match)
        for p, f in fields.items():
            post(ex, "%s is the last given value or as before" % p,
                 w.f[f] == z3.If(match, st.at(cnt).f[f], v.f[f]))
        post(ex, "success means named and valid", r == z3.And(match, valid(N, cls, {f: w.f[f] for f in fields.values()})))
        post(ex, "no unknown parameter is accepted", z3.Implies(match, forall(
            [j], z3.Implies(z3.And(0 <= j, j < cnt), good(j)), kids.at(j))))
        frame(ex, "nothing else changes", v, w, tuple(fields.values()))


for cls in PARAMS:
    unit(cls)

P.harness("C10.cc", NATIVE, time=4)
