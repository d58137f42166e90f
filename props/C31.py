"""C31: the configuration file sets the options it names, and no others."""
from vf.driver import Property
from vf.loops import Cand
from vf.spec import *
from vf import xml
from props.filters import NATIVE

P = Property("C31")
FILES = ("builder/map_builder_options.cc",)
# section of the file: where it is, the options it sets (name in the file, field if named differently)
TABLE = {
    ("whole_options",): ("whole_options", "export_file_path map_package_path odom_calib_mode separate_output "
                         "output_direct_combined_map output_mrvm output_kitti_pose separate_step"),
    ("output_mrvm_settings",): ("output_mrvm_settings", "output_average output_rgb use_max_intensity prob_threshold "
                                "low_resolution high_resolution hit_prob miss_prob z_offset max_point_num_in_cell"),
    ("front_end_options",): ("front_end_options", "accumulate_cloud_num"),
    ("front_end_options", "scan_matcher_options"): ("front_end_options.scan_matcher_options", "type accepted_min_score"),
    ("front_end_options", "motion_filter"): ("front_end_options.motion_filter", "translation_range angle_range time_range"),
    ("front_end_options", "motion_compensation_options"): ("front_end_options.motion_compensation_options",
                                                           "enable use_average"),
    ("front_end_options", "imu_options"): ("front_end_options.imu_options", "use_imu=enabled type "
                                           "imu_frequency=frequency gravity_constant"),
    ("back_end_options", "submap_matcher_options"): ("back_end_options.submap_matcher_options",
                                                     "type accepted_min_score"),
    ("back_end_options", "submap_options"): ("back_end_options.submap_options", "frame_count enable_inner_mrvm "
                                             "enable_voxel_filter enable_random_sampleing random_sampling_rate "
                                             "voxel_size enable_disk_saving enable_check disk_saving_delay "
                                             "saving_name_prefix"),
    ("back_end_options", "isam_optimizer_options"): ("back_end_options.isam_optimizer_options", "use_odom use_gps "
                                                     "output_graph_pic enable_extrinsic_calib gps_factor_init_num "
                                                     "gps_factor_sample_step gps_factor_init_angle_rad"),
    ("back_end_options", "loop_detector_setting"): ("back_end_options.loop_detector_setting", "use_gps use_descriptor "
                                                    "output_matched_cloud trying_detect_loop_count "
                                                    "loop_ignore_threshold nearest_history_pos_num "
                                                    "max_close_loop_distance max_close_loop_z_distance "
                                                    "m2dp_match_score accept_scan_match_score"),
    ("map_package_options",): ("map_package_options", "enable border_offset piece_width cloud_file_prefix "
                               "descript_filename"),
}


P.assumptions.append("a file that holds a document can be opened; a document is fixed and finite")
P.assumptions.append("no number in the file is NaN")
P.assumptions.append("the harness takes the place of MapBuilder's construction and of InitialiseInside (recording stand-ins)")
P.assumptions.append("InitialiseInside leaves the options alone (contract; the body starts threads)")
ROOT = ("edward_liu", "static_mapping")
S = str_term


def node(doc, path):
    for p in path:
        doc = xml.child(doc, S(p))
    return doc


def get(v, path):
    for p in path.split("."):
        v = v.f[p]
    return v


def put_field(v, path, x):
    p = path.split(".")
    return x if not path else v.set(p[0], put_field(v.f[p[0]], ".".join(p[1:]), x))


def value(a, like):
    """Value of attribute a in the type of the option."""
    s = like.sort()
    if s == Str:
        return xml.attr_str(a)
    if s == Bool:
        return xml.attr_num(a, Bool, "bool")
    if s == Int:
        return xml.attr_int(a)
    return xml.attr_num(a, s, "number")


def setup(c):
    ex = c.exec()
    ex.types.stream_types = "files"
    opens = z3.Function("opens", Str, Bool)
    ex.on_open = lambda name, mode: opens(name)
    ex.contracts["CreateDir"] = lambda ex, this, args, n: z3.Function("dir_created", Str, Bool)(norm(ex.val(args[0])))
    ex.assumed.add("CreateDir (whether it succeeds depends on the name)")
    this, v = obj(ex, "static_map::MapBuilder", "builder")
    name = ex.fresh(Str, "file")
    sm = node(xml.document(name), ROOT)
    usable = z3.And(name != null_str(), name != S(""), xml.loads(name) != 0,
                    node(xml.document(name), ROOT[:1]) != 0, sm != 0)
    ex.assume(z3.Implies(xml.loads(name) != 0, opens(name)))
    # parts of absent nodes are absent
    for path in [p for p in TABLE] + [("front_end_options",), ("back_end_options",), ("filters",)]:
        for k in range(1, len(path) + 1):
            ex.assume(z3.Implies(node(sm, path[:k - 1]) == 0, node(sm, path[:k]) == 0))
        for o in TABLE.get(path, ("", ""))[1].split():
            ex.assume(z3.Implies(node(sm, path) == 0, xml.attr(node(sm, path), S(o.split("=")[0])) == 0))
    ghost = {}
    ghost["started"] = Ref(ex.new_root(z3.IntVal(0), "started"))
    ghost["options"] = Ref(ex.new_root(norm(v.f["options_"]), "options_at_start"))
    ghost["filters"] = Ref(ex.new_root(z3.IntVal(0), "filters_from"))

    def inside(ex, this, args, n):
        ex.write(ghost["started"], ex.read(ghost["started"]) + 1)
        ex.write(ghost["options"], norm(ex.read(this).f["options_"]))
        return z3.IntVal(0)

    def filters(ex, this, args, n):
        ex.write(ghost["filters"], ex.val(args[0]).f["id"])
        return None
    ex.contracts["MapBuilder::InitialiseInside"] = inside
    ex.contracts["Factory::InitFromXmlNode"] = filters
    ex.assumed.add("Factory::InitFromXmlNode (contract, see C09)")
    return ex, this, v, name, sm, usable, ghost


def expected(ex, o, sm):
    """The options after reading the document."""
    res = o
    for path, (where, names) in TABLE.items():
        for nm in names.split():
            nm, _, field = nm.partition("=")
            f = where + "." + (field or nm)
            a = xml.attr(node(sm, path), S(nm))
            old = get(o, f)
            new = z3.If(a != 0, value(a, old), old)
            if f in PATHS:
                last = z3.Function("char_at", Str, Int, Int)(new, z3.Function("strlen", Str, Int)(new) - 1)
                new = z3.If(z3.And(new != S(""), last != ord("/")), z3.Function("strcat", Str, Str, Str)(new, S("/")), new)
            res = put_field(res, f, new)
    return res


PATHS = ("whole_options.export_file_path", "whole_options.map_package_path")


def raw(o, sm, f):
    """Name of a directory before the closing slash is added."""
    sec, nm = f.split(".")
    a = xml.attr(node(sm, (sec,)), S(nm))
    return z3.If(a != 0, xml.attr_str(a), get(o, f))


@P.proof("MapBuilder::Initialise", FILES)
def _(c):
    ex, this, v, name, sm, usable, ghost = setup(c)
    o = norm(v.f["options_"])
    want = expected(ex, o, sm)
    # the first set of matcher parameters for the chosen matcher
    for side, m in (("front_end_options", "scan_matcher_options"), ("back_end_options", "submap_matcher_options")):
        f = side + "." + m
        mn = node(sm, (side, m))
        t = get(want, f + ".type")
        old = get(o, f + ".type")
        ex.assume(z3.And(old >= 0, old < 2 ** 31))
        sib = Fold(ex, "sibling_" + side, xml.child(mn, S("registrator_options")),
                   lambda s, k: xml.sibling(s, S("registrator_options")))
        ex.folds.append(sib)

        def stop(x, t=t):
            a = xml.attr(x, S("type"))
            return z3.Or(x == 0, z3.If(a != 0, xml.attr_int(a), 0) == t)
        K = ex.fresh(Int, "found")
        j = z3.Int("j")
        ex.assume(z3.And(K >= 0, stop(sib.at(K)), forall([j], z3.Implies(z3.And(0 <= j, j < K), z3.Not(stop(sib.at(j)))),
                                                         sib.at(j))))
        inner = xml.child(mn, S("inner_filters"))
        ex.assume(z3.Implies(mn == 0, z3.And(inner == 0, sib.at(z3.IntVal(0)) == 0)))
        old = get(o, f)
        want = put_field(want, f + ".inner_filters_node.id", z3.If(inner != 0, inner, old.f["inner_filters_node"].f["id"]))
        want = put_field(want, f + ".registrator_options_node.id",
                         z3.If(sib.at(K) != 0, sib.at(K), old.f["registrator_options_node"].f["id"]))

        def cands(ex, info, sib=sib, stop=stop):
            res = []
            for key, old, new in info.hv:
                if new.sort() != Int:
                    continue
                res.append(Cand("at the next set of parameters", lambda st, i, key=key: ex.leaf_at(st, key) == sib.at(i)))
            jj = ex.fresh(Int, "j")
            res.append(Cand("earlier sets are for others", lambda st, i: forall(
                [jj], z3.Implies(z3.And(0 <= jj, jj < i), z3.Not(stop(sib.at(jj)))), sib.at(jj))))
            return res
        ex.extra_cands.append(cands)
    call(ex, "MapBuilder::Initialise", this, [name])
    mrvm, loop = get(want, "output_mrvm_settings"), get(want, "back_end_options.loop_detector_setting")
    made = z3.Function("dir_created", Str, Bool)
    aborts_iff(ex, "a directory cannot be made or the options contradict each other", z3.And(usable, z3.Or(
        *[z3.Not(made(raw(o, sm, f))) for f in PATHS],
        z3.Not(z3.Or(loop.f["use_gps"], loop.f["use_descriptor"])),
        get(want, "front_end_options.accumulate_cloud_num") < 1, mrvm.f["max_point_num_in_cell"] < 1,
        mrvm.f["hit_prob"] <= z3.Q(1, 2), mrvm.f["miss_prob"] >= z3.Q(1, 2))))
    for s in ex.aborts:
        ex.obls.append(Obligation("nothing is started with options that are refused",
                                  ex.nav(ex.root_val(s, ghost["started"].loc.root), ()) == 0, list(s.pc)))
    reach(ex, "initialise")
    r = norm(state_val(ex, this))
    got = r.f["options_"]
    for path, g in walk("", got):
        post(ex, "option %s" % path[1:], g == z3.If(usable, get(want, path[1:]), get(o, path[1:])))
    post(ex, "started once", state_val(ex, ghost["started"]) == 1)
    post(ex, "started with these options", eq(norm(state_val(ex, ghost["options"])), got))
    post(ex, "filters of the file", state_val(ex, ghost["filters"]) == z3.If(usable, node(sm, ("filters",)), 0))


def walk(path, v):
    if isinstance(v, Struct):
        for k, x in v.f.items():
            yield from walk(path + "." + k, x)
    elif z3.is_expr(v):
        yield path, v


P.harness("C31.cc", ["builder/map_builder_options.cc", "builder/data/data_collector.cc", "builder/data/data_types.cc"] + NATIVE +
          ["common/*.cc"], time=5, cflags=["-fno-access-control"])
