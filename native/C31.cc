#include <sys/stat.h>

#include <map>

#include "back_end/isam_optimizer.h"
#include "back_end/loop_detector.h"
#include "builder/data/data_collector.h"
#include "builder/map_builder.h"
#include "common.h"
using namespace vf;
using namespace static_map;  // NOLINT

// Stand-ins: building the rest of the mapper from the options starts threads.
static int starts = 0;
static bool refused = false;  // the options contradict each other
static std::string started_with;
static std::string All(const MapBuilderOptions& o);
namespace static_map {
MapBuilder::MapBuilder() {}
MapBuilder::~MapBuilder() {}
int MapBuilder::InitialiseInside() {
  if (refused) _exit(0);
  ++starts;
  started_with = All(options_);
  return 0;
}
}  // namespace static_map

struct Option {
  const char* section;
  const char* name;
  char kind;  // b: bool, i: int, f: number, s: text, p: directory
  std::function<std::string(const MapBuilderOptions&)> get;
};
static std::string Str(bool b) { return b ? "true" : "false"; }
static std::string Str(int i) { return std::to_string(i); }
static std::string Str(const std::string& s) { return s; }
static std::string Str(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.9g", d);
  return b;
}
static std::string Str(float d) { return Str(static_cast<double>(d)); }
#define O(SECTION, NAME, KIND, FIELD) \
  { SECTION, NAME, KIND, [](const MapBuilderOptions& o) { return Str(o.FIELD); } }
#define E(SECTION, NAME, FIELD) \
  { SECTION, NAME, 'i', [](const MapBuilderOptions& o) { return Str(static_cast<int>(o.FIELD)); } }
#define FR "front_end_options/"
#define BK "back_end_options/"
static const std::vector<Option> table = {
    O("whole_options", "export_file_path", 'p', whole_options.export_file_path),
    O("whole_options", "map_package_path", 'p', whole_options.map_package_path),
    E("whole_options", "odom_calib_mode", whole_options.odom_calib_mode),
    O("whole_options", "separate_output", 'b', whole_options.separate_output),
    O("whole_options", "output_direct_combined_map", 'b', whole_options.output_direct_combined_map),
    O("whole_options", "output_mrvm", 'b', whole_options.output_mrvm),
    O("whole_options", "output_kitti_pose", 'b', whole_options.output_kitti_pose),
    O("whole_options", "separate_step", 'i', whole_options.separate_step),
    O("output_mrvm_settings", "output_average", 'b', output_mrvm_settings.output_average),
    O("output_mrvm_settings", "output_rgb", 'b', output_mrvm_settings.output_rgb),
    O("output_mrvm_settings", "use_max_intensity", 'b', output_mrvm_settings.use_max_intensity),
    O("output_mrvm_settings", "prob_threshold", 'f', output_mrvm_settings.prob_threshold),
    O("output_mrvm_settings", "low_resolution", 'f', output_mrvm_settings.low_resolution),
    O("output_mrvm_settings", "high_resolution", 'f', output_mrvm_settings.high_resolution),
    O("output_mrvm_settings", "hit_prob", 'f', output_mrvm_settings.hit_prob),
    O("output_mrvm_settings", "miss_prob", 'f', output_mrvm_settings.miss_prob),
    O("output_mrvm_settings", "z_offset", 'f', output_mrvm_settings.z_offset),
    O("output_mrvm_settings", "max_point_num_in_cell", 'i', output_mrvm_settings.max_point_num_in_cell),
    O("front_end_options", "accumulate_cloud_num", 'i', front_end_options.accumulate_cloud_num),
    E(FR "scan_matcher_options", "type", front_end_options.scan_matcher_options.type),
    O(FR "scan_matcher_options", "accepted_min_score", 'f', front_end_options.scan_matcher_options.accepted_min_score),
    O(FR "motion_filter", "translation_range", 'f', front_end_options.motion_filter.translation_range),
    O(FR "motion_filter", "angle_range", 'f', front_end_options.motion_filter.angle_range),
    O(FR "motion_filter", "time_range", 'f', front_end_options.motion_filter.time_range),
    O(FR "motion_compensation_options", "enable", 'b', front_end_options.motion_compensation_options.enable),
    O(FR "motion_compensation_options", "use_average", 'b', front_end_options.motion_compensation_options.use_average),
    O(FR "imu_options", "use_imu", 'b', front_end_options.imu_options.enabled),
    E(FR "imu_options", "type", front_end_options.imu_options.type),
    O(FR "imu_options", "imu_frequency", 'f', front_end_options.imu_options.frequency),
    O(FR "imu_options", "gravity_constant", 'f', front_end_options.imu_options.gravity_constant),
    E(BK "submap_matcher_options", "type", back_end_options.submap_matcher_options.type),
    O(BK "submap_matcher_options", "accepted_min_score", 'f', back_end_options.submap_matcher_options.accepted_min_score),
    O(BK "submap_options", "frame_count", 'i', back_end_options.submap_options.frame_count),
    O(BK "submap_options", "enable_inner_mrvm", 'b', back_end_options.submap_options.enable_inner_mrvm),
    O(BK "submap_options", "enable_voxel_filter", 'b', back_end_options.submap_options.enable_voxel_filter),
    O(BK "submap_options", "enable_random_sampleing", 'b', back_end_options.submap_options.enable_random_sampleing),
    O(BK "submap_options", "random_sampling_rate", 'f', back_end_options.submap_options.random_sampling_rate),
    O(BK "submap_options", "voxel_size", 'f', back_end_options.submap_options.voxel_size),
    O(BK "submap_options", "enable_disk_saving", 'b', back_end_options.submap_options.enable_disk_saving),
    O(BK "submap_options", "enable_check", 'b', back_end_options.submap_options.enable_check),
    O(BK "submap_options", "disk_saving_delay", 'i', back_end_options.submap_options.disk_saving_delay),
    O(BK "submap_options", "saving_name_prefix", 's', back_end_options.submap_options.saving_name_prefix),
    O(BK "isam_optimizer_options", "use_odom", 'b', back_end_options.isam_optimizer_options.use_odom),
    O(BK "isam_optimizer_options", "use_gps", 'b', back_end_options.isam_optimizer_options.use_gps),
    O(BK "isam_optimizer_options", "output_graph_pic", 'b', back_end_options.isam_optimizer_options.output_graph_pic),
    O(BK "isam_optimizer_options", "enable_extrinsic_calib", 'b', back_end_options.isam_optimizer_options.enable_extrinsic_calib),
    O(BK "isam_optimizer_options", "gps_factor_init_num", 'i', back_end_options.isam_optimizer_options.gps_factor_init_num),
    O(BK "isam_optimizer_options", "gps_factor_sample_step", 'i', back_end_options.isam_optimizer_options.gps_factor_sample_step),
    O(BK "isam_optimizer_options", "gps_factor_init_angle_rad", 'f', back_end_options.isam_optimizer_options.gps_factor_init_angle_rad),
    O(BK "loop_detector_setting", "use_gps", 'b', back_end_options.loop_detector_setting.use_gps),
    O(BK "loop_detector_setting", "use_descriptor", 'b', back_end_options.loop_detector_setting.use_descriptor),
    O(BK "loop_detector_setting", "output_matched_cloud", 'b', back_end_options.loop_detector_setting.output_matched_cloud),
    O(BK "loop_detector_setting", "trying_detect_loop_count", 'i', back_end_options.loop_detector_setting.trying_detect_loop_count),
    O(BK "loop_detector_setting", "loop_ignore_threshold", 'i', back_end_options.loop_detector_setting.loop_ignore_threshold),
    O(BK "loop_detector_setting", "nearest_history_pos_num", 'i', back_end_options.loop_detector_setting.nearest_history_pos_num),
    O(BK "loop_detector_setting", "max_close_loop_distance", 'f', back_end_options.loop_detector_setting.max_close_loop_distance),
    O(BK "loop_detector_setting", "max_close_loop_z_distance", 'f', back_end_options.loop_detector_setting.max_close_loop_z_distance),
    O(BK "loop_detector_setting", "m2dp_match_score", 'f', back_end_options.loop_detector_setting.m2dp_match_score),
    O(BK "loop_detector_setting", "accept_scan_match_score", 'f', back_end_options.loop_detector_setting.accept_scan_match_score),
    O("map_package_options", "enable", 'b', map_package_options.enable),
    O("map_package_options", "border_offset", 'f', map_package_options.border_offset),
    O("map_package_options", "piece_width", 'f', map_package_options.piece_width),
    O("map_package_options", "cloud_file_prefix", 's', map_package_options.cloud_file_prefix),
    O("map_package_options", "descript_filename", 's', map_package_options.descript_filename),
};
static std::string All(const MapBuilderOptions& o) {
  std::string r;
  for (auto& t : table) r += t.get(o) + "|";
  return r;
}

struct Matcher {
  bool inner = false;
  std::vector<int> types;  // of the sets of parameters given
};
static std::string Matcher2Xml(const Matcher& m, const std::string& side) {
  std::string r;
  if (m.inner) r += "<inner_filters tag=\"" + side + "\"/>";
  for (size_t i = 0; i < m.types.size(); ++i)
    r += "<registrator_options type=\"" + Str(m.types[i]) + "\" tag=\"" + side + Str(static_cast<int>(i)) + "\"/><other/>";
  return r;
}
static void CheckMatcher(const registrator::MatcherOptions& o, const Matcher& m, bool given, const std::string& side) {
  std::string inner = o.inner_filters_node.attribute("tag").as_string("none");
  EXPECT(inner == (given && m.inner ? side : "none"), "%s: inner filters of %s", side.c_str(), inner.c_str());
  std::string want = "none", got = o.registrator_options_node.attribute("tag").as_string("none");
  for (size_t i = 0; given && i < m.types.size() && want == "none"; ++i)
    if (m.types[i] == o.type) want = side + Str(static_cast<int>(i));
  EXPECT(got == want, "%s: matcher parameters %s, expected %s", side.c_str(), got.c_str(), want.c_str());
}

int main() {
  setup();
  std::cout.setstate(std::ios::failbit);
  MapBuilderOptions fresh;
  while (more()) {
    double density = in(0, 4) / 4.;
    std::map<std::string, std::map<std::string, std::string>> doc;
    std::map<std::string, bool> sections;
    for (auto& t : table) {
      if (!chance(density)) continue;
      std::string v, k = t.name;
      if (t.kind == 'b') v = Str(chance(0.5));
      if (t.kind == 'i') v = Str(static_cast<int>(in(-3, 40)));
      if (t.kind == 'f') v = Str(in(-400, 400) / 8.);
      if (t.kind == 's') v = chance(0.1) ? "" : "name_" + Str(static_cast<int>(in(0, 99)));
      if (t.kind == 'p') v = chance(0.1) ? "" : "dir_" + Str(static_cast<int>(in(0, 5))) + (chance(0.5) ? "/" : "");
      if (k == "type") v = Str(static_cast<int>(in(0, 6)));
      if (k == "odom_calib_mode") v = Str(static_cast<int>(in(0, 2)));
      if (k == "hit_prob") v = Str(in(5, 7) / 8.);
      if (k == "miss_prob") v = Str(in(0, 3) / 8.);
      if (k == "accumulate_cloud_num" || k == "max_point_num_in_cell") v = Str(static_cast<int>(in(1, 40)));
      doc[t.section][t.name] = v;
    }
    auto& loop = doc[BK "loop_detector_setting"];
    if (loop["use_gps"] != "true") loop["use_descriptor"] = "true";
    if (loop["use_gps"].empty()) loop.erase("use_gps");
    // now and then options that contradict each other
    int bad = chance(0.15) ? in(1, 6) : 0;
    if (bad == 1) loop["use_gps"] = loop["use_descriptor"] = "false";
    if (bad == 2) doc["front_end_options"]["accumulate_cloud_num"] = "0";
    if (bad == 3) doc["output_mrvm_settings"]["hit_prob"] = "0.5";
    if (bad == 4) doc["output_mrvm_settings"]["miss_prob"] = "0.5";
    if (bad == 5) doc["output_mrvm_settings"]["max_point_num_in_cell"] = "0";
    if (bad == 6) doc["whole_options"][chance(0.5) ? "export_file_path" : "map_package_path"] = "file.txt/below";
    std::ofstream("file.txt") << "text";
    Matcher ms[2];
    bool given[2];
    for (int s = 0; s < 2; ++s) {
      ms[s].inner = chance(0.5);
      for (int k = in(0, 4); k > 0; --k) ms[s].types.push_back(in(0, 6));
      std::string sec = s ? BK "submap_matcher_options" : FR "scan_matcher_options";
      given[s] = doc.count(sec) || chance(0.5);
      if (given[s]) doc[sec];
    }
    int filters = in(0, 3);
    // the text
    auto attrs = [&](const std::string& sec) {
      std::string r;
      for (auto& a : doc[sec]) r += " " + a.first + "=\"" + a.second + "\"";
      return r;
    };
    auto section = [&](const std::string& sec, const std::string& inner) {
      std::string n = sec.substr(sec.find('/') == std::string::npos ? 0 : sec.find('/') + 1);
      return "<" + n + attrs(sec) + ">" + inner + "</" + n + ">\n";
    };
    std::string x;
    std::vector<std::string> parts;
    for (const char* side : {"front_end_options", "back_end_options"}) {
      std::string inner;
      bool any = doc.count(side) > 0;
      std::map<std::string, bool> subs;
      for (auto& d : doc)
        if (d.first.find(std::string(side) + "/") == 0) subs[d.first] = true;
      for (auto& d : subs) {
        any = true;
        bool scan = d.first == FR "scan_matcher_options", sub = d.first == BK "submap_matcher_options";
        inner += section(d.first, scan ? Matcher2Xml(ms[0], "scan") : sub ? Matcher2Xml(ms[1], "submap") : "");
      }
      if (any) parts.push_back(section(side, inner));
    }
    for (const char* s : {"whole_options", "output_mrvm_settings", "map_package_options"})
      if (doc.count(s)) parts.push_back(section(s, ""));
    if (filters) {
      std::string f;
      for (int k = 1; k < filters; ++k) f += "<filter name=\"Range\"></filter>";
      parts.push_back("<filters>" + f + "</filters>");
    }
    for (size_t k = parts.size(); k > 1; --k) std::swap(parts[k - 1], parts[in(0, k - 1)]);
    for (auto& p : parts) x += p;
    // now and then a file that cannot be used
    int use = chance(0.2) ? in(1, 6) : 0;
    std::string text = use == 3 ? "<edward_liu><static_mapping>" + x : use == 4 ? "<edward><static_mapping>" + x + "</static_mapping></edward>"
                     : use == 5 ? "<edward_liu><mapping>" + x + "</mapping></edward_liu>"
                                : "<edward_liu><static_mapping>" + x + "</static_mapping></edward_liu>";
    { std::ofstream("config.xml") << text; }
    const char* file = use == 1 ? "" : use == 2 ? "missing.xml" : use == 6 ? nullptr : "config.xml";
    at("file %s, text: %s", file ? file : "(none)", text.c_str());
    MapBuilder* b = new MapBuilder;  // never deleted: parts are stand-ins
    refused = !use && bad;
    if (refused) {
      EXPECT(aborts([&] { b->Initialise(file); }), "accepted though the options contradict each other (%d)", bad);
      continue;
    }
    starts = 0;
    const MapBuilderOptions& o = b->Initialise(file);
    EXPECT(starts == 1, "started %d times", starts);
    EXPECT(started_with == All(o), "options changed after they were used");
    for (auto& t : table) {
      std::string want = t.get(fresh), got = t.get(o);
      bool named = !use && doc.count(t.section) && doc[t.section].count(t.name);
      if (named) want = doc[t.section][t.name];
      if (t.kind == 'p' && !use && !want.empty() && want.back() != '/') want += "/";
      EXPECT(got == want, "%s %s is %s, expected %s (%s)", t.section, t.name, got.c_str(), want.c_str(), named ? "given" : "default");
    }
    if (!use) {
      CheckMatcher(o.front_end_options.scan_matcher_options, ms[0], given[0], "scan");
      CheckMatcher(o.back_end_options.submap_matcher_options, ms[1], given[1], "submap");
    }
    size_t nf = b->filter_factory_.filters_.size();
    EXPECT(nf == (use || !filters ? 0u : filters - 1u), "%zu filters", nf);
  }
  return done();
}
