// Vectors, boxes, dates and materials as JSON.
#pragma once
#include "reflect.hh"

#include <zenkit/Boxes.hh>
#include <zenkit/Date.hh>

inline json ws(std::initializer_list<float> l) {
	json j = json::array();
	for (auto f : l) j.push_back(jf(f));
	return j;
}
inline json v3(zk::Vec3 const& v) { return ws({v.x, v.y, v.z}); }
inline float fl(json const& j) { return bitsf(unword(j)); }
inline zk::Vec3 to_v3(json const& j, int o = 0) { return {fl(j[o]), fl(j[o + 1]), fl(j[o + 2])}; }
template <typename V> inline json words(V const& v) {
	json j = json::array();
	for (auto x : v) j.push_back(word(static_cast<uint32_t>(x)));
	return j;
}
inline std::vector<uint32_t> unwords(json const& j) {
	std::vector<uint32_t> v;
	for (auto& x : j) v.push_back(unword(x));
	return v;
}
inline json box(zk::AxisAlignedBoundingBox const& b) { return ws({b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z}); }

inline void set_obb(zk::OrientedBoundingBox& o, json const& j) {
	o.center = to_v3(j["center"]), o.half_width = to_v3(j["half"]);
	for (int i = 0; i < 3; ++i) o.axes[i] = to_v3(j["axes"], i * 3);
	o.children.resize(j["kids"].size());
	for (size_t i = 0; i < o.children.size(); ++i) set_obb(o.children[i], j["kids"][i]);
}
inline json show_obb(zk::OrientedBoundingBox const& o) {
	json k = json::array(), a = json::array();
	for (auto& c : o.children) k.push_back(show_obb(c));
	for (auto& x : o.axes) a.push_back(jf(x.x)), a.push_back(jf(x.y)), a.push_back(jf(x.z));
	return {{"center", v3(o.center)}, {"axes", a}, {"half", v3(o.half_width)}, {"kids", k}};
}

inline json show_date(zk::Date const& d) { return {word(d.year), d.month, d.day, d.hour, d.minute, d.second}; }
inline void set_date(zk::Date& d, json const& j) { d.year = unword(j[0]), d.month = j[1], d.day = j[2], d.hour = j[3], d.minute = j[4], d.second = j[5]; }
inline json show_material(zk::Material& m) {
	Pool pool;
	json o = json::object();
	Get g {pool, o};
	visit(g, m);
	o.erase("scale_txt"), o.erase("dir_txt");
	return o;
}
inline void set_material(zk::Material& m, json const& j) {
	Pool pool;
	Set s {pool, j};
	visit(s, m);
}
