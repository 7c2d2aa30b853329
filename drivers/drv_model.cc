// Executes operations on the parts of models: fonts (which are not, but look the same), hierarchies, animations, meshes.
#include "shapes.hh"

#include <zenkit/Font.hh>
#include <zenkit/Model.hh>
#include <zenkit/ModelAnimation.hh>
#include <zenkit/ModelHierarchy.hh>
#include <zenkit/ModelMesh.hh>
#include <zenkit/MorphMesh.hh>
#include <zenkit/MultiResolutionMesh.hh>
#include <zenkit/SoftSkinMesh.hh>

#include <cmath>

template <typename V, typename F> static json each(V& v, F f) {
	json j = json::array();
	for (auto& x : v) j.push_back(f(x));
	return j;
}
static void set_box(zk::AxisAlignedBoundingBox& b, json const& j) { b.min = to_v3(j), b.max = to_v3(j, 3); }
static json v3s(std::vector<zk::Vec3> const& v) { return each(v, [](auto& x) { return v3(x); }); }
static std::vector<zk::Vec3> to_v3s(json const& j) {
	std::vector<zk::Vec3> v;
	for (auto& x : j) v.push_back(to_v3(x));
	return v;
}

static void put(zk::Font& o, json const& j) {
	o.name = to_str(j["name"]), o.height = unword(j["height"]);
	for (auto& g : j["glyphs"]) o.glyphs.push_back({g["w"], {{fl(g["uv"][0]), fl(g["uv"][1])}, {fl(g["uv"][2]), fl(g["uv"][3])}}});
}
static json show(zk::Font& o) {
	return {{"name", from_str(o.name)}, {"height", word(o.height)}, {"glyphs", each(o.glyphs, [](auto& g) {
		        return json {{"w", g.width}, {"uv", ws({g.uv[0].x, g.uv[0].y, g.uv[1].x, g.uv[1].y})}};
	        })}};
}

static void put(zk::ModelHierarchy& o, json const& j) {
	for (auto& n : j["nodes"]) {
		auto& x = o.nodes.emplace_back();
		x.name = to_str(n["name"]), x.parent_index = n["parent"];
		for (int i = 0; i < 16; ++i) x.transform.pointer()[i] = fl(n["m"][i]);
	}
	set_box(o.bbox, j["bbox"]), set_box(o.collision_bbox, j["cbox"]);
	o.root_translation = to_v3(j["root"]), o.checksum = unword(j["sum"]), o.source_path = to_str(j["path"]);
	set_date(o.source_date, j["date"]);
}
static json show(zk::ModelHierarchy& o) {
	json ns = each(o.nodes, [](auto& n) {
		json m = json::array();
		for (int i = 0; i < 16; ++i) m.push_back(jf(n.transform.pointer()[i]));
		return json {{"name", from_str(n.name)}, {"parent", n.parent_index}, {"m", m}};
	});
	return {{"nodes", ns}, {"bbox", box(o.bbox)}, {"cbox", box(o.collision_bbox)}, {"root", v3(o.root_translation)}, {"sum", word(o.checksum)}, {"date", show_date(o.source_date)}, {"path", from_str(o.source_path)}};
}

// Positions in 64ths, rotations in ten thousandths
static json show(zk::ModelAnimation& o) {
	auto f = [](float x, float s) { return static_cast<int>(std::lround(static_cast<double>(x) * s)); };
	json ss = each(o.samples, [&](auto& s) {
		return json {{"p", {f(s.position.x, 64), f(s.position.y, 64), f(s.position.z, 64)}}, {"q", {f(s.rotation.x, 10000), f(s.rotation.y, 10000), f(s.rotation.z, 10000), f(s.rotation.w, 10000)}}};
	});
	json es = each(o.events, [](auto& e) {
		json c = json::array(), v = json::array();
		for (auto& x : e.content) c.push_back(from_str(x));
		for (auto x : e.values) v.push_back(jf(x));
		return json {{"type", word(static_cast<uint32_t>(e.type))}, {"frame", word(e.frame)}, {"tag", from_str(e.tag)}, {"text", c}, {"vals", v}, {"prob", jf(e.probability)}};
	});
	return {{"name", from_str(o.name)}, {"next", from_str(o.next)}, {"layer", word(o.layer)}, {"frames", o.frame_count}, {"nodes", o.node_count}, {"fps", jf(o.fps)}, {"fpss", jf(o.fps_source)},
	        {"min", f(o.sample_position_min, 64)}, {"scale", f(o.sample_position_scale, 64)}, {"bbox", box(o.bbox)}, {"sum", word(o.checksum)}, {"path", from_str(o.source_path)},
	        {"date", show_date(o.source_date)}, {"script", from_str(o.source_script)}, {"samples", ss}, {"events", es}, {"idx", words(o.node_indices)}};
}
static void put(zk::ModelAnimation&, json const&) { throw std::logic_error("cannot be saved"); }

static void put(zk::MultiResolutionMesh& o, json const& j) {
	o.positions = to_v3s(j["pos"]), o.normals = to_v3s(j["nor"]);
	o.alpha_test = j["alpha"].get<int>();
	set_box(o.bbox, j["bbox"]);
	set_obb(o.obbox, j["obb"]);
	for (auto& s : j["subs"]) {
		auto& x = o.sub_meshes.emplace_back();
		set_material(x.mat, s["mat"]);
		o.materials.push_back(x.mat);
		for (auto& t : s["tri"]) x.triangles.push_back({{t[0], t[1], t[2]}});
		for (auto& t : s["wedges"]) x.wedges.push_back({to_v3(t["n"]), {fl(t["t"][0]), fl(t["t"][1])}, t["i"]});
		for (auto& t : s["colors"]) x.colors.push_back(fl(t));
		for (auto& t : s["tpi"]) x.triangle_plane_indices.push_back(t);
		for (auto& t : s["planes"]) x.triangle_planes.push_back({fl(t[0]), to_v3(t, 1)});
		for (auto& t : s["tedges"]) x.triangle_edges.push_back({{t[0], t[1], t[2]}});
		for (auto& t : s["edges"]) x.edges.push_back({{t[0], t[1]}});
		for (auto& t : s["scores"]) x.edge_scores.push_back(fl(t));
		for (auto& t : s["wmap"]) x.wedge_map.push_back(t);
	}
}
static json show(zk::MultiResolutionMesh& o) {
	json subs = each(o.sub_meshes, [](auto& s) {
		auto n = [](auto x) { return json(static_cast<int>(x)); };
		return json {{"mat", show_material(s.mat)},
		             {"tri", each(s.triangles, [](auto& t) { return json {t.wedges[0], t.wedges[1], t.wedges[2]}; })},
		             {"wedges", each(s.wedges, [](auto& t) { return json {{"n", v3(t.normal)}, {"t", ws({t.texture.x, t.texture.y})}, {"i", t.index}}; })},
		             {"colors", each(s.colors, jf)},
		             {"tpi", each(s.triangle_plane_indices, n)},
		             {"planes", each(s.triangle_planes, [](auto& t) { return ws({t.distance, t.normal.x, t.normal.y, t.normal.z}); })},
		             {"tedges", each(s.triangle_edges, [](auto& t) { return json {t.edges[0], t.edges[1], t.edges[2]}; })},
		             {"edges", each(s.edges, [](auto& t) { return json {t.edges[0], t.edges[1]}; })},
		             {"scores", each(s.edge_scores, jf)},
		             {"wmap", each(s.wedge_map, n)}};
	});
	return {{"pos", v3s(o.positions)}, {"nor", v3s(o.normals)}, {"subs", subs}, {"mats", each(o.materials, show_material)}, {"alpha", int(o.alpha_test)}, {"bbox", box(o.bbox)}, {"obb", show_obb(o.obbox)}};
}

static void put(zk::SoftSkinMesh& o, json const& j) {
	put(o.mesh, j["mesh"]);
	for (auto& b : j["boxes"]) set_obb(o.bboxes.emplace_back(), b);
	for (auto& n : j["wn"]) o.wedge_normals.push_back({to_v3(n["n"]), unword(n["i"])});
	for (auto& w : j["weights"]) {
		auto& x = o.weights.emplace_back();
		for (auto& e : w) x.push_back({fl(e["w"]), to_v3(e["p"]), e["n"]});
	}
	for (auto& n : j["nodes"]) o.nodes.push_back(static_cast<int32_t>(unword(n)));
}
static json show(zk::SoftSkinMesh& o) {
	return {{"mesh", show(o.mesh)}, {"boxes", each(o.bboxes, show_obb)}, {"wn", each(o.wedge_normals, [](auto& n) { return json {{"n", v3(n.normal)}, {"i", word(n.index)}}; })},
	        {"weights", each(o.weights, [](auto& w) { return each(w, [](auto& e) { return json {{"w", jf(e.weight)}, {"p", v3(e.position)}, {"n", e.node_index}}; }); })},
	        {"nodes", words(o.nodes)}};
}

static void put(zk::ModelMesh& o, json const& j) {
	o.checksum = unword(j["sum"]);
	for (auto& s : j["skins"]) put(o.meshes.emplace_back(), s);
	for (auto& a : j["atts"]) put(o.attachments[to_str(a["name"])], a["mesh"]);
}
static json show(zk::ModelMesh& o) {
	std::map<std::string, zk::MultiResolutionMesh*> m;
	for (auto& [k, v] : o.attachments) m[k] = &v;
	return {{"sum", word(o.checksum)}, {"skins", each(o.meshes, [](auto& s) { return show(s); })},
	        {"atts", each(m, [](auto& a) { return json {{"name", from_str(a.first)}, {"mesh", show(*a.second)}}; })}};
}

static void put(zk::Model& o, json const& j) { put(o.hierarchy, j["hier"]), put(o.mesh, j["mesh"]); }
static json show(zk::Model& o) { return {{"hier", show(o.hierarchy)}, {"mesh", show(o.mesh)}}; }

static void put(zk::MorphMesh&, json const&) { throw std::logic_error("cannot be saved"); }
static json show(zk::MorphMesh& o) {
	return {{"name", from_str(o.name)}, {"mesh", show(o.mesh)}, {"mpos", v3s(o.morph_positions)}, {"sources", each(o.sources, [](auto& s) { return json {{"date", show_date(s.file_date)}, {"name", from_str(s.file_name)}}; })},
	        {"anims", each(o.animations, [](auto& a) {
		         return json {{"name", from_str(a.name)}, {"layer", word(static_cast<uint32_t>(a.layer))}, {"t", ws({a.blend_in, a.blend_out, a.duration, a.speed})}, {"flags", a.flags},
		                      {"frames", a.frame_count}, {"verts", words(a.vertices)}, {"samples", v3s(a.samples)}};
	         })}};
}

struct ModelDriver : Driver {
	std::vector<std::byte> file;
	json made;
	void begin() override { file.clear(), made = {}; }

	template <typename T> static constexpr bool versioned = !std::is_same_v<T, zk::Font> && !std::is_same_v<T, zk::ModelHierarchy>;
	template <typename T> static constexpr bool saves = !std::is_same_v<T, zk::ModelAnimation> && !std::is_same_v<T, zk::MorphMesh>;

	template <typename T> void save(json const& op, json const& x) {
		if constexpr (saves<T>) {
			T o {};
			put(o, x);
			file.clear();
			auto w = zk::Write::to(&file);
			for (int i = 0; i < op["pad"].get<int>(); ++i) w->write_ubyte(0xEE);
			if constexpr (versioned<T>) o.save(w.get(), op["v"] == 1 ? zk::GameVersion::GOTHIC_1 : zk::GameVersion::GOTHIC_2);
			else o.save(w.get());
		}
	}
	template <typename T> void load(json const& op, json& ev) {
		auto b = file;
		auto after = to_bytes(op["after"]);
		b.insert(b.end(), after.begin(), after.end());
		auto r = zk::Read::from(&b);
		r->seek(op["pad"].get<int>(), zk::Whence::BEG);
		T o {};
		o.load(r.get());
		ev["out"] = show(o);
		ev["left"] = static_cast<int>(b.size() - r->tell());
	}
	template <typename T> void go(json const& op, json& ev) {
		if (op["op"] == "save") {
			if (op.contains("x")) made = op["x"];
			save<T>(op, made);
		} else {
			load<T>(op, ev);
			made = ev["out"];
		}
	}

	json step(json const& op) override {
		json ev = op;
		std::string o = op["op"], k = op["k"];
		try {
			ev["res"] = "ok";
			if (o == "file") file = to_bytes(op["bytes"]);
			else if (k == "font") go<zk::Font>(op, ev);
			else if (k == "hier") go<zk::ModelHierarchy>(op, ev);
			else if (k == "anim") go<zk::ModelAnimation>(op, ev);
			else if (k == "mrm") go<zk::MultiResolutionMesh>(op, ev);
			else if (k == "skin") go<zk::SoftSkinMesh>(op, ev);
			else if (k == "mmesh") go<zk::ModelMesh>(op, ev);
			else if (k == "model") go<zk::Model>(op, ev);
			else if (k == "morph") go<zk::MorphMesh>(op, ev);
			else ev["res"] = "?";
		} catch (std::exception const& e) {
			ev["res"] = typeid(e).name();
		}
		return ev;
	}
};

int main(int argc, char** argv) { return run_driver<ModelDriver>(argc, argv); }
