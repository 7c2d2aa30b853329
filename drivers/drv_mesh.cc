// Executes operations on BSP trees and meshes, alone and inside of worlds.
#include "shapes.hh"

#include <zenkit/Mesh.hh>
#include <zenkit/Texture.hh>
#include <zenkit/world/BspTree.hh>

// ---- trees
static int add_node(zk::BspTree& t, json const& n, int parent) {
	int me = static_cast<int>(t.nodes.size());
	bool leaf = n["front"].empty() && n["back"].empty();
	{
		auto& x = t.nodes.emplace_back();
		x.bbox.min = to_v3(n["bbox"]), x.bbox.max = to_v3(n["bbox"], 3);
		x.polygon_index = n["pi"], x.polygon_count = n["pc"], x.parent_index = parent, x.lod = n["lod"];
		x.plane.x = fl(n["plane"][0]), x.plane.y = fl(n["plane"][1]), x.plane.z = fl(n["plane"][2]), x.plane.w = fl(n["plane"][3]);
	}
	if (leaf) t.leaf_node_indices.push_back(me);
	for (auto& k : n["front"]) { auto i = add_node(t, k, me); t.nodes[me].front_index = i; }
	for (auto& k : n["back"]) { auto i = add_node(t, k, me); t.nodes[me].back_index = i; }
	return me;
}

static void set_tree(zk::BspTree& t, json const& j) {
	t = zk::BspTree {};
	t.mode = static_cast<zk::BspTreeType>(j["mode"].get<int>());
	t.polygon_indices = unwords(j["polys"]);
	for (auto& p : j["lights"]) t.light_points.push_back(to_v3(p));
	for (auto& s : j["sectors"]) t.sectors.push_back({to_str(s["name"]), unwords(s["nodes"]), unwords(s["portals"])});
	t.portal_polygon_indices = unwords(j["portals"]);
	for (auto& r : j["root"]) add_node(t, r, -1);
}

static json show_tree(zk::BspTree const& t) {
	json j = {{"mode", static_cast<int>(t.mode)}, {"polys", words(t.polygon_indices)}, {"leaf_polys", words(t.leaf_polygons)}, {"lights", json::array()}, {"sectors", json::array()},
	          {"portals", words(t.portal_polygon_indices)}, {"nodes", json::array()}, {"leafs", json::array()}};
	for (auto& p : t.light_points) j["lights"].push_back(v3(p));
	for (auto& s : t.sectors) j["sectors"].push_back({{"name", from_str(s.name)}, {"nodes", words(s.node_indices)}, {"portals", words(s.portal_polygon_indices)}});
	for (auto& n : t.nodes)
		j["nodes"].push_back({{"plane", ws({n.plane.x, n.plane.y, n.plane.z, n.plane.w})}, {"bbox", box(n.bbox)}, {"pi", n.polygon_index}, {"pc", n.polygon_count},
		                      {"front", n.front_index}, {"back", n.back_index}, {"parent", n.parent_index}, {"lod", n.lod}, {"leaf", n.is_leaf()}});
	for (auto i : t.leaf_node_indices) j["leafs"].push_back(static_cast<int>(i));
	return j;
}

// ---- meshes
static void set_flags(zk::PolygonFlagSet& f, json const& j) {
	f = zk::PolygonFlagSet {};
	f.is_portal = j["portal"].get<int>(), f.is_occluder = j["occluder"].get<int>(), f.is_sector = j["sector"].get<int>(), f.should_relight = j["relight"].get<int>();
	f.is_outdoor = j["outdoor"].get<int>(), f.is_ghost_occluder = j["ghost"].get<int>(), f.is_dynamically_lit = j["dynlit"].get<int>(), f.sector_index = j["index"].get<int>();
	f.is_lod = j["lod"].get<int>(), f.normal_axis = j["axis"].get<int>();
}
static json show_flags(zk::PolygonFlagSet const& f) {
	return {{"portal", int(f.is_portal)}, {"occluder", int(f.is_occluder)}, {"sector", int(f.is_sector)}, {"relight", int(f.should_relight)}, {"outdoor", int(f.is_outdoor)},
	        {"ghost", int(f.is_ghost_occluder)}, {"dynlit", int(f.is_dynamically_lit)}, {"index", int(f.sector_index)}, {"lod", int(f.is_lod)}, {"axis", int(f.normal_axis)}};
}

static void set_mesh(zk::Mesh& m, json const& j) {
	m = zk::Mesh {};
	m.date.year = unword(j["date"][0]), m.date.month = j["date"][1], m.date.day = j["date"][2], m.date.hour = j["date"][3], m.date.minute = j["date"][4], m.date.second = j["date"][5];
	m.name = to_str(j["name"]);
	m.bbox.min = to_v3(j["bbox"]), m.bbox.max = to_v3(j["bbox"], 3);
	set_obb(m.obb, j["obb"]);
	Pool pool;
	for (auto& x : j["mats"]) {
		Set s {pool, x};
		visit(s, m.materials.emplace_back());
	}
	for (auto& x : j["verts"]) m.vertices.push_back(to_v3(x));
	for (auto& x : j["feats"]) m.features.push_back({{fl(x["t"][0]), fl(x["t"][1])}, unword(x["l"]), to_v3(x["n"])});
	std::vector<std::shared_ptr<zk::Texture>> imgs;
	for (auto& x : j["imgs"]) {
		auto b = to_bytes(x["data"]);
		std::vector<uint8_t> d;
		for (auto c : b) d.push_back(static_cast<uint8_t>(c));
		imgs.push_back(std::make_shared<zk::Texture>(zk::TextureBuilder(x["w"].get<uint32_t>(), x["h"].get<uint32_t>()).add_mipmap(d, zk::TextureFormat::R8G8B8A8).build(zk::TextureFormat::R8G8B8A8)));
	}
	for (auto& x : j["maps"]) m.lightmaps.push_back({imgs.at(x["img"].get<int>() - 1), {to_v3(x["n"]), to_v3(x["n"], 3)}, to_v3(x["o"])});
	for (auto& x : j["polys"]) {
		zk::Polygon p {};
		p.material = x["m"], p.lightmap = x["lm"], p.index_count = x["cnt"], p.index_offset = x["off"], p.plane_distance = fl(x["d"]), p.plane_normal = to_v3(x["n"]);
		set_flags(p.flags, x["fl"]);
		m.geometry.push_back(p);
	}
	m.polygon_vertex_indices = unwords(j["vi"]), m.polygon_feature_indices = unwords(j["fi"]);
}

static json show_mesh(zk::Mesh& m) {
	json j = {{"date", {word(m.date.year), m.date.month, m.date.day, m.date.hour, m.date.minute, m.date.second}}, {"name", from_str(m.name)}, {"bbox", box(m.bbox)}, {"obb", show_obb(m.obb)},
	          {"mats", json::array()}, {"verts", json::array()}, {"feats", json::array()}, {"maps", json::array()}, {"imgs", json::array()}, {"polys", json::array()},
	          {"vi", words(m.polygon_vertex_indices)}, {"fi", words(m.polygon_feature_indices)}};
	Pool pool;
	for (auto& x : m.materials) {
		json o = json::object();
		Get g {pool, o};
		visit(g, x);
		o.erase("scale_txt"), o.erase("dir_txt");
		j["mats"].push_back(o);
	}
	for (auto& x : m.vertices) j["verts"].push_back(v3(x));
	for (auto& x : m.features) j["feats"].push_back({{"t", ws({x.texture.x, x.texture.y})}, {"l", word(x.light)}, {"n", v3(x.normal)}});
	std::vector<zk::Texture*> seen;
	for (auto& x : m.lightmaps) {
		auto it = std::find(seen.begin(), seen.end(), x.image.get());
		int k = static_cast<int>(it - seen.begin()) + 1;
		if (it == seen.end()) {
			seen.push_back(x.image.get());
			auto& t = *x.image;
			j["imgs"].push_back({{"w", t.width()}, {"h", t.height()}, {"fmt", static_cast<int>(t.format())}, {"mips", t.mipmaps()}, {"data", from_bytes(t.data(0))}});
		}
		j["maps"].push_back({{"img", k}, {"n", ws({x.normals[0].x, x.normals[0].y, x.normals[0].z, x.normals[1].x, x.normals[1].y, x.normals[1].z})}, {"o", v3(x.origin)}});
	}
	for (auto& p : m.geometry)
		j["polys"].push_back({{"m", p.material}, {"lm", p.lightmap}, {"cnt", p.index_count}, {"off", p.index_offset}, {"d", jf(p.plane_distance)}, {"n", v3(p.plane_normal)}, {"fl", show_flags(p.flags)}});
	auto& t = m.polygons;
	json f = json::array(), lm = json::array(), ma = json::array();
	for (auto& x : t.flags) f.push_back(show_flags(x));
	for (auto x : t.lightmap_indices) lm.push_back(x);
	for (auto x : t.material_indices) ma.push_back(x);
	j["tri"] = {{"vi", words(t.vertex_indices)}, {"fi", words(t.feature_indices)}, {"m", ma}, {"lm", lm}, {"fl", f}};
	return j;
}

struct MeshDriver : Driver {
	zk::BspTree tree {};
	zk::Mesh mesh {};
	std::shared_ptr<zk::World> world = std::make_shared<zk::World>();
	std::vector<std::byte> tfile, mfile, wfile;

	void begin() override {}

	static zk::GameVersion ver(json const& op) { return op["v"] == 1 ? zk::GameVersion::GOTHIC_1 : zk::GameVersion::GOTHIC_2; }

	json step(json const& op) override {
		json ev = op;
		std::string o = op["op"];
		try {
			ev["res"] = "ok";
			if (o == "tree_set") {
				set_tree(tree, op["t"]);
				ev["out"] = show_tree(tree);
			} else if (o == "tree_save") {
				tfile.clear();
				auto w = zk::Write::to(&tfile);
				tree.save(w.get(), ver(op));
			} else if (o == "tree_file") {
				tfile = to_bytes(op["bytes"]);
			} else if (o == "tree_load") {
				auto b = tfile;
				auto after = to_bytes(op["after"]);
				b.insert(b.end(), after.begin(), after.end());
				auto r = zk::Read::from(&b);
				tree.load(r.get(), op["v"] == 1 ? 0x2090000 : 0x4090000);
				ev["out"] = show_tree(tree);
				ev["left"] = static_cast<int>(b.size() - r->tell());
			} else if (o == "mesh_set") {
				set_mesh(mesh, op["m"]);
			} else if (o == "mesh_save") {
				mfile.clear();
				auto w = zk::Write::to(&mfile);
				mesh.save(w.get(), ver(op));
			} else if (o == "mesh_file") {
				mfile = to_bytes(op["bytes"]);
			} else if (o == "mesh_load") {
				auto b = mfile;
				auto after = to_bytes(op["after"]);
				b.insert(b.end(), after.begin(), after.end());
				auto r = zk::Read::from(&b);
				if (op["listed"].empty()) mesh.load(r.get(), op["wide"].get<bool>());
				else mesh.load(r.get(), unwords(op["listed"][0]), op["wide"].get<bool>());
				ev["out"] = show_mesh(mesh);
				ev["left"] = static_cast<int>(b.size() - r->tell());
			} else if (o == "world_save") {
				world->world_mesh = mesh, world->world_bsp_tree = tree;
				world->way_net = std::make_shared<zk::WayNet>();
				wfile.clear();
				auto w = zk::Write::to(&wfile);
				auto ar = zk::WriteArchive::to(w.get(), op["fmt"] == "ascii" ? zk::ArchiveFormat::ASCII : op["fmt"] == "binary" ? zk::ArchiveFormat::BINARY : zk::ArchiveFormat::BINSAFE);
				ar->write_object(std::static_pointer_cast<zk::Object>(world), ver(op));
				ar->write_header();
			} else if (o == "world_file") {
				// the files made before, inside of a world written by hand
				auto size = mfile.size() + tfile.size();
				wfile.clear();
				auto w = zk::Write::to(&wfile);
				std::string user = op["user"];
				w->write_string("ZenGin Archive\nver 1\nzCArchiverGeneric\nASCII\nsaveGame 0\ndate 1.1.2001 00:00:00\nuser " + user + "\nEND\nobjects 1        \nEND\n\n[% oCWorld:zCWorld 64513 0]\n\t[MeshAndBsp % 0 0]\n");
				w->write_uint(op["v"] == 1 ? 0x2090000 : 0x4090000);
				w->write_uint(static_cast<uint32_t>(size));
				w->write(mfile.data(), mfile.size());
				w->write(tfile.data(), tfile.size());
				w->write_string("\t[]\n\t[EndMarker % 0 0]\n\t[]\n[]\n");
			} else if (o == "world_load") {
				auto b = wfile;
				auto r = zk::Read::from(&b);
				if (op["detect"].get<bool>()) ev["got"] = world->load(r.get()) == zk::GameVersion::GOTHIC_1 ? 1 : 2;
				else world->load(r.get(), ver(op)), ev["got"] = op["v"];
				ev["out"] = show_mesh(world->world_mesh);
				ev["tree"] = show_tree(world->world_bsp_tree);
			} else if (o == "obb") {
				zk::OrientedBoundingBox x {};
				auto f = [](json const& j) { return static_cast<float>(j.get<int>()); };
				x.center = {f(op["c"][0]), f(op["c"][1]), f(op["c"][2])};
				x.half_width = {f(op["h"][0]), f(op["h"][1]), f(op["h"][2])};
				for (int i = 0; i < 3; ++i) x.axes[i] = {f(op["a"][i * 3]), f(op["a"][i * 3 + 1]), f(op["a"][i * 3 + 2])};
				auto b = x.as_bbox();
				ev["min"] = {static_cast<int>(b.min.x), static_cast<int>(b.min.y), static_cast<int>(b.min.z)};
				ev["max"] = {static_cast<int>(b.max.x), static_cast<int>(b.max.y), static_cast<int>(b.max.z)};
			} else {
				ev["res"] = "?";
			}
		} catch (std::exception const& e) {
			ev["res"] = typeid(e).name();
		}
		ev.erase("bytes");
		if (o == "tree_file" || o == "mesh_file") ev["bytes"] = op["bytes"];
		return ev;
	}
};

int main(int argc, char** argv) { return run_driver<MeshDriver>(argc, argv); }
