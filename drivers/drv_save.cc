// Executes histories of save-games against zenkit::SaveGame.
#include "reflect.hh"

#include <sys/stat.h>

#include <filesystem>

namespace fs = std::filesystem;

static json show_meta(zk::SaveMetadata const& m) {
	auto w = [](int32_t v) { return word(static_cast<uint32_t>(v)); };
	return {{"title", from_str(m.title)}, {"world", m.world}, {"time_day", w(m.time_day)}, {"time_hour", w(m.time_hour)}, {"time_minute", w(m.time_minute)},
	        {"save_date", from_str(m.save_date)}, {"version_major", w(m.version_major)}, {"version_minor", w(m.version_minor)},
	        {"play_time_seconds", w(m.play_time_seconds)}, {"version_point", w(m.version_point)}, {"version_int", w(m.version_int)},
	        {"version_app_name", from_str(m.version_app_name)}};
}

static void set_meta(zk::SaveMetadata& m, json const& j) {
	auto w = [&](char const* k) { return static_cast<int32_t>(unword(j[k])); };
	m.title = to_str(j["title"]), m.world = j["world"], m.save_date = to_str(j["save_date"]), m.version_app_name = to_str(j["version_app_name"]);
	m.time_day = w("time_day"), m.time_hour = w("time_hour"), m.time_minute = w("time_minute"), m.version_major = w("version_major"), m.version_minor = w("version_minor");
	m.play_time_seconds = w("play_time_seconds"), m.version_point = w("version_point"), m.version_int = w("version_int");
}

static json show_state(zk::SaveState const& s) {
	auto w = [](int32_t v) { return word(static_cast<uint32_t>(v)); };
	json j = {{"day", w(s.day)}, {"hour", w(s.hour)}, {"minute", w(s.minute)}, {"missions", json::array()}, {"manager", json::array()}, {"infos", json::array()},
	          {"symbols", json::array()}, {"log", json::array()}, {"guilds", json::array()}};
	for (auto& m : s.missions) j["missions"].push_back({{"name", from_str(m.name)}, {"id", w(m.id)}, {"available", m.available}, {"status_index", w(m.status_index)}});
	if (s.cutscene_manager) {
		json items = json::array();
		for (auto& i : s.cutscene_manager->pool_items)
			items.push_back({{"name", from_str(i->name)}, {"run_behavior", w(static_cast<int32_t>(i->run_behavior))}, {"run_behavior_value", w(i->run_behavior_value)},
			                 {"times_played", w(i->times_played)}, {"deactivated", w(i->deactivated)}, {"flags", w(i->flags)}});
		j["manager"].push_back(items);
	}
	for (auto& i : s.infos) j["infos"].push_back({{"name", from_str(i.name)}, {"told", i.told}});
	for (auto& y : s.symbols) {
		json v = json::array();
		for (auto x : y.values) v.push_back(w(x));
		j["symbols"].push_back({{"name", from_str(y.name)}, {"values", v}});
	}
	for (auto& t : s.log) {
		json en = json::array();
		for (auto& x : t.entries) en.push_back(from_str(x));
		j["log"].push_back({{"description", from_str(t.description)}, {"section", w(static_cast<int32_t>(t.section))}, {"status", w(static_cast<int32_t>(t.status))}, {"entries", en}});
	}
	// the table is shown by the cells that are not zero
	for (int a = 0; a < 42; ++a)
		for (int b = 0; b < 42; ++b)
			if (s.guild_attitudes[a][b] != 0) j["guilds"].push_back({a, b, static_cast<int>(s.guild_attitudes[a][b])});
	return j;
}

static void set_state(zk::SaveState& s, json const& j) {
	auto w = [](json const& v) { return static_cast<int32_t>(unword(v)); };
	s = zk::SaveState {};
	s.day = w(j["day"]), s.hour = w(j["hour"]), s.minute = w(j["minute"]);
	for (auto& m : j["missions"]) s.missions.push_back({to_str(m["name"]), w(m["id"]), m["available"].get<bool>(), w(m["status_index"])});
	for (auto& items : j["manager"]) {
		s.cutscene_manager = std::make_shared<zk::CutsceneManager>();
		for (auto& i : items) {
			auto p = std::make_shared<zk::CutscenePoolItem>();
			p->name = to_str(i["name"]), p->run_behavior = static_cast<zk::CutscenePoolItemRunBehavior>(w(i["run_behavior"])), p->run_behavior_value = w(i["run_behavior_value"]);
			p->times_played = w(i["times_played"]), p->deactivated = w(i["deactivated"]), p->flags = w(i["flags"]);
			s.cutscene_manager->pool_items.push_back(p);
		}
	}
	for (auto& i : j["infos"]) s.infos.push_back({to_str(i["name"]), i["told"].get<bool>()});
	for (auto& y : j["symbols"]) {
		zk::SaveSymbolState v {to_str(y["name"]), {}};
		for (auto& x : y["values"]) v.values.push_back(w(x));
		s.symbols.push_back(v);
	}
	for (auto& t : j["log"]) {
		zk::SaveLogTopic v {to_str(t["description"]), static_cast<zk::SaveTopicSection>(w(t["section"])), static_cast<zk::SaveTopicStatus>(w(t["status"])), {}};
		for (auto& x : t["entries"]) v.entries.push_back(to_str(x));
		s.log.push_back(v);
	}
	for (auto& row : s.guild_attitudes)
		for (auto& x : row) x = 0;
	for (auto& g : j["guilds"]) s.guild_attitudes[g[0].get<int>()][g[1].get<int>()] = static_cast<uint8_t>(g[2].get<int>());
}

static json show_thumb(std::optional<zk::Texture> const& t) {
	json j = json::array();
	if (t) j.push_back({{"w", t->width()}, {"h", t->height()}, {"mips", t->mipmaps()}, {"data", from_bytes(t->data(0))}});
	return j;
}

struct SaveDriver : Driver {
	std::map<int, std::unique_ptr<zk::SaveGame>> games;
	std::string dir;

	void begin() override {
		static int n = 0;
		if (n == 0) {
			// Saving removes directories: go where nothing else can be reached, as a user who owns nothing else.
			if (chmod(g_scratch.c_str(), 0777) != 0 || chdir(g_scratch.c_str()) != 0) throw std::runtime_error("no scratch directory");
			if (geteuid() == 0 && (setgid(65534) != 0 || setuid(65534) != 0)) fprintf(stderr, "still root\n");
			umask(022);
			setenv("USER", "tester", 1);
		}
		dir = "run" + std::to_string(n++);
		fs::create_directory(dir);
		fs::create_directory(dir + "/x");
	}
	~SaveDriver() override {
		games.clear();
		std::error_code ec;
		if (!dir.empty()) fs::remove_all(dir, ec);
	}
	std::string plain(json const& slot) const { return dir + "/s" + std::to_string(slot.get<int>()); }
	fs::path path(json const& op) const {
		auto s = "s" + std::to_string(op["slot"].get<int>());
		switch (op.value("spell", 0)) {
		case 1: return dir + "/./" + s;
		case 2: return dir + "/x/../" + s;
		case 3: return dir + "/" + s + "/";
		case 4: return "./" + dir + "//" + s;
		default: return dir + "/" + s;
		}
	}
	json show(zk::SaveGame const& g) const { return {{"meta", show_meta(g.metadata)}, {"state", show_state(g.state)}, {"thumb", show_thumb(g.thumbnail)}}; }

	json step(json const& op) override {
		json e = op;
		std::string o = op["op"];
		zk::SaveGame* g = op.contains("obj") && games.count(op["obj"].get<int>()) ? games[op["obj"].get<int>()].get() : nullptr;
		if (o == "new") {
			auto& p = games[op["obj"].get<int>()];
			p = std::make_unique<zk::SaveGame>(op["game"] == 1 ? zk::GameVersion::GOTHIC_1 : zk::GameVersion::GOTHIC_2);
			e.update(show(*p));
		} else if (o == "set") {
			set_meta(g->metadata, op["meta"]);
			set_state(g->state, op["state"]);
			g->thumbnail.reset();
			for (auto& t : op["thumb"]) {
				zk::TextureBuilder b(t["w"].get<int>(), t["h"].get<int>());
				b.add_mipmap(t["data"].get<std::vector<uint8_t>>(), zk::TextureFormat::R5G6B5);
				g->thumbnail = b.build(zk::TextureFormat::R5G6B5);
			}
			e.update(show(*g));
		} else if (o == "save") {
			Pool pool;
			build_graph(pool, op["objs"]);
			e["objs"] = dump_graph(pool.objs)["objs"];
			auto w = std::dynamic_pointer_cast<zk::World>(pool.get(op["roots"][0].get<int>()));
			try {
				g->save(path(op), *w, op["name"].get<std::string>());
				e["res"] = "ok";
			} catch (std::exception const& x) {
				e["res"] = std::string("error: ") + x.what();
			}
			e.update(show(*g));
		} else if (o == "load") {
			try {
				g->load(path(op));
				e["res"] = "ok";
			} catch (std::exception const& x) {
				e["res"] = std::string("error: ") + x.what();
			}
			e.update(show(*g));
		} else if (o == "world") {
			std::string n = op["name"];
			e["current"] = g->metadata.world;
			try {
				auto w = n.empty() ? g->load_world() : g->load_world(n + op.value("ext", ".ZEN"));
				e["found"] = w != nullptr;
				if (w) {
					auto d = dump_graph({w});
					e["roots"] = d["roots"], e["objs"] = d["objs"];
				}
				e["res"] = "ok";
			} catch (std::exception const& x) {
				e["res"] = std::string("error: ") + x.what();
			}
			e.update(show(*g));
		} else if (o == "delete") {
			fs::remove_all(plain(op["slot"]));
		} else if (o == "spoil") {
			std::string f = op["file"];
			if (f == "extra") std::ofstream {plain(op["slot"]) + "/NOTES.TXT"} << "notes";
			else fs::remove(plain(op["slot"]) + (f == "info" ? "/SAVEINFO.SAV" : f == "dat" ? "/SAVEDAT.SAV" : "/THUMB.SAV"));
		} else if (o == "list") {
			json files = json::array();
			if (fs::is_directory(plain(op["slot"])))
				for (auto& f : fs::directory_iterator(plain(op["slot"]))) files.push_back(f.path().filename().string());
			e["files"] = files;
			std::ifstream h {plain(op["slot"]) + "/SAVEHDR.SAV"};
			std::string line;
			std::getline(h, line);
			e["hdr"] = line;
		}
		return e;
	}
};

int main(int argc, char** argv) { return run_driver<SaveDriver>(argc, argv); }
