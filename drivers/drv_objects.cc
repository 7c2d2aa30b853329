// Conformance driver for objects in archives (A03, O01, W01, C01).
#include "reflect.hh"

// ---- an independent reader of BIN_SAFE archives: the tokens
struct Tokens {
	std::vector<unsigned char> b;
	size_t p = 0;
	std::map<int, std::string> keys;
	json out = json::array();
	uint32_t objects = 0;

	unsigned u8() { return p < b.size() ? b[p++] : throw std::runtime_error("short"); }
	unsigned u16() { unsigned a = u8(); return a | u8() << 8; }
	uint32_t u32() { uint32_t a = u16(); return a | static_cast<uint32_t>(u16()) << 16; }
	std::string str(size_t n) {
		std::string s;
		for (size_t i = 0; i < n; ++i) s.push_back(static_cast<char>(u8()));
		return s;
	}
	std::string line() {
		std::string s;
		for (unsigned c; (c = u8()) != '\n';) s.push_back(static_cast<char>(c));
		return s;
	}
	static std::string named(std::string const& s) {    // keys and classes travel as text
		if (s == "\xA7") return "REF";
		std::string r;
		for (unsigned char c : s) r += c >= 32 && c < 127 && c != '"' && c != '\\' ? std::string(1, static_cast<char>(c)) : "?";
		return r;
	}
	json words(size_t n) {
		json j = json::array();
		for (size_t i = 0; i < n; ++i) j.push_back(word(u32()));
		return j;
	}
	json run() {
		while (line() != "END") {}
		u32();
		objects = u32();
		size_t table = u32(), body = p;
		p = table;
		for (uint32_t n = u32(); n > 0; --n) {
			size_t len = u16();
			int i = static_cast<int>(u16());
			u32();
			keys[i] = str(len);
		}
		p = body;
		while (p < table) {
			unsigned tag = u8();
			if (tag == 1) {
				auto s = str(u16());
				if (s == "[]") {
					out.push_back({{"k", "end"}});
					continue;
				}
				s = s.substr(1, s.size() - 2);
				json t = {{"k", "begin"}};
				auto cut = [&s] { auto i = s.rfind(' '); auto r = s.substr(i + 1); s.resize(i); return r; };
				t["idx"] = std::stoi(cut()), t["ver"] = std::stoi(cut());
				t["cls"] = named(cut()), t["key"] = named(s);
				out.push_back(t);
				if (s == "MeshAndBsp") {
					uint32_t ver = u32(), len = u32();
					p += len;
					out.push_back({{"k", "mesh"}, {"v", word(ver)}, {"key", ""}});
				}
				continue;
			}
			if (tag != 18) throw std::runtime_error("entry without name");
			json t = {{"key", named(keys.at(static_cast<int>(u32())))}};
			switch (u8()) {
			case 1: t["k"] = "string", t["v"] = from_str(str(u16())); break;
			case 2: t["k"] = "int", t["v"] = word(u32()); break;
			case 3: t["k"] = "float", t["v"] = word(u32()); break;
			case 4: t["k"] = "byte", t["v"] = u8(); break;
			case 5: t["k"] = "word", t["v"] = u16(); break;
			case 6: t["k"] = "bool", t["v"] = u32() != 0; break;
			case 7: t["k"] = "vec3", t["v"] = words(3); break;
			case 8: { unsigned bb = u8(), g = u8(), r = u8(), a = u8(); t["k"] = "color", t["v"] = {r, g, bb, a}; break; }
			case 9: t["k"] = "raw", t["v"] = from_str(str(u16())); break;
			case 16: t["k"] = "rawf", t["v"] = words(u16() / 4); break;
			case 17: t["k"] = "enum", t["v"] = word(u32()); break;
			default: throw std::runtime_error("unknown entry");
			}
			out.push_back(t);
		}
		return out;
	}
};

struct ObjectsDriver : Driver {
	Pool pool;
	std::vector<std::byte> data;
	size_t roots = 0;
	zk::GameVersion game = zk::GameVersion::GOTHIC_1;
	zk::World world;
	zk::CutsceneLibrary lib;

	void begin() override { setenv("USER", "tester", 1); }

	static zk::ArchiveFormat parse_format(std::string const& f) {
		return f == "ascii" ? zk::ArchiveFormat::ASCII : f == "binary" ? zk::ArchiveFormat::BINARY : zk::ArchiveFormat::BINSAFE;
	}

	std::vector<std::byte> write(json const& op, std::string const& fmt, std::vector<std::shared_ptr<zk::Object>> const& rs) {
		std::vector<std::byte> d;
		auto w = zk::Write::to(&d);
		zk::VirtualObject::enable_packed_save(op["pack"].get<bool>());
		auto wa = op["save"].get<bool>() ? zk::WriteArchive::to_save(w.get(), parse_format(fmt)) : zk::WriteArchive::to(w.get(), parse_format(fmt));
		for (auto& r : rs) wa->write_object(r, game);
		wa->write_int("tail", 4711);
		wa->write_header();
		wa.reset();
		zk::VirtualObject::enable_packed_save(true);
		return d;
	}
	static json tokens(std::vector<std::byte> const& d, json& ev) {
		Tokens t;
		for (auto c : d) t.b.push_back(static_cast<unsigned char>(c));
		json r = t.run();
		ev["objects"] = t.objects;
		return r;
	}
	static int header_objects(std::vector<std::byte> const& d, std::string const& fmt) {
		std::string s(reinterpret_cast<char const*>(d.data()), d.size());
		auto i = s.find("END\n") + 4;
		if (fmt == "binsafe") return static_cast<unsigned char>(s[i + 4]) + 256 * static_cast<unsigned char>(s[i + 5]);
		return s.compare(i, 8, "objects ") == 0 ? std::atoi(s.c_str() + i + 8) : -1;
	}

	json step(json const& op) override {
		json e = op;
		std::string o = op["op"];
		if (o == "kinds") {
			for (auto& c : classes()) {
				json k = json::object();
				c.kinds(k);
				e["classes"][c.name] = k;
			}
		} else if (o == "graph") {
			pool = Pool {};
			build_graph(pool, op["objs"]);
			e["objs"] = dump_graph(pool.objs)["objs"];
		} else if (o == "write") {
			std::vector<std::shared_ptr<zk::Object>> rs;
			for (auto& r : op["roots"]) rs.push_back(pool.get(r.get<int>()));
			game = op["game"] == 1 ? zk::GameVersion::GOTHIC_1 : zk::GameVersion::GOTHIC_2;
			roots = rs.size();
			try {
				e["toks"] = tokens(write(op, "binsafe", rs), e);
				data = write(op, op["fmt"], rs);
				e["count"] = header_objects(data, op["fmt"]);
				e["res"] = "ok";
			} catch (std::exception const& x) {
				e["res"] = std::string("error: ") + x.what();
			}
		} else if (o == "forge") {
			// the archive of another program: a class this library does not know (the name has the same length)
			std::string from = op["from"], to = op["to"];
			auto* p = reinterpret_cast<char*>(data.data());
			std::string s(p, data.size());
			for (size_t i = 0; (i = s.find(from, i)) != std::string::npos; i += from.size()) memcpy(p + i, to.data(), to.size());
		} else if (o == "read_world") {
			// into the same world each time, by the way given
			try {
				auto r = zk::Read::from(data.data(), data.size());
				if (op["detect"].get<bool>()) e["version"] = world.load(r.get()) == zk::GameVersion::GOTHIC_1 ? 1 : 2;
				else world.load(r.get(), game);
				auto g = dump_graph({std::shared_ptr<zk::Object>(&world, [](zk::Object*) {})});
				e["roots"] = g["roots"], e["objs"] = g["objs"];
				e["res"] = "ok";
			} catch (std::exception const& x) {
				e["res"] = std::string("error: ") + x.what();
			}
		} else if (o == "read_lib") {
			try {
				auto r = zk::Read::from(data.data(), data.size());
				auto ra = zk::ReadArchive::from(r.get());
				zk::ArchiveObject hdr;
				ra->read_object_begin(hdr);
				lib.load(*ra, game);
				e["end"] = ra->read_object_end();
				auto g = dump_graph({std::shared_ptr<zk::Object>(&lib, [](zk::Object*) {})});
				e["roots"] = g["roots"], e["objs"] = g["objs"];
				e["res"] = "ok";
			} catch (std::exception const& x) {
				e["res"] = std::string("error: ") + x.what();
			}
		} else if (o == "find") {
			auto b = lib.block_by_name(to_str(op["name"]));
			e["found"] = b ? from_str(b->name) : json::array({-1});
			if (b) e["blocks"] = dump_graph({b});
		} else if (o == "read") {
			try {
				auto r = zk::Read::from(data.data(), data.size());
				auto ra = zk::ReadArchive::from(r.get());
				std::vector<std::shared_ptr<zk::Object>> rs;
				for (size_t i = 0; i < roots; ++i) rs.push_back(ra->read_object(game));
				e["tail"] = ra->read_int() == 4711;
				auto g = dump_graph(rs);
				e["roots"] = g["roots"], e["objs"] = g["objs"];
				e["res"] = "ok";
			} catch (std::exception const& x) {
				e["res"] = std::string("error: ") + x.what();
			}
		}
		return e;
	}
};

int main(int argc, char** argv) { return run_driver<ObjectsDriver>(argc, argv); }
