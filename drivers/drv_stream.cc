// Conformance driver for streams and chunks (specs/Streams.tla).
#include "common.hh"

#include <filesystem>
#include <sstream>

enum class ChunkType : uint16_t {};

static json floats(float const* f, int n) {
	json j = json::array();
	for (int i = 0; i < n; ++i) j.push_back(word(fbits(f[i])));
	return j;
}

static zk::Whence whence(json const& j) {
	std::string s = j;
	return s == "beg" ? zk::Whence::BEG : s == "cur" ? zk::Whence::CUR : zk::Whence::END;
}

struct Streams : Driver {
	std::unique_ptr<zk::Read> r;
	std::unique_ptr<zk::Write> w;
	std::vector<std::byte> bytes; // source of a reader, growing or fixed destination of a writer
	std::unique_ptr<std::byte[]> fixed;
	std::unique_ptr<std::iostream> stream;
	FILE* file {nullptr};
	std::string backend, path;
	static inline int serial = 0;

	~Streams() override {
		r.reset();
		w.reset();
		if (file) fclose(file);
		if (!path.empty()) std::filesystem::remove(path);
	}

	void begin() override {}

	void spill() {
		path = g_scratch + "/s" + std::to_string(serial++);
		std::ofstream o {path, std::ios::binary};
		o.write(reinterpret_cast<char const*>(bytes.data()), static_cast<std::streamsize>(bytes.size()));
	}

	json contents(size_t cap) {
		if (backend == "fixed") {
			// Guard bytes around the destination must stay as they were.
			for (size_t i = 0; i < 16; ++i) {
				if (fixed[i] != std::byte {0xAB} || fixed[16 + cap + i] != std::byte {0xAB}) return {-1};
			}
			return from_bytes(std::vector<std::byte> {fixed.get() + 16, fixed.get() + 16 + cap});
		}
		if (backend == "grow") return from_bytes(bytes);
		if (backend == "stdio") fflush(file);
		if (backend == "ostream") stream->flush();
		if (backend == "wpath") return nullptr; // visible once the writer is gone
		std::ifstream in {path, std::ios::binary};
		std::string s {std::istreambuf_iterator<char> {in}, {}};
		return from_str(s);
	}

	size_t capacity {0};

	void write_chunk(json const& c) {
		zk::proto::write_chunk<ChunkType>(w.get(), static_cast<ChunkType>(c["type"].get<int>()), [&](zk::Write* x) {
			for (auto& p : c["parts"]) {
				auto s = to_str(p);
				x->write(s.data(), s.size());
			}
			for (auto& i : c["inner"]) write_chunk(i);
		});
	}

	json step(json const& op) override {
		json ev = op;
		json res;
		std::string what = op["op"];
		if (what == "open") {
			bytes = to_bytes(op["data"]);
			backend = op.value("backend", "memory");
			if (backend == "memory") r = zk::Read::from(bytes.data(), bytes.size());
			else if (backend == "vector") r = zk::Read::from(std::vector<std::byte>(bytes));
			else if (backend == "vecptr") r = zk::Read::from(&bytes);
			else if (backend == "path") spill(), r = zk::Read::from(std::filesystem::path {path});
			else if (backend == "stdio") spill(), file = fopen(path.c_str(), "rb"), r = zk::Read::from(file);
			else if (backend == "ifstream") {
				spill();
				stream = std::make_unique<std::fstream>(path, std::ios::binary | std::ios::in);
				r = zk::Read::from(static_cast<std::istream*>(stream.get()));
			} else {
				stream = std::make_unique<std::stringstream>(std::string {reinterpret_cast<char const*>(bytes.data()), bytes.size()});
				r = zk::Read::from(static_cast<std::istream*>(stream.get()));
			}
		} else if (what == "create") {
			backend = op.value("backend", op["cap"] >= 0 ? "fixed" : "grow");
			bytes = to_bytes(op["data"]);
			if (backend == "fixed") {
				capacity = op["cap"];
				fixed = std::make_unique<std::byte[]>(capacity + 32);
				std::fill_n(fixed.get(), capacity + 32, std::byte {0xAB});
				std::fill_n(fixed.get() + 16, capacity, std::byte {238});
				w = zk::Write::to(fixed.get() + 16, capacity);
			} else if (backend == "grow") {
				w = zk::Write::to(&bytes);
			} else if (backend == "stdio") {
				path = g_scratch + "/s" + std::to_string(serial++);
				file = fopen(path.c_str(), "w+b");
				w = zk::Write::to(file);
			} else if (backend == "wpath") {
				path = g_scratch + "/s" + std::to_string(serial++);
				w = zk::Write::to(std::filesystem::path {path});
			} else {
				path = g_scratch + "/s" + std::to_string(serial++);
				stream = std::make_unique<std::fstream>(path, std::ios::binary | std::ios::in | std::ios::out | std::ios::trunc);
				w = zk::Write::to(static_cast<std::ostream*>(stream.get()));
			}
		} else if (what == "read") {
			std::string k = op["kind"];
			if (k == "char") res["v"] = static_cast<int>(static_cast<signed char>(r->read_char()));
			else if (k == "byte") res["v"] = static_cast<int>(r->read_byte());
			else if (k == "ubyte") res["v"] = static_cast<int>(r->read_ubyte());
			else if (k == "short") res["v"] = static_cast<int>(r->read_short());
			else if (k == "ushort") res["v"] = static_cast<int>(r->read_ushort());
			else if (k == "int") res["v"] = word(static_cast<uint32_t>(r->read_int()));
			else if (k == "uint") res["v"] = word(r->read_uint());
			else if (k == "float") res["v"] = word(fbits(r->read_float()));
			else if (k == "vec2") { auto v = r->read_vec2(); res["v"] = floats(v.pointer(), 2); }
			else if (k == "vec3") { auto v = r->read_vec3(); res["v"] = floats(v.pointer(), 3); }
			else if (k == "mat3") { auto v = r->read_mat3(); res["v"] = floats(v.pointer(), 9); }
			else if (k == "mat4") { auto v = r->read_mat4(); res["v"] = floats(v.pointer(), 16); }
		} else if (what == "string") {
			res["v"] = from_str(r->read_string(op["n"]));
		} else if (what == "raw") {
			std::vector<std::byte> b(op["n"].get<size_t>());
			auto n = r->read(b.data(), b.size());
			b.resize(std::min(n, b.size()));
			res["v"] = from_bytes(b);
		} else if (what == "line") {
			auto ign = to_str(op["ignore"]);
			res["v"] = from_str(op.value("plain", false) ? r->read_line(!ign.empty()) : r->read_line_then_ignore(ign));
		} else if (what == "seek") {
			r->seek(op["off"].get<ssize_t>(), whence(op["whence"]));
		} else if (what == "wseek") {
			w->seek(op["off"].get<ssize_t>(), whence(op["whence"]));
		} else if (what == "chunks") {
			json seen = json::array();
			size_t i = 0;
			auto handle = [&](zk::Read* x, ChunkType t) {
				std::vector<std::byte> b(i < op["take"].size() ? op["take"][i].get<size_t>() : 0);
				auto at = x->tell();
				auto n = x->read(b.data(), b.size());
				b.resize(n);
				seen.push_back({{"type", static_cast<int>(t)}, {"at", at}, {"got", from_bytes(b)}});
				if (seen.size() > 100) return true; // not advancing
				return ++i == op["stop"].get<size_t>();
			};
			if (op.value("sized", false)) {
				zk::proto::read_chunked<ChunkType>(r.get(), "test", std::function<bool(zk::Read*, ChunkType, size_t&)> {[&](zk::Read* x, ChunkType t, size_t&) { return handle(x, t); }});
			} else {
				zk::proto::read_chunked<ChunkType>(r.get(), "test", std::function<bool(zk::Read*, ChunkType)> {handle});
			}
			res["v"] = seen;
		} else if (what == "wchunk") {
			write_chunk(op["chunk"]);
		} else if (what == "write") {
			std::string k = op["kind"];
			auto& v = op["v"];
			auto fl = [&](int n) { std::vector<float> f(n); for (int i = 0; i < n; ++i) f[i] = bitsf(unword(v[i])); return f; };
			if (k == "char") w->write_char(static_cast<char>(v.get<int>()));
			else if (k == "byte") w->write_byte(static_cast<int8_t>(v.get<int>()));
			else if (k == "ubyte") w->write_ubyte(static_cast<uint8_t>(v.get<int>()));
			else if (k == "short") w->write_short(static_cast<int16_t>(v.get<int>()));
			else if (k == "ushort") w->write_ushort(static_cast<uint16_t>(v.get<int>()));
			else if (k == "int") w->write_int(static_cast<int32_t>(unword(v)));
			else if (k == "uint") w->write_uint(unword(v));
			else if (k == "float") w->write_float(bitsf(unword(v)));
			else if (k == "string") w->write_string(to_str(v));
			else if (k == "string0") w->write_string0(to_str(v));
			else if (k == "line") w->write_line(to_str(v));
			else if (k == "raw") { auto s = to_str(v); w->write(s.data(), s.size()); }
			else if (k == "vec2") { zk::Vec2 x; auto f = fl(2); std::copy(f.begin(), f.end(), x.pointer()); w->write_vec2(x); }
			else if (k == "vec3") { zk::Vec3 x; auto f = fl(3); std::copy(f.begin(), f.end(), x.pointer()); w->write_vec3(x); }
			else if (k == "mat3") { zk::Mat3 x {}; auto f = fl(9); std::copy(f.begin(), f.end(), x.pointer()); w->write_mat3(x); }
			else if (k == "mat4") { zk::Mat4 x {}; auto f = fl(16); std::copy(f.begin(), f.end(), x.pointer()); w->write_mat4(x); }
		}
		if (r) {
			res["eof"] = r->eof();
			res["pos"] = r->tell();
		} else {
			res["pos"] = w->tell();
			auto c = contents(capacity);
			if (!c.is_null()) res["bytes"] = c;
		}
		ev["res"] = res;
		ev.erase("backend");
		return ev;
	}
};

int main(int argc, char** argv) {
	return run_driver<Streams>(argc, argv);
}
