// Conformance driver for archives (A01, A02).
#include "common.hh"
#include <zenkit/Archive.hh>
#include <ctime>
#include <cmath>

// The clock is under the control of the scenario.
static time_t g_now = 1000000000;
extern "C" time_t time(time_t* t) noexcept {
	if (t) *t = g_now;
	return g_now;
}

static std::string printed(float f) {
	char b[64];
	snprintf(b, sizeof b, "%f", f);
	return b;
}

struct ArchiveDriver : Driver {
	std::vector<std::byte> data;
	std::unique_ptr<zk::Write> w;
	std::unique_ptr<zk::WriteArchive> wa;
	std::unique_ptr<zk::Read> r;
	std::unique_ptr<zk::ReadArchive> ra;
	size_t head = 0;

	void begin() override {
		g_now = 1000000000;
		setenv("USER", "tester", 1);
	}

	static zk::ArchiveFormat parse_format(std::string const& f) {
		return f == "ascii" ? zk::ArchiveFormat::ASCII : f == "binary" ? zk::ArchiveFormat::BINARY : zk::ArchiveFormat::BINSAFE;
	}
	static std::string format(zk::ArchiveFormat f) {
		return f == zk::ArchiveFormat::ASCII ? "ascii" : f == zk::ArchiveFormat::BINARY ? "binary" : "binsafe";
	}

	// Names are passed as views into a longer text.
	std::string buf1, buf2, buf3;
	static std::string_view view(std::string& buf, json const& j) {
		auto s = to_str(j);
		buf = s + "#garbage";
		return std::string_view {buf}.substr(0, s.size());
	}

	static std::vector<float> floats(json const& v) {
		std::vector<float> f;
		for (auto& x : v) f.push_back(bitsf(unword(x)));
		return f;
	}
	static json fl(float const* f, size_t n) {
		json j = json::array();
		for (size_t i = 0; i < n; ++i) j.push_back(word(fbits(f[i])));
		return j;
	}
	static void texts(json& e, std::vector<float> const& f) {
		json t = json::array(), b = json::array();
		for (float x : f) {
			auto s = printed(x);
			t.push_back(from_str(s));
			b.push_back(word(fbits(strtof(s.c_str(), nullptr))));
		}
		e["txt"] = t;
		e["back"] = b;
	}

	void write(json& e) {
		std::string k = e["kind"];
		auto n = view(buf1, e["name"]);
		auto& v = e["v"];
		if (k == "string") wa->write_string(n, view(buf2, v));
		else if (k == "int") wa->write_int(n, static_cast<int32_t>(unword(v)));
		else if (k == "float") { wa->write_float(n, bitsf(unword(v))); texts(e, {bitsf(unword(v))}); }
		else if (k == "byte") wa->write_byte(n, v.get<int>());
		else if (k == "word") wa->write_word(n, v.get<int>());
		else if (k == "enum") wa->write_enum(n, unword(v));
		else if (k == "bool") wa->write_bool(n, v.get<bool>());
		else if (k == "color") wa->write_color(n, zk::Color(v[0].get<int>(), v[1].get<int>(), v[2].get<int>(), v[3].get<int>()));
		else if (k == "raw") {
			auto b = to_bytes(v);
			if (b.size() % 2) wa->write_raw(n, b);
			else wa->write_raw(n, b.data(), static_cast<uint16_t>(b.size()));
		} else {
			auto f = floats(v);
			texts(e, f);
			if (k == "vec3") wa->write_vec3(n, zk::Vec3 {f[0], f[1], f[2]});
			else if (k == "vec2") wa->write_vec2(n, zk::Vec2 {f[0], f[1]});
			else if (k == "bbox") {
				zk::AxisAlignedBoundingBox b;
				b.min = {f[0], f[1], f[2]};
				b.max = {f[3], f[4], f[5]};
				wa->write_bbox(n, b);
			} else if (k == "mat3") {
				zk::Mat3 m;
				for (int i = 0; i < 9; ++i) m[i / 3][i % 3] = f[i];
				wa->write_mat3x3(n, m);
			} else if (k == "rawf") wa->write_raw_float(n, f.data(), f.size());
		}
	}

	json read(std::string const& k) {
		if (k == "string") return from_str(ra->read_string());
		if (k == "int") return word(ra->read_int());
		if (k == "float") return word(fbits(ra->read_float()));
		if (k == "byte") return ra->read_byte();
		if (k == "word") return ra->read_word();
		if (k == "enum") return word(ra->read_enum());
		if (k == "bool") return ra->read_bool();
		if (k == "color") {
			auto c = ra->read_color();
			return json::array({c.r, c.g, c.b, c.a});
		}
		if (k == "vec3") {
			auto v = ra->read_vec3();
			float f[] {v.x, v.y, v.z};
			return fl(f, 3);
		}
		if (k == "vec2") {
			auto v = ra->read_vec2();
			float f[] {v.x, v.y};
			return fl(f, 2);
		}
		if (k == "bbox") {
			auto b = ra->read_bbox();
			float f[] {b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z};
			return fl(f, 6);
		}
		auto m = ra->read_mat3x3();
		float f[9];
		for (int i = 0; i < 9; ++i) f[i] = m[i / 3][i % 3];
		return fl(f, 9);
	}

	json run(json& e) {
		std::string op = e["op"];
		if (op == "create") {
			head = e["head"].get<size_t>();
			data.assign(head, std::byte {'x'});
			w = zk::Write::to(&data);
			w->seek(head, zk::Whence::BEG);
			wa = e["save"].get<bool>() ? zk::WriteArchive::to_save(w.get(), parse_format(e["fmt"])) : zk::WriteArchive::to(w.get(), parse_format(e["fmt"]));
			if (wa->is_save_game() != e["save"].get<bool>()) return "save flag lost";
		} else if (op == "w") write(e);
		else if (op == "begin_object") {
			auto n = view(buf1, e["name"]);
			auto c = view(buf2, e["cls"]);
			return wa->write_object_begin(n, c, e["ver"].get<uint16_t>());
		} else if (op == "end_object") wa->write_object_end();
		else if (op == "ref") wa->write_ref(view(buf1, e["name"]), e["idx"].get<uint32_t>());
		else if (op == "clock") g_now = e["t"].get<int>();
		else if (op == "header") wa->write_header();
		else if (op == "finish") {
			wa->write_header();
			return {{"bytes", from_bytes(std::vector<std::byte>(data.begin() + head, data.end()))}};
		} else if (op == "open" || op == "foreign") {
			if (op == "foreign") data = to_bytes(e["data"]), head = 0, e["data"] = 0;
			r = zk::Read::from(&data);
			r->seek(head, zk::Whence::BEG);
			ra = zk::ReadArchive::from(r.get());
			auto const& hd = ra->get_header();
			if (op == "foreign")
				return {{"fmt", format(hd.format)}, {"save", ra->is_save_game()}, {"archiver", from_str(hd.archiver)}, {"date", from_str(hd.date)}, {"user", from_str(hd.user)}};
			return {{"fmt", format(hd.format)}, {"save", ra->is_save_game()}};
		} else if (op == "r") return {{"v", read(e["kind"])}};
		else if (op == "rraw") {
			auto x = ra->read_raw(e["n"].get<size_t>());
			x->seek(0, zk::Whence::END);
			auto n = x->tell();
			x->seek(0, zk::Whence::BEG);
			std::vector<std::byte> b(n);
			x->read(b.data(), n);
			return {{"v", from_bytes(b)}};
		} else if (op == "rbegin") {
			zk::ArchiveObject o;
			if (!ra->read_object_begin(o)) return false;
			return {{"name", from_str(o.object_name)}, {"cls", from_str(o.class_name)}, {"ver", o.version}, {"idx", o.index}};
		} else if (op == "rend") return ra->read_object_end();
		else if (op == "cut") {
			// Whatever remains of a truncated archive, skipping what is in it comes to an end.
			std::vector<std::byte> part(data.begin(), data.begin() + std::min(data.size(), head + e["n"].get<size_t>()));
			try {
				auto pr = zk::Read::from(&part);
				pr->seek(head, zk::Whence::BEG);
				auto pa = zk::ReadArchive::from(pr.get());
				zk::ArchiveObject o;
				for (int i = 0; i < 20; ++i) pa->skip_object(i % 2 && pa->read_object_begin(o));
			} catch (zk::Error const&) {
			}
		}
		else if (op == "skip") ra->skip_object(e["current"].get<bool>());
		return 0;
	}

	json step(json const& o) override {
		json e = o;
		json res;
		try {
			res = run(e);
		} catch (zk::ParserError const&) {
			res = {{"err", true}};
		} catch (std::exception const& x) {
			res = std::string("threw ") + x.what();
		}
		e["res"] = res;
		return e;
	}
};

int main(int argc, char** argv) { return run_driver<ArchiveDriver>(argc, argv); }
