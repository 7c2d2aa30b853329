// Executes operations on textures.
#include "common.hh"

#include <zenkit/Texture.hh>

static std::vector<uint8_t> u8(json const& j) {
	std::vector<uint8_t> v;
	for (auto& c : j) v.push_back(static_cast<uint8_t>(c.get<int>()));
	return v;
}

static json show(zk::Texture const& t) {
	json j = {{"fmt", static_cast<int>(t.format())}, {"w", t.width()}, {"h", t.height()}, {"mips", t.mipmaps()}, {"rw", word(t.ref_width())}, {"rh", word(t.ref_height())},
	          {"avg", word(t.average_color())}, {"levels", json::array()}, {"pal", json::array()}};
	for (uint32_t i = 0; i < t.mipmaps(); ++i) {
		json l = {{"w", t.mipmap_width(i)}, {"h", t.mipmap_height(i)}, {"data", from_bytes(t.data(i))}, {"rgba", json::array()}};
		try {
			l["rgba"] = json::array({from_bytes(t.as_rgba8(i))});
		} catch (zk::Error const&) {
		}
		j["levels"].push_back(l);
	}
	if (t.format() == zk::TextureFormat::P8)
		for (int i = 0; i < 256; ++i) j["pal"].push_back({t.palette()[i].r, t.palette()[i].g, t.palette()[i].b, t.palette()[i].a});
	return j;
}

struct TextureDriver : Driver {
	zk::Texture tex;
	std::unique_ptr<zk::TextureBuilder> builder;
	std::vector<std::byte> file;
	void begin() override {}

	json step(json const& op) override {
		json ev = op;
		std::string o = op["op"];
		ev["res"] = "ok";
		try {
			if (o == "file") {
				file = to_bytes(op["bytes"]);
			} else if (o == "load") {
				auto r = zk::Read::from(&file);
				tex.load(r.get());
				ev["left"] = static_cast<int>(file.size() - r->tell());
				ev["out"] = show(tex);
			} else if (o == "save") {
				file.clear();
				auto w = zk::Write::to(&file);
				tex.save(w.get());
				ev["out"] = show(tex);
			} else if (o == "builder") {
				builder = std::make_unique<zk::TextureBuilder>(op["w"].get<uint32_t>(), op["h"].get<uint32_t>());
			} else if (o == "add") {
				builder->add_mipmap(u8(op["data"]), static_cast<zk::TextureFormat>(op["fmt"].get<int>()));
			} else if (o == "build") {
				tex = builder->build(static_cast<zk::TextureFormat>(op["fmt"].get<int>()));
				ev["out"] = show(tex);
			}
		} catch (zk::Error const&) {
			ev["res"] = "error";
		}
		return ev;
	}
};

int main(int argc, char** argv) { return run_driver<TextureDriver>(argc, argv); }
