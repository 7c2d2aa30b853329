// Conformance driver for the virtual file system (specs/Vfs.tla).
#include "common.hh"

#include <zenkit/Vfs.hh>

#include <fcntl.h>
#include <sys/stat.h>
#include <ctime>
#include <filesystem>

namespace fs = std::filesystem;

// Directories made by mkdir carry the current time; the specification knows a single NOW.
static long long norm_time(std::time_t t) {
	auto now = std::time(nullptr);
	return t > now - 3600 && t < now + 3600 ? 2000000000 : static_cast<long long>(t);
}

static zk::VfsNode make_node(json const& j) {
	auto name = to_str(j["nm"]);
	auto t = static_cast<std::time_t>(j["t"].get<long long>());
	if (j["k"] == "f") {
		auto data = to_bytes(j["c"]);
		auto* mem = new std::byte[data.size()];
		std::copy(data.begin(), data.end(), mem);
		return zk::VfsNode::file(name, zk::VfsFileDescriptor {mem, data.size(), true}, t);
	}
	auto n = zk::VfsNode::directory(name, t);
	for (auto& c : j["ch"]) n.create(make_node(c));
	return n;
}

static void make_host(json const& j, fs::path const& at) {
	fs::create_directory(at);
	for (auto& c : j["ch"]) {
		auto p = at / to_str(c["nm"]);
		if (c["k"] == "f") {
			auto data = to_bytes(c["c"]);
			std::ofstream o {p, std::ios::binary};
			o.write(reinterpret_cast<char const*>(data.data()), static_cast<std::streamsize>(data.size()));
			o.close();
		} else {
			make_host(c, p);
		}
		timespec ts[2] {{c["t"].get<long>(), 0}, {c["t"].get<long>(), 0}};
		utimensat(AT_FDCWD, p.c_str(), ts, 0);
	}
}

static json contents(zk::VfsNode const& n) {
	auto r = n.open_read();
	r->seek(0, zk::Whence::END);
	auto sz = r->tell();
	r->seek(0, zk::Whence::BEG);
	std::vector<std::byte> v(sz);
	if (sz > 0) r->read(v.data(), sz);
	return from_bytes(v);
}

static json node(zk::VfsNode const* n) {
	if (n == nullptr) return {{"k", "none"}};
	bool f = n->type() == zk::VfsNodeType::FILE;
	return {{"k", f ? "f" : "d"}, {"nm", from_str(n->name())}, {"t", norm_time(n->time())}, {"c", f ? contents(*n) : json::array()}};
}

static void dump(zk::VfsNode const& n, json& out, json const& prefix) {
	for (auto& c : n.children()) {
		json p = prefix;
		p.push_back(from_str(c.name()));
		json e = node(&c);
		e.erase("nm");
		e["p"] = p;
		out.push_back(e);
		if (c.type() == zk::VfsNodeType::DIRECTORY) dump(c, out, p);
	}
}

static zk::VfsOverwriteBehavior policy(json const& j) {
	std::string s = j;
	if (s == "none") return zk::VfsOverwriteBehavior::NONE;
	if (s == "all") return zk::VfsOverwriteBehavior::ALL;
	if (s == "newer") return zk::VfsOverwriteBehavior::NEWER;
	return zk::VfsOverwriteBehavior::OLDER;
}

struct Vfs : Driver {
	std::unique_ptr<zk::Vfs> vfs;
	std::vector<std::vector<std::byte>> images; // saved images, for later mounting
	static inline int serial = 0;

	void begin() override {
		vfs = std::make_unique<zk::Vfs>();
	}

	json step(json const& op) override {
		json ev = op;
		json res {{"r", "ok"}};
		std::string what = op["op"];
		try {
			if (what == "mkdir") {
				auto& n = vfs->mkdir(to_str(op["path"]));
				res["node"] = &n == &vfs->root() ? json {{"k", "none"}} : node(&n);
			} else if (what == "mount") {
				vfs->mount(make_node(op["tree"]), to_str(op["parent"]), policy(op["policy"]));
			} else if (what == "host") {
				auto dir = fs::path {g_scratch} / ("host" + std::to_string(serial++));
				make_host(op["tree"], dir);
				vfs->mount_host(dir, to_str(op["parent"]), policy(op["policy"]));
			} else if (what == "disk") {
				auto img = op.contains("saved") ? images.at(op["saved"].get<size_t>()) : to_bytes(op["img"]);
				ev["img"] = from_bytes(img);
				ev.erase("saved");
				std::string via = op["via"];
				if (via == "file") {
					auto p = fs::path {g_scratch} / ("img" + std::to_string(serial++));
					std::ofstream o {p, std::ios::binary};
					o.write(reinterpret_cast<char const*>(img.data()), static_cast<std::streamsize>(img.size()));
					o.close();
					vfs->mount_disk(p, policy(op["policy"]));
				} else {
					auto r = zk::Read::from(img);
					vfs->mount_disk(r.get(), policy(op["policy"]));
				}
			} else if (what == "remove") {
				res["found"] = vfs->remove(to_str(op["path"]));
			} else if (what == "resolve") {
				auto path = to_str(op["path"]);
				auto* a = static_cast<zk::Vfs const&>(*vfs).resolve(path);
				auto* b = vfs->resolve(path);
				if (a != b) res["r"] = "const and non-const resolve differ";
				res["node"] = a == &vfs->root() ? json {{"k", "none"}} : node(a);
			} else if (what == "find") {
				auto name = to_str(op["name"]);
				auto* a = static_cast<zk::Vfs const&>(*vfs).find(name);
				auto* b = vfs->find(name);
				if (a != b) res["r"] = "const and non-const find differ";
				res["node"] = node(a);
			} else if (what == "save") {
				std::vector<std::byte> img;
				auto w = zk::Write::to(&img);
				vfs->save(w.get(), op["game"] == 1 ? zk::GameVersion::GOTHIC_1 : zk::GameVersion::GOTHIC_2, op["time"].get<long>());
				ev["img"] = from_bytes(img);
				images.push_back(img);
			} else if (what == "fresh") { // continue with an empty file system (and the saved images)
				vfs = std::make_unique<zk::Vfs>();
			}
		} catch (zk::VfsNotFoundError const&) {
			res = {{"r", "notfound"}};
		} catch (zk::VfsFileExistsError const&) {
			res = {{"r", "exists"}};
		} catch (zk::VfsBrokenDiskError const&) {
			res = {{"r", "broken"}};
		} catch (std::exception const& e) {
			res = {{"r", std::string("exception: ") + e.what()}};
		}
		ev["res"] = res;
		json st = json::array();
		dump(vfs->root(), st, json::array());
		ev["st"] = st;
		return ev;
	}
};

int main(int argc, char** argv) {
	return run_driver<Vfs>(argc, argv);
}
