// Conformance driver for compiled Daedalus scripts (D06).
#include "common.hh"
#include <zenkit/DaedalusScript.hh>

struct ScriptDriver : Driver {
	std::unique_ptr<zk::DaedalusScript> s;
	void begin() override { s = nullptr; }

	static json id(zk::DaedalusSymbol const* y) { return y ? static_cast<int>(y->index()) : -1; }

	template <typename V>
	static json ids(V const& v) {
		json j = json::array();
		for (auto& x : v) j.push_back(static_cast<int>(x.index()));
		return j;
	}

	json view(zk::DaedalusSymbol& y) {
		json v = json::array();
		if (!y.is_member())
			for (uint32_t i = 0; i < y.count(); ++i) {
				if (y.type() == zk::DaedalusDataType::FLOAT) v.push_back(word(fbits(y.get_float(i))));
				else if (y.type() == zk::DaedalusDataType::INT) v.push_back(word(y.get_int(i)));
				else if (y.type() == zk::DaedalusDataType::STRING) v.push_back(from_str(y.get_string(i)));
			}
		return {{"index", word(y.index())}, {"name", from_str(y.name())}, {"gen", y.is_generated()}, {"count", y.count()},
		        {"type", static_cast<int>(y.type())}, {"const", y.is_const()}, {"ret", y.has_return()}, {"member", y.is_member()},
		        {"ext", y.is_external()}, {"merged", y.is_merged()}, {"offset", word(y.offset_as_member())}, {"size", word(y.class_size())},
		        {"rtype", word(static_cast<uint32_t>(y.rtype()))}, {"file", word(y.file_index())}, {"line", word(y.line_start())},
		        {"lines", word(y.line_count())}, {"char", word(y.char_start())}, {"chars", word(y.char_count())},
		        {"addr", word(y.address())}, {"parent", word(y.parent())}, {"val", v}};
	}

	json run(json const& o) {
		std::string op = o["op"];
		if (op == "load") {
			s = std::make_unique<zk::DaedalusScript>();
			auto b = to_bytes(o["data"]);
			auto r = zk::Read::from(&b);
			s->load(r.get());
			return {{"n", s->symbols().size()}, {"size", s->size()}};
		}
		auto const& cs = *s;
		if (op == "by_index") {
			auto* a = s->find_symbol_by_index(unword(o["key"]));
			if (a != cs.find_symbol_by_index(unword(o["key"]))) return "const and mutable lookup differ";
			return id(a);
		}
		if (op == "by_name") {
			auto* a = s->find_symbol_by_name(to_str(o["key"]));
			if (a != cs.find_symbol_by_name(to_str(o["key"]))) return "const and mutable lookup differ";
			return id(a);
		}
		if (op == "by_address") {
			auto* a = s->find_symbol_by_address(unword(o["key"]));
			if (a != cs.find_symbol_by_address(unword(o["key"]))) return "const and mutable lookup differ";
			return id(a);
		}
		if (op == "instr") {
			auto i = s->instruction_at(o["at"].get<uint32_t>());
			return {{"op", static_cast<int>(i.op)}, {"address", word(i.address)}, {"symbol", word(i.symbol)}, {"immediate", word(i.immediate)},
			        {"index", i.index}, {"size", i.size}};
		}
		if (op == "instances") {
			json j = json::array();
			s->enumerate_instances_by_class_name(to_str(o["key"]), [&](zk::DaedalusSymbol& y) { j.push_back(id(&y)); });
			return j;
		}
		auto& y = *s->find_symbol_by_index(o["i"].get<uint32_t>());
		if (op == "symbol") return view(y);
		if (op == "params") {
			auto a = ids(s->find_parameters_for_function(&y));
			if (a != ids(cs.find_parameters_for_function(&y))) return "const and mutable lookup differ";
			return a;
		}
		if (op == "locals") return ids(s->find_locals_for_function(&y));
		if (op == "members") {
			json j = json::array();
			for (auto* m : s->find_class_members(y)) j.push_back(id(m));
			return j;
		}
		return nullptr;
	}

	json step(json const& o) override {
		json e = o;
		try {
			e["res"] = run(o);
		} catch (std::exception const& x) {
			e["res"] = std::string("threw ") + x.what();
		}
		return e;
	}
};

int main(int argc, char** argv) { return run_driver<ScriptDriver>(argc, argv); }
