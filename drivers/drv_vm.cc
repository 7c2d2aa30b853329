// Conformance driver for DaedalusScript and DaedalusVm.
#include "common.hh"

#include <zenkit/DaedalusScript.hh>
#include <zenkit/DaedalusVm.hh>

#include <map>
#include <optional>

struct A final : zk::DaedalusInstance {
	int32_t i = 0;
	int32_t arr[3] = {0, 0, 0};
	float f = 0;
	std::string s;
	int32_t fn = 0;
};
struct B final : zk::DaedalusInstance {
	int32_t x = 0;
	std::string t[2];
};
struct T final : zk::DaedalusTransientInstance {
	std::map<std::pair<uint32_t, uint16_t>, int32_t> ints;
	std::map<std::pair<uint32_t, uint16_t>, float> floats;
	mutable std::map<std::pair<uint32_t, uint16_t>, std::string> strs;
	void set_int(zk::DaedalusSymbol const& s, uint16_t i, int32_t v) override { ints[{s.index(), i}] = v; }
	int32_t get_int(zk::DaedalusSymbol const& s, uint16_t i) const override { auto k = ints.find({s.index(), i}); return k == ints.end() ? 0 : k->second; }
	void set_float(zk::DaedalusSymbol const& s, uint16_t i, float v) override { floats[{s.index(), i}] = v; }
	float get_float(zk::DaedalusSymbol const& s, uint16_t i) const override { auto k = floats.find({s.index(), i}); return k == floats.end() ? 0 : k->second; }
	void set_string(zk::DaedalusSymbol const& s, uint16_t i, std::string_view v) override { strs[{s.index(), i}] = v; }
	std::string const& get_string(zk::DaedalusSymbol const& s, uint16_t i) const override { return strs[{s.index(), i}]; }
};

using Inst = std::shared_ptr<zk::DaedalusInstance>;

static std::string error_class(std::exception const& e) {
	int st = 0;
	std::string n = typeid(e).name();
	// _ZN6zenkit19DaedalusVmException... : take the last identifier
	std::string last;
	for (size_t i = 0; i < n.size();) {
		if (isdigit(n[i])) {
			size_t len = strtoul(n.c_str() + i, nullptr, 10);
			while (isdigit(n[i])) ++i;
			last = n.substr(i, len);
			i += len;
		} else
			++i;
	}
	(void) st;
	return last;
}

static int32_t s32(uint32_t v) { return static_cast<int32_t>(v); }

struct VmDriver : Driver {
	std::unique_ptr<zk::DaedalusVm> vm;
	json syms;
	std::vector<Inst> insts;
	std::vector<std::string> kinds;
	json log = json::array();

	void begin() override {}

	int id_of(zk::DaedalusInstance const* p) {
		if (!p) return 0;
		for (size_t k = 0; k < insts.size(); ++k)
			if (insts[k].get() == p) return static_cast<int>(k) + 1;
		return -1;
	}

	Inst inst(int id) { return id <= 0 ? nullptr : insts.at(id - 1); }

	// ------------------------------------------------------------------ program
	static std::vector<std::byte> image(json const& op) {
		std::vector<std::byte> out;
		auto w = zk::Write::to(&out);
		auto const& syms = op["syms"];
		w->write_ubyte(0x32);
		w->write_uint(static_cast<uint32_t>(syms.size()));
		for (uint32_t i = 0; i < syms.size(); ++i) w->write_uint(i);
		for (auto& s : syms) {
			w->write_uint(1);
			std::string name = s["name"];
			w->write_string(name);
			w->write_ubyte('\n');
			int type = s["type"];
			bool member = s["member"];
			w->write_uint(member ? 0 : type == 5 ? static_cast<uint32_t>(s["rtype"].get<int>()) : type == 4 ? 64 : 0);
			uint32_t flags = (s["const"].get<bool>() ? 1 : 0) | (s["ret"].get<bool>() ? 2 : 0) | (member ? 4 : 0) | (s["ext"].get<bool>() ? 8 : 0);
			w->write_uint(static_cast<uint32_t>(s["count"].get<int>()) | static_cast<uint32_t>(type) << 12 | flags << 16);
			for (int k = 0; k < 5; ++k) w->write_uint(0);
			if (!member) {
				if (type == 1 || type == 2)
					for (auto& v : s["val"]) w->write_int(v.get<int32_t>());
				else if (type == 3)
					for (auto& v : s["val"]) {
						w->write_string(v.get<std::string>());
						w->write_ubyte('\n');
					}
				else if (type == 4)
					w->write_int(0);
				else if (type >= 5 && type <= 7)
					w->write_int(s["addr"].get<int32_t>());
			}
			w->write_int(s["parent"].get<int32_t>());
		}
		w->write_uint(static_cast<uint32_t>(op["code"].size()));
		for (auto& c : op["code"]) w->write_ubyte(static_cast<uint8_t>(c.get<int>()));
		return out;
	}

	void load(json const& op) {
		syms = op["syms"];
		auto bytes = image(op);
		zk::DaedalusScript script;
		auto r = zk::Read::from(&bytes);
		script.load(r.get());
		for (auto& s : syms) {
			if (s["type"] != 4) continue;
			std::string reg = s["reg"], name = s["name"];
			if (reg == "A") {
				script.register_member(name + ".I", &A::i);
				script.register_member(name + ".ARR", &A::arr);
				script.register_member(name + ".F", &A::f);
				script.register_member(name + ".S", &A::s);
				script.register_member(name + ".FN", &A::fn);
			} else if (reg == "B") {
				script.register_member(name + ".X", &B::x);
				script.register_member(name + ".T", &B::t);
			} else if (reg == "opaque")
				script.register_as_opaque(name);
		}
		uint8_t flags = (op["nullok"].get<bool>() ? zk::DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS : 0) |
		    (op["ignconst"].get<bool>() ? zk::DaedalusVmExecutionFlag::IGNORE_CONST_SPECIFIER : 0);
		vm = std::make_unique<zk::DaedalusVm>(std::move(script), flags);
		for (size_t i = 0; i < syms.size(); ++i) {
			if (syms[i]["locals"].get<bool>()) vm->find_symbol_by_index(i)->set_local_variables_enable(true);
			if (syms[i]["trap"].get<bool>()) vm->find_symbol_by_index(i)->set_access_trap_enable(true);
		}
	}

	// ------------------------------------------------------------------ callbacks
	json tag(int32_t v) { return {"i", v}; }
	json tag(bool v) { return {"b", v ? 1 : 0}; }
	json tag(float v) { return {"f", s32(fbits(v))}; }
	json tag(zk::DaedalusFunction v) { return {"F", v.value ? static_cast<int32_t>(v.value->index()) : -1}; }
	json tag(zk::DaedalusSymbol* v) { return {"y", v ? static_cast<int32_t>(v->index()) : -1}; }
	json tag(zk::DaedalusInstance* v) { return {"n", id_of(v)}; }
	json tag(std::string_view v) { return {"s", std::string {v}}; }
	template <typename I>
	json tag(std::shared_ptr<I> const& v) { return {"n", id_of(v.get())}; }

	template <typename R>
	R ret(json const& v) {
		if constexpr (std::is_same_v<R, int32_t>) return v.get<int32_t>();
		else if constexpr (std::is_same_v<R, float>) return bitsf(static_cast<uint32_t>(v.get<int32_t>()));
		else if constexpr (std::is_same_v<R, std::string>) return v.get<std::string>();
		else if constexpr (std::is_same_v<R, Inst>) return inst(v.get<int>());
		else if constexpr (std::is_same_v<R, bool>) return v.get<int>() != 0;
		else if constexpr (std::is_same_v<R, std::shared_ptr<A>>) return std::static_pointer_cast<A>(inst(v.get<int>()));
	}

	template <typename R, typename... P>
	std::function<R(P...)> callback(json const& op) {
		json cb = op["cb"];
		std::string name = op["fn"];
		return std::function<R(P...)> {[this, cb, name](P... args) -> R {
			json a = json::array();
			(a.push_back(tag(args)), ...);
			log.push_back({{"k", "cb"}, {"name", name}, {"id", cb["id"]}, {"args", a}});
			std::string act = cb["act"];
			if (act == "throw") throw zk::DaedalusVmException {"callback failed"};
			if (act == "throwstd") throw std::runtime_error {"callback failed"};
			if (act == "call") vm->call_function(cb["target"].get<std::string>());
			if constexpr (!std::is_same_v<R, void>) return ret<R>(cb["rv"]);
		}};
	}

	template <typename R, typename... P>
	void reg(json const& op) {
		std::string as = op.value("as", op["fn"].get<std::string>());
		if (op["op"] == "external") vm->register_external(as, callback<R, P...>(op));
		else vm->override_function(as, callback<R, P...>(op));
	}

	template <typename... P>
	void reg_ret(json const& op) {
		std::string r = op["cb"]["ret"];
		if (r == "v") reg<void, P...>(op);
		else if (r == "i") reg<int32_t, P...>(op);
		else if (r == "f") reg<float, P...>(op);
		else if (r == "s") reg<std::string, P...>(op);
		else reg<Inst, P...>(op);
	}

	template <typename... P>
	void reg_few(json const& op) {
		std::string r = op["cb"]["ret"];
		if (r == "v") reg<void, P...>(op);
		else if (r == "i") reg<int32_t, P...>(op);
		else if (r == "b") reg<bool, P...>(op);
		else if (r == "A") reg<std::shared_ptr<A>, P...>(op);
		else {
			fprintf(stderr, "no return type %s here\n", r.c_str());
			exit(97);
		}
	}

	void register_cb(json const& op) {
		if (op["cb"]["naked"].get<bool>()) {
			json cb = op["cb"];
			vm->override_function(op.value("as", op["fn"].get<std::string>()), std::function<zk::DaedalusNakedCall(zk::DaedalusVm&)> {[this, cb](zk::DaedalusVm& v) {
				std::vector<json> a;
				for (size_t k = cb["params"].size(); k > 0; --k) {
					std::string p = cb["params"][k - 1];
					if (p == "i") a.push_back(tag(v.pop_int()));
					else if (p == "f") a.push_back(tag(v.pop_float()));
					else if (p == "s") a.push_back(tag(std::string_view {v.pop_string()}));
					else a.push_back(tag(v.pop_instance()));
				}
				json args = json::array();
				for (auto k = a.rbegin(); k != a.rend(); ++k) args.push_back(*k);
				log.push_back({{"k", "cb"}, {"name", ""}, {"id", cb["id"]}, {"args", args}});
				std::string r = cb["ret"];
				if (r == "i") v.push_int(cb["rv"].get<int32_t>());
				else if (r == "f") v.push_float(bitsf(static_cast<uint32_t>(cb["rv"].get<int32_t>())));
				else if (r == "s") v.push_string(cb["rv"].get<std::string>());
				else if (r == "n") v.push_instance(inst(cb["rv"].get<int>()));
				return zk::DaedalusNakedCall {};
			}});
			return;
		}
		std::string p;
		for (auto& x : op["cb"]["params"]) p += x.get<std::string>();
		using S = std::string_view;
		using SA = std::shared_ptr<A>;
		using SB = std::shared_ptr<B>;
		std::string few = op["cb"]["ret"];
		if (p == "" && (few == "b" || few == "A")) reg_few<>(op);
		else if (p == "ii" && (few == "b" || few == "A")) reg_few<int32_t, int32_t>(op);
		else if (p == "F") reg_few<zk::DaedalusFunction>(op);
		else if (p == "y") reg_few<zk::DaedalusSymbol*>(op);
		else if (p == "N") reg_few<zk::DaedalusInstance*>(op);
		else if (p == "a") reg_few<A*>(op);
		else if (p == "bi") reg_few<bool, int32_t>(op);
		else if (p == "iiii") reg_few<int32_t, int32_t, int32_t, int32_t>(op);
		else if (p == "fsib") reg_few<float, S, int32_t, bool>(op);
		else if (p == "sAiFn") reg_few<S, SA, int32_t, zk::DaedalusFunction, Inst>(op);
		else if (p == "fffiii") reg_few<float, float, float, int32_t, int32_t, int32_t>(op);
		else if (p == "") reg_ret<>(op);
		else if (p == "i") reg_ret<int32_t>(op);
		else if (p == "b") reg_ret<bool>(op);
		else if (p == "f") reg_ret<float>(op);
		else if (p == "s") reg_ret<S>(op);
		else if (p == "n") reg_ret<Inst>(op);
		else if (p == "A") reg_ret<SA>(op);
		else if (p == "B") reg_ret<SB>(op);
		else if (p == "ii") reg_ret<int32_t, int32_t>(op);
		else if (p == "is") reg_ret<int32_t, S>(op);
		else if (p == "si") reg_ret<S, int32_t>(op);
		else if (p == "ss") reg_ret<S, S>(op);
		else if (p == "fi") reg_ret<float, int32_t>(op);
		else if (p == "if") reg_ret<int32_t, float>(op);
		else if (p == "ni") reg_ret<Inst, int32_t>(op);
		else if (p == "An") reg_ret<SA, Inst>(op);
		else if (p == "isf") reg_ret<int32_t, S, float>(op);
		else if (p == "sAi") reg_ret<S, SA, int32_t>(op);
		else {
			fprintf(stderr, "no callback signature %s\n", p.c_str());
			exit(97);
		}
	}

	// ------------------------------------------------------------------ calls
	template <typename... P>
	json call_ret(json const& op, P... args) {
		std::string w = op["want"];
		std::string fn = op.value("as", op["fn"].get<std::string>());
		if (w == "ignore") return vm->call_function(fn, args...), json::array();
		if (w == "v") return vm->call_function<void>(fn, args...), json::array();
		if (w == "i") return {"i", vm->call_function<int32_t>(fn, args...)};
		if (w == "f") return {"f", s32(fbits(vm->call_function<float>(fn, args...)))};
		if (w == "s") return {"s", vm->call_function<std::string>(fn, args...)};
		if (w == "A") return {"A", id_of(vm->call_function<std::shared_ptr<A>>(fn, args...).get())};
		fprintf(stderr, "no return type %s\n", w.c_str());
		exit(97);
	}

	json call(json const& op) {
		std::string p;
		for (auto& x : op["args"]) p += x[0].get<std::string>();
		// strings are handed over from a buffer that is overwritten afterwards
		std::vector<std::string> keep;
		for (auto& x : op["args"]) keep.push_back(x[0] == "s" ? x[1].get<std::string>() : std::string {});
		auto I = [&](int k) { return op["args"][k][1].get<int32_t>(); };
		auto F = [&](int k) { return bitsf(static_cast<uint32_t>(I(k))); };
		auto S = [&](int k) { return std::string_view {keep[k]}; };
		auto N = [&](int k) { return inst(I(k)); };
		if (p == "") return call_ret(op);
		if (p == "i") return call_ret(op, I(0));
		if (p == "b") return call_ret(op, I(0) != 0);
		if (p == "f") return call_ret(op, F(0));
		if (p == "s") return call_ret(op, S(0));
		if (p == "n") return call_ret(op, N(0));
		if (p == "ii") return call_ret(op, I(0), I(1));
		if (p == "is") return call_ret(op, I(0), S(1));
		if (p == "si") return call_ret(op, S(0), I(1));
		if (p == "ss") return call_ret(op, S(0), S(1));
		if (p == "fi") return call_ret(op, F(0), I(1));
		if (p == "if") return call_ret(op, I(0), F(1));
		if (p == "ni") return call_ret(op, N(0), I(1));
		if (p == "isf") return call_ret(op, I(0), S(1), F(2));
		fprintf(stderr, "no call signature %s\n", p.c_str());
		exit(97);
	}

	void init(json const& op) {
		std::string kind = op["kind"], name = op.value("as", op["sym"].get<std::string>());
		bool alloc = op["alloc"];
		auto* sym = vm->find_symbol_by_name(name);
		auto keep = [&](Inst const& i) {
			insts.push_back(i);
			kinds.push_back(kind);
		};
		// an instance counts once the library has bound it to its symbol, even if the initialiser failed afterwards
		auto go = [&](auto i) {
			keep(i);
			try {
				if (alloc) vm->allocate_instance(i, name);
				else vm->init_instance(i, name);
			} catch (...) {
				if (i->symbol_index() == static_cast<uint32_t>(-1)) insts.pop_back(), kinds.pop_back();
				throw;
			}
		};
		if (kind == "A") go(std::make_shared<A>());
		else if (kind == "B") go(std::make_shared<B>());
		else {
			// the library makes the instance: callbacks that see it during the initialisation get to know it by the symbol
			size_t n = insts.size();
			Inst old = sym && sym->type() == zk::DaedalusDataType::INSTANCE ? sym->get_instance() : nullptr;
			pending = sym;
			pending_old = old;
			try {
				vm->init_opaque_instance(sym);
			} catch (...) {
				settle(kind, n);
				throw;
			}
			settle(kind, n);
		}
	}

	zk::DaedalusSymbol* pending = nullptr;
	Inst pending_old;
	void settle(std::string const& kind, size_t) {
		auto* sym = pending;
		pending = nullptr;
		if (!sym || sym->type() != zk::DaedalusDataType::INSTANCE) return;
		auto i = sym->get_instance();
		if (i && i != pending_old && id_of(i.get()) < 0) {
			insts.push_back(i);
			kinds.push_back(kind);
		}
	}

	// ------------------------------------------------------------------ observation
	json values(zk::DaedalusSymbol& s, zk::DaedalusInstance* ctx) {
		json v = json::array();
		using D = zk::DaedalusDataType;
		if (s.type() == D::INSTANCE && !s.is_member()) {
			v.push_back(id_of(s.get_instance().get()));
			return v;
		}
		if (s.type() == D::FUNCTION && s.is_const() && !s.is_member()) return v;
		for (uint16_t i = 0; i < s.count(); ++i) {
			if (s.type() == D::INT || s.type() == D::FUNCTION) v.push_back(s.get_int(i, ctx));
			else if (s.type() == D::FLOAT) v.push_back(s32(fbits(s.get_float(i, ctx))));
			else if (s.type() == D::STRING) v.push_back(s.get_string(i, ctx));
		}
		return v;
	}

	void observe(json& res) {
		json vals = json::array();
		for (size_t i = 0; i < syms.size(); ++i) {
			auto* s = vm->find_symbol_by_index(i);
			vals.push_back(s->is_member() ? json::array() : values(*s, nullptr));
		}
		json all = json::array();
		for (size_t k = 0; k < insts.size(); ++k) {
			json mem = json::array();
			for (size_t i = 0; i < syms.size(); ++i) {
				auto* s = vm->find_symbol_by_index(i);
				json v = json::array();
				if (s->is_member()) {
					auto* cls = vm->find_symbol_by_index(s->parent());
					std::string reg = syms[s->parent()]["reg"];
					std::string n = s->name().substr(s->name().find('.') + 1);
					// fields of registered structures are looked at directly
					if (kinds[k] == "A" && reg == "A") {
						auto& a = static_cast<A&>(*insts[k]);
						if (n == "I") v = {a.i};
						else if (n == "ARR") v = {a.arr[0], a.arr[1]};
						else if (n == "F") v = {s32(fbits(a.f))};
						else if (n == "S") v = {a.s};
						else if (n == "FN") v = {a.fn};
					} else if (kinds[k] == "B" && reg == "B") {
						auto& b = static_cast<B&>(*insts[k]);
						if (n == "X") v = {b.x};
						else if (n == "T") v = {b.t[0], b.t[1]};
					} else if (kinds[k] == "transient")
						v = values(*s, insts[k].get());
					else if (kinds[k] == "opaque" && reg == "opaque") {
						// of its own class only
						auto* own = vm->find_symbol_by_index(insts[k]->symbol_index());
						while (own && own->type() != zk::DaedalusDataType::CLASS) own = vm->find_symbol_by_index(own->parent());
						if (own == cls) v = values(*s, insts[k].get());
					}
				}
				mem.push_back(v);
			}
			all.push_back(mem);
		}
		res["vals"] = vals;
		res["insts"] = all;
		res["cur"] = id_of(vm->unsafe_get_gi().get());
		bool empty = false;
		try {
			(void) vm->top_is_reference();
		} catch (zk::DaedalusVmException&) {
			empty = true;
		}
		res["empty"] = empty;
	}

	json step(json const& op) override {
		json ev = op, res;
		std::string o = op["op"];
		log = json::array();
		res["v"] = json::array();
		res["cls"] = "";
		try {
			if (o == "load") load(op);
			else if (o == "handler") {
				json h = op;
				if (op["kind"] == "lenient") vm->register_exception_handler(zk::lenient_vm_exception_handler);
				else if (op["kind"] == "map")
					vm->register_exception_handler([this, h](zk::DaedalusVm&, zk::DaedalusScriptError const& e, zk::DaedalusInstruction const& i) {
						log.push_back({{"k", "handler"}, {"o", static_cast<int>(i.op)}, {"cls", error_class(e)}});
						std::string s = h["dfl"];
						for (auto& b : h["by"])
							if (b["o"] == static_cast<int>(i.op)) {
								s = b["s"];
								break;
							}
						return s == "continue" ? zk::DaedalusVmExceptionStrategy::CONTINUE : s == "return" ? zk::DaedalusVmExceptionStrategy::RETURN : zk::DaedalusVmExceptionStrategy::FAIL;
					});
			} else if (o == "external" || o == "override") register_cb(op);
			else if (o == "default") {
				bool throws = op["throws"];
				bool by_name = op.value("by_name", false);
				auto f = [this, throws](std::string const& n) {
					log.push_back({{"k", "dflt"}, {"name", n}});
					if (throws) throw zk::DaedalusVmException {"callback failed"};
				};
				if (by_name) vm->register_default_external(std::function<void(std::string_view)> {[f](std::string_view n) { f(std::string {n}); }});
				else vm->register_default_external(std::function<void(zk::DaedalusSymbol const&)> {[f](zk::DaedalusSymbol const& s) { f(s.name()); }});
			} else if (o == "trap") {
				int32_t v = op["v"];
				vm->register_access_trap([this, v](zk::DaedalusSymbol& s) {
					log.push_back({{"k", "trap"}, {"name", s.name()}});
					vm->push_int(v);
				});
			} else if (o == "call") res["v"] = call(op);
			else if (o == "init") init(op);
			else if (o == "transient") {
				insts.push_back(std::make_shared<T>());
				kinds.push_back("transient");
			} else if (o == "setinst") vm->find_symbol_by_name(op["sym"].get<std::string>())->set_instance(inst(op["id"]));
			else if (o == "setgi") vm->unsafe_set_gi(inst(op["id"]));
			else if (o == "locals") vm->find_symbol_by_name(op["fn"].get<std::string>())->set_local_variables_enable(op["on"].get<bool>());
			else if (o == "push") {
				std::string k = op["v"][0];
				for (int n = 0; n < op["n"].get<int>(); ++n) {
					if (k == "i") vm->push_int(op["v"][1].get<int32_t>());
					else if (k == "f") vm->push_float(bitsf(static_cast<uint32_t>(op["v"][1].get<int32_t>())));
					else if (k == "s") vm->push_string(op["v"][1].get<std::string>());
					else vm->push_instance(inst(op["v"][1].get<int>()));
				}
			} else if (o == "pop") {
				std::string k = op["k"];
				if (k == "i") res["v"] = {"i", vm->pop_int()};
				else if (k == "f") res["v"] = {"f", s32(fbits(vm->pop_float()))};
				else if (k == "s") res["v"] = {"s", vm->pop_string()};
				else res["v"] = {"n", id_of(vm->pop_instance().get())};
			} else {
				fprintf(stderr, "unknown op %s\n", o.c_str());
				exit(97);
			}
			res["r"] = "ok";
		} catch (zk::Error const& e) {
			res["r"] = "err";
			res["cls"] = error_class(e);
			res["what"] = e.what();
		} catch (std::runtime_error const& e) {
			res["r"] = "err";
			res["cls"] = std::string {e.what()} == "callback failed" ? "std" : error_class(e);
		} catch (std::exception const& e) {
			res["r"] = "err";
			res["cls"] = error_class(e);
		}
		res["log"] = log;
		observe(res);
		ev["res"] = res;
		return ev;
	}
};

int main(int argc, char** argv) { return run_driver<VmDriver>(argc, argv); }
