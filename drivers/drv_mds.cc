// Loads model scripts (source and compiled) and shows everything they declare.
#include "common.hh"

#include <zenkit/ModelScript.hh>

#include <cmath>

// Numbers with a fraction are shown twice: as thousandths (what a source text says) and as their bits (what a file stores).
static json shown(zk::ModelScript const& s, bool bits) {
	auto num = [bits](float f) -> json {
		if (bits) {
			uint32_t v;
			memcpy(&v, &f, 4);
			return word(v);
		}
		auto m = std::round(static_cast<double>(f) * 1000);
		return std::abs(m) < 1e9 ? json(static_cast<long>(m)) : json("out of range");
	};
	auto S = [](std::string const& x) { return from_str(x); };
	auto list = [](auto const& v, auto f) {
		json j = json::array();
		for (auto& x : v) j.push_back(f(x));
		return j;
	};
	json o;
	o["skel"] = {{"name", S(s.skeleton.name)}, {"nomesh", s.skeleton.disable_mesh}};
	o["meshes"] = list(s.meshes, S);
	o["disabled"] = list(s.disabled_animations, S);
	o["combs"] = list(s.combinations, [&](zk::MdsAnimationCombine const& c) -> json {
		return {{"name", S(c.name)}, {"layer", static_cast<int32_t>(c.layer)}, {"next", S(c.next)}, {"bin", num(c.blend_in)}, {"bout", num(c.blend_out)}, {"flags", static_cast<int>(c.flags)},
		        {"model", S(c.model)}, {"last", c.last_frame}};
	});
	o["blends"] = list(s.blends, [&](zk::MdsAnimationBlend const& c) -> json {
		return {{"name", S(c.name)}, {"next", S(c.next)}, {"bin", num(c.blend_in)}, {"bout", num(c.blend_out)}};
	});
	o["aliases"] = list(s.aliases, [&](zk::MdsAnimationAlias const& c) -> json {
		return {{"name", S(c.name)}, {"layer", static_cast<int32_t>(c.layer)}, {"next", S(c.next)}, {"bin", num(c.blend_in)}, {"bout", num(c.blend_out)}, {"flags", static_cast<int>(c.flags)},
		        {"alias", S(c.alias)}, {"back", c.direction == zk::AnimationDirection::BACKWARD}};
	});
	o["tags"] = list(s.model_tags, [&](zk::MdsModelTag const& c) { return S(c.bone); });
	o["anis"] = list(s.animations, [&](zk::MdsAnimation const& c) -> json {
		json j = {{"name", S(c.name)}, {"layer", static_cast<int32_t>(c.layer)}, {"next", S(c.next)}, {"bin", num(c.blend_in)}, {"bout", num(c.blend_out)}, {"flags", static_cast<int>(c.flags)},
		          {"model", S(c.model)}, {"back", c.direction == zk::AnimationDirection::BACKWARD}, {"first", c.first_frame}, {"last", c.last_frame}, {"fps", num(c.fps)}, {"speed", num(c.speed)},
		          {"cvs", num(c.collision_volume_scale)}};
		j["tag"] = list(c.events, [&](zk::MdsEventTag const& e) -> json {
			return {{"frame", e.frame}, {"type", static_cast<int>(e.type)}, {"slot", S(e.slot)}, {"slot2", S(e.slot2)}, {"item", S(e.item)}, {"frames", e.frames},
			        {"mode", static_cast<int>(e.fight_mode)}, {"attach", e.attached}};
		});
		j["sfx"] = list(c.sfx, [&](zk::MdsSoundEffect const& e) -> json { return {{"frame", e.frame}, {"name", S(e.name)}, {"range", num(e.range)}, {"empty", e.empty_slot}}; });
		j["grnd"] = list(c.sfx_ground, [&](zk::MdsSoundEffectGround const& e) -> json { return {{"frame", e.frame}, {"name", S(e.name)}, {"range", num(e.range)}, {"empty", e.empty_slot}}; });
		j["pfx"] = list(c.pfx, [&](zk::MdsParticleEffect const& e) -> json { return {{"frame", e.frame}, {"index", e.index}, {"name", S(e.name)}, {"at", S(e.position)}, {"attach", e.attached}}; });
		j["stop"] = list(c.pfx_stop, [&](zk::MdsParticleEffectStop const& e) -> json { return {{"frame", e.frame}, {"index", e.index}}; });
		j["morph"] = list(c.morph, [&](zk::MdsMorphAnimation const& e) -> json { return {{"frame", e.frame}, {"ani", S(e.animation)}, {"node", S(e.node)}}; });
		j["shake"] = list(c.tremors, [&](zk::MdsCameraTremor const& e) -> json { return {{"frame", e.frame}, {"a", e.field1}, {"b", e.field2}, {"c", e.field3}, {"d", e.field4}}; });
		return j;
	});
	return o;
}

struct MdsDriver : Driver {
	zk::ModelScript script;
	std::vector<std::byte> data;
	void begin() override { script = {}; }

	json step(json const& op) override {
		json ev = op;
		ev["res"] = "ok";
		try {
			data = to_bytes(op["bytes"]);
			auto r = zk::Read::from(&data);
			script.load(r.get());
			ev["out"] = shown(script, false);
			ev["raw"] = shown(script, true);
		} catch (zk::Error const&) {
			ev["res"] = "error";
		}
		return ev;
	}
};

int main(int argc, char** argv) { return run_driver<MdsDriver>(argc, argv); }
