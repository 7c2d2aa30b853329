// The fields of the objects that can be stored in archives, by name, so that scenarios can set them and events can show them.
#pragma once
#include "common.hh"

#include <zenkit/Archive.hh>
#include <zenkit/CutsceneLibrary.hh>
#include <zenkit/Material.hh>
#include <zenkit/SaveGame.hh>
#include <zenkit/World.hh>
#include <zenkit/vobs/Camera.hh>
#include <zenkit/vobs/Light.hh>
#include <zenkit/vobs/Misc.hh>
#include <zenkit/vobs/MovableObject.hh>
#include <zenkit/vobs/Sound.hh>
#include <zenkit/vobs/Trigger.hh>
#include <zenkit/vobs/VirtualObject.hh>
#include <zenkit/vobs/Zone.hh>

#include <deque>
#include <map>
#include <type_traits>

struct Pool {
	std::vector<std::shared_ptr<zk::Object>> objs;        // number 1 is objs[0]
	std::map<void const*, int> number;

	std::shared_ptr<zk::Object> get(int n) const { return n == 0 ? nullptr : objs.at(n - 1); }
	int of(std::shared_ptr<zk::Object> const& p) {
		if (!p) return 0;
		auto it = number.find(p.get());
		if (it != number.end()) return it->second;
		objs.push_back(p);
		return number[p.get()] = static_cast<int>(objs.size());
	}
};

template <typename T> struct is_vec : std::false_type {};
template <typename T> struct is_vec<std::vector<T>> : std::true_type {};

inline json jf(float f) { return word(fbits(f)); }

// ---- values to JSON
struct Get {
	Pool& pool;
	json& out;
	template <typename T> void operator()(char const* name, T const& v) { out[name] = conv(v); }

	json conv(bool v) { return v; }
	json conv(float v) { return jf(v); }
	json conv(std::string const& v) { return from_str(v); }
	json conv(zk::Vec3 const& v) { return json::array({jf(v.x), jf(v.y), jf(v.z)}); }
	json conv(zk::Vec2 const& v) { return json::array({jf(v.x), jf(v.y)}); }
	json conv(zk::Color const& c) { return json::array({c.r, c.g, c.b, c.a}); }
	json conv(zk::AxisAlignedBoundingBox const& b) { return json::array({jf(b.min.x), jf(b.min.y), jf(b.min.z), jf(b.max.x), jf(b.max.y), jf(b.max.z)}); }
	json conv(zk::Mat3 const& m) {
		json j = json::array();
		for (int i = 0; i < 9; ++i) j.push_back(jf(m[i / 3][i % 3]));
		return j;
	}
	json conv(zk::Mat4 const& m) {
		json j = json::array();
		for (int i = 0; i < 16; ++i) j.push_back(jf(m[i / 4][i % 4]));
		return j;
	}
	json conv(zk::AnimationSample const& s) {
		return json::array({jf(s.position.x), jf(s.position.y), jf(s.position.z), jf(s.rotation.x), jf(s.rotation.y), jf(s.rotation.z), jf(s.rotation.w)});
	}
	json conv(zk::VTriggerList::Target const& t) { return {{"name", from_str(t.name)}, {"delay", jf(t.delay)}}; }
	json conv(std::unique_ptr<zk::VNpc::News> const& n) {
		return {{"told", n->told}, {"spread_time", jf(n->spread_time)}, {"spread_type", word(static_cast<uint32_t>(n->spread_type))},
		        {"news_id", word(static_cast<uint32_t>(n->news_id))}, {"gossip", n->gossip}, {"guild_victim", n->guild_victim},
		        {"witness_name", from_str(n->witness_name)}, {"offender_name", from_str(n->offender_name)}, {"victim_name", from_str(n->victim_name)}};
	}
	json conv(std::unique_ptr<zk::VNpc::Slot> const& s) {
		return {{"used", s->used}, {"name", from_str(s->name)}, {"item", s->used ? conv(s->item) : json(0)}, {"in_inventory", s->used && s->in_inventory}};
	}
	json conv(zk::SpawnLocation const& s) { return {{"npc", conv(s.npc)}, {"position", conv(s.position)}, {"timer", jf(s.timer)}}; }
	json conv(std::optional<zk::RigidBody> const& b) {
		if (!b) return json::array();
		return json::array({json {{"vel", conv(b->vel)}, {"mode", b->mode}, {"gravity_enabled", b->gravity_enabled}, {"gravity_scale", jf(b->gravity_scale)}, {"slide_direction", conv(b->slide_direction)}}});
	}
	json conv(std::variant<std::shared_ptr<zk::CutsceneAtomicBlock>, std::shared_ptr<zk::CutsceneBlock>> const& b) {
		return b.index() == 0 ? conv(std::get<0>(b)) : conv(std::get<1>(b));
	}
	template <typename T> json conv(std::shared_ptr<T> const& p) { return pool.of(p); }
	template <typename T> json conv(std::weak_ptr<T> const& p) { return pool.of(p.lock()); }
	template <typename T> std::enable_if_t<std::is_enum_v<T>, json> conv(T v) { return word(static_cast<uint32_t>(v)); }
	template <typename T> std::enable_if_t<std::is_integral_v<T>, json> conv(T v) {
		if constexpr (sizeof(T) < 4) return static_cast<int>(v);
		else return word(static_cast<uint32_t>(v));
	}
	template <typename T> json conv(std::vector<T> const& v) {
		json j = json::array();
		for (auto const& x : v) j.push_back(conv(x));
		return j;
	}
	template <typename T, size_t N> json conv(T const (&v)[N]) {
		json j = json::array();
		for (auto const& x : v) j.push_back(conv(x));
		return j;
	}
};

// ---- JSON to values
struct Set {
	Pool& pool;
	json const& in;
	template <typename T> void operator()(char const* name, T& v) {
		if (in.contains(name)) conv(in[name], v);
	}

	static float f(json const& j) { return bitsf(unword(j)); }
	void conv(json const& j, bool& v) { v = j.get<bool>(); }
	void conv(json const& j, float& v) { v = f(j); }
	void conv(json const& j, std::string& v) { v = to_str(j); }
	void conv(json const& j, zk::Vec3& v) { v = zk::Vec3 {f(j[0]), f(j[1]), f(j[2])}; }
	void conv(json const& j, zk::Vec2& v) { v = zk::Vec2 {f(j[0]), f(j[1])}; }
	void conv(json const& j, zk::Color& v) { v = zk::Color(j[0].get<int>(), j[1].get<int>(), j[2].get<int>(), j[3].get<int>()); }
	void conv(json const& j, zk::AxisAlignedBoundingBox& b) {
		b.min = {f(j[0]), f(j[1]), f(j[2])};
		b.max = {f(j[3]), f(j[4]), f(j[5])};
	}
	void conv(json const& j, zk::Mat3& m) {
		for (int i = 0; i < 9; ++i) m[i / 3][i % 3] = f(j[i]);
	}
	void conv(json const& j, zk::Mat4& m) {
		for (int i = 0; i < 16; ++i) m[i / 4][i % 4] = f(j[i]);
	}
	void conv(json const& j, zk::AnimationSample& s) {
		s.position = {f(j[0]), f(j[1]), f(j[2])};
		s.rotation.x = f(j[3]), s.rotation.y = f(j[4]), s.rotation.z = f(j[5]), s.rotation.w = f(j[6]);
	}
	void conv(json const& j, zk::VTriggerList::Target& t) { t.name = to_str(j["name"]), t.delay = f(j["delay"]); }
	void conv(json const& j, std::unique_ptr<zk::VNpc::News>& n) {
		n = std::make_unique<zk::VNpc::News>();
		n->told = j["told"].get<bool>(), n->spread_time = f(j["spread_time"]);
		n->spread_type = static_cast<zk::VNpc::NewsSpread>(unword(j["spread_type"])), n->news_id = static_cast<zk::VNpc::NewsId>(unword(j["news_id"]));
		n->gossip = j["gossip"].get<bool>(), n->guild_victim = j["guild_victim"].get<bool>();
		n->witness_name = to_str(j["witness_name"]), n->offender_name = to_str(j["offender_name"]), n->victim_name = to_str(j["victim_name"]);
	}
	void conv(json const& j, std::unique_ptr<zk::VNpc::Slot>& s) {
		s = std::make_unique<zk::VNpc::Slot>();
		s->used = j["used"].get<bool>(), s->name = to_str(j["name"]), s->in_inventory = j["in_inventory"].get<bool>();
		conv(j["item"], s->item);
	}
	void conv(json const& j, zk::SpawnLocation& s) { conv(j["npc"], s.npc), conv(j["position"], s.position), s.timer = f(j["timer"]); }
	void conv(json const& l, std::optional<zk::RigidBody>& b) {
		b.reset();
		if (l.empty()) return;
		b.emplace();
		json const& j = l[0];
		conv(j["vel"], b->vel), b->mode = j["mode"].get<int>(), b->gravity_enabled = j["gravity_enabled"].get<bool>();
		b->gravity_scale = f(j["gravity_scale"]), conv(j["slide_direction"], b->slide_direction);
	}
	void conv(json const& j, std::variant<std::shared_ptr<zk::CutsceneAtomicBlock>, std::shared_ptr<zk::CutsceneBlock>>& b) {
		auto o = pool.get(j.get<int>());
		if (auto a = std::dynamic_pointer_cast<zk::CutsceneAtomicBlock>(o)) b = a;
		else b = std::dynamic_pointer_cast<zk::CutsceneBlock>(o);
	}
	template <typename T> void conv(json const& j, std::shared_ptr<T>& p) { p = std::dynamic_pointer_cast<T>(pool.get(j.get<int>())); }
	template <typename T> void conv(json const& j, std::weak_ptr<T>& p) { p = std::dynamic_pointer_cast<T>(pool.get(j.get<int>())); }
	template <typename T> std::enable_if_t<std::is_enum_v<T>> conv(json const& j, T& v) { v = static_cast<T>(unword(j)); }
	template <typename T> std::enable_if_t<std::is_integral_v<T>> conv(json const& j, T& v) {
		if constexpr (sizeof(T) < 4) v = static_cast<T>(j.get<int>());
		else v = static_cast<T>(unword(j));
	}
	template <typename T> void conv(json const& j, std::vector<T>& v) {
		v.clear();
		for (auto const& x : j) {
			v.emplace_back();
			conv(x, v.back());
		}
	}
	template <typename T, size_t N> void conv(json const& j, T (&v)[N]) {
		for (size_t i = 0; i < N && i < j.size(); ++i) conv(j[i], v[i]);
	}
};

// ---- the kinds of the fields, for the generators of scenarios
struct Kinds {
	json& out;
	template <typename T> void operator()(char const* name, T& v) { out[name] = conv(v); }
	json conv(bool&) { return "bool"; }
	json conv(float&) { return "float"; }
	json conv(std::string&) { return "str"; }
	json conv(zk::Vec3&) { return {"arr", "float", 3}; }
	json conv(zk::Vec2&) { return {"arr", "float", 2}; }
	json conv(zk::Color&) { return "color"; }
	json conv(zk::AxisAlignedBoundingBox&) { return {"arr", "float", 6}; }
	json conv(zk::Mat3&) { return {"arr", "float", 9}; }
	json conv(zk::Mat4&) { return {"arr", "float", 16}; }
	json conv(zk::AnimationSample&) { return {"arr", "float", 7}; }
	json conv(zk::VTriggerList::Target&) { return "target"; }
	json conv(std::unique_ptr<zk::VNpc::News>&) { return "news"; }
	json conv(std::unique_ptr<zk::VNpc::Slot>&) { return "slot"; }
	json conv(zk::SpawnLocation&) { return "spawn"; }
	json conv(std::optional<zk::RigidBody>&) { return "rigid"; }
	json conv(std::variant<std::shared_ptr<zk::CutsceneAtomicBlock>, std::shared_ptr<zk::CutsceneBlock>>&) { return "ref"; }
	template <typename T> json conv(std::shared_ptr<T>&) { return "ref"; }
	template <typename T> json conv(std::weak_ptr<T>&) { return "weak"; }
	template <typename T> std::enable_if_t<std::is_enum_v<T>, json> conv(T&) { return "enum"; }
	template <typename T> std::enable_if_t<std::is_integral_v<T>, json> conv(T&) { return sizeof(T) == 4 ? "int" : sizeof(T) == 2 ? "word" : "byte"; }
	template <typename T> json conv(std::vector<T>& v) {
		T x {};
		return {"vec", conv(x)};
	}
	template <typename T, size_t N> json conv(T (&v)[N]) { return {"arr", conv(v[0]), N}; }
};

// ---- the fields
#define FF(n) v(#n, o.n)
template <typename V> void visual_of(V& v, zk::VirtualObject& o);
template <> inline void visual_of(Get& v, zk::VirtualObject& o) {
	bool none = !o.visual || o.visual->type == zk::VisualType::UNKNOWN;
	v.out["visual"] = none ? json(0) : json(v.pool.of(o.visual));
	v.out["visual_name"] = from_str(o.visual ? o.visual->name : std::string {});
	v.out["typed"] = o.type == static_cast<zk::VirtualObjectType>(o.get_object_type());
}
template <> inline void visual_of(Kinds& v, zk::VirtualObject&) { v.out["visual"] = "ref", v.out["visual_name"] = "str"; }
template <> inline void visual_of(Set& v, zk::VirtualObject& o) {
	v("visual", o.visual);
	if (!o.visual && v.in.contains("visual_name") && !v.in["visual_name"].empty()) {
		o.visual = std::make_shared<zk::Visual>();
		o.visual->name = to_str(v.in["visual_name"]);
	}
}

// The printed form of numbers stored as text, for the specification
inline json printed(char const* f, std::vector<float> const& v) {
	json j = json::array();
	for (float x : v) {
		char b[64];
		snprintf(b, sizeof b, f, x);
		j.push_back(from_str(b));
	}
	return j;
}
inline void text_of(Get& v, char const* name, char const* f, std::vector<float> const& x) { v.out[name] = printed(f, x); }
inline void text_of(Kinds&, char const*, char const*, std::vector<float> const&) {}
inline void text_of(Set&, char const*, char const*, std::vector<float> const&) {}

template <typename V> void visit(V& v, zk::VisualMesh& o) { FF(name); }
template <typename V> void visit(V& v, zk::VisualMultiResolutionMesh& o) { FF(name); }
template <typename V> void visit(V& v, zk::VisualParticleEffect& o) { FF(name); }
template <typename V> void visit(V& v, zk::VisualCamera& o) { FF(name); }
template <typename V> void visit(V& v, zk::VisualModel& o) { FF(name); }
template <typename V> void visit(V& v, zk::VisualMorphMesh& o) { FF(name); }
template <typename V> void visit(V& v, zk::VisualDecal& o) {
	FF(name), FF(dimension), FF(offset), FF(two_sided), FF(alpha_func), FF(texture_anim_fps), FF(alpha_weight), FF(ignore_daylight);
}
template <typename V> void visit(V& v, zk::EventManager& o) { FF(cleared), FF(active), FF(cutscene); }
template <typename V> void visit(V& v, zk::AiHuman& o) {
	FF(water_level), FF(floor_y), FF(water_y), FF(ceil_y), FF(feet_y), FF(head_y), FF(fall_dist_y), FF(fall_start_y), FF(npc), FF(walk_mode),
	    FF(weapon_mode), FF(wmode_ast), FF(wmode_select), FF(change_weapon), FF(action_mode);
}
template <typename V> void visit(V& v, zk::AiMove& o) { FF(vob), FF(owner); }
template <typename V> void visit(V& v, zk::VirtualObject& o) {
	FF(bbox), FF(position), FF(rotation), FF(show_visual), FF(sprite_camera_facing_mode), FF(cd_static), FF(cd_dynamic), FF(vob_static), FF(dynamic_shadows),
	    FF(physics_enabled), FF(anim_mode), FF(bias), FF(ambient), FF(anim_strength), FF(far_clip_scale), FF(preset_name), FF(vob_name);
	visual_of(v, o);
	FF(ai), FF(event_manager), FF(sleep_mode), FF(next_on_timer), FF(rigid_body), FF(children);
}
#define BASE(B) visit(v, static_cast<zk::B&>(o))
template <typename V> void visit(V& v, zk::VAnimate& o) { BASE(VirtualObject), FF(start_on), FF(s_is_running); }
template <typename V> void visit(V& v, zk::VItem& o) { BASE(VirtualObject), FF(instance), FF(s_amount), FF(s_flags); }
template <typename V> void visit(V& v, zk::VLensFlare& o) { BASE(VirtualObject), FF(fx); }
template <typename V> void visit(V& v, zk::VParticleEffectController& o) { BASE(VirtualObject), FF(pfx_name), FF(kill_when_done), FF(initially_running); }
template <typename V> void visit(V& v, zk::VMessageFilter& o) { BASE(VirtualObject), FF(target), FF(on_trigger), FF(on_untrigger); }
template <typename V> void visit(V& v, zk::VCodeMaster& o) {
	BASE(VirtualObject), FF(target), FF(ordered), FF(first_false_is_failure), FF(failure_target), FF(untriggered_cancels), FF(slaves), FF(s_num_triggered_slaves);
}
template <typename V> void visit(V& v, zk::VMoverController& o) { BASE(VirtualObject), FF(target), FF(message), FF(key); }
template <typename V> void visit(V& v, zk::VTouchDamage& o) {
	BASE(VirtualObject), FF(damage), FF(barrier), FF(blunt), FF(edge), FF(fire), FF(fly), FF(magic), FF(point), FF(fall), FF(repeat_delay_sec), FF(volume_scale), FF(collision);
}
template <typename V> void visit(V& v, zk::VEarthquake& o) { BASE(VirtualObject), FF(radius), FF(duration), FF(amplitude); }
template <typename V> void visit(V& v, zk::VNpc::Talent& o) { FF(talent), FF(value), FF(skill); }
template <typename V> void visit(V& v, zk::VNpc& o) {
	BASE(VirtualObject), FF(npc_instance), FF(model_scale), FF(model_fatness), FF(overlays), FF(flags), FF(guild), FF(guild_true), FF(level), FF(xp),
	    FF(xp_next_level), FF(lp), FF(talents), FF(fight_tactic), FF(fight_mode), FF(wounded), FF(mad), FF(mad_time), FF(player), FF(attributes),
	    FF(hit_chance), FF(missions), FF(start_ai_state), FF(aivar), FF(script_waypoint), FF(attitude), FF(attitude_temp), FF(name_nr), FF(move_lock),
	    FF(packed), FF(news), FF(items), FF(slots), FF(current_state_valid), FF(current_state_name), FF(current_state_index),
	    FF(current_state_is_routine), FF(next_state_valid), FF(next_state_name), FF(next_state_index), FF(next_state_is_routine), FF(last_ai_state),
	    FF(has_routine), FF(routine_changed), FF(routine_overlay), FF(routine_overlay_count), FF(walkmode_routine), FF(weaponmode_routine),
	    FF(start_new_routine), FF(ai_state_driven), FF(ai_state_pos), FF(current_routine), FF(respawn), FF(respawn_time), FF(protection),
	    FF(bs_interruptable_override), FF(npc_type), FF(spell_mana), FF(carry_vob), FF(enemy);
}
template <typename V> void visit(V& v, zk::VScreenEffect& o) { BASE(VirtualObject); }
template <typename V> void visit(V& v, zk::VMovableObject& o) {
	BASE(VirtualObject), FF(name), FF(hp), FF(damage), FF(movable), FF(takable), FF(focus_override), FF(material), FF(visual_destroyed), FF(owner), FF(owner_guild), FF(destroyed);
}
template <typename V> void visit(V& v, zk::VInteractiveObject& o) {
	BASE(VMovableObject), FF(state_count), FF(target), FF(item), FF(condition_function), FF(on_state_change_function), FF(rewind);
}
template <typename V> void visit(V& v, zk::VFire& o) { BASE(VInteractiveObject), FF(slot), FF(vob_tree); }
template <typename V> void visit(V& v, zk::VContainer& o) { BASE(VInteractiveObject), FF(locked), FF(key), FF(pick_string), FF(contents), FF(s_items); }
template <typename V> void visit(V& v, zk::VDoor& o) { BASE(VInteractiveObject), FF(locked), FF(key), FF(pick_string); }
#define SAME(T, B) template <typename V> void visit(V& v, zk::T& o) { BASE(B); }
SAME(VLadder, VInteractiveObject)
SAME(VSwitch, VInteractiveObject)
SAME(VWheel, VInteractiveObject)
SAME(VBed, VInteractiveObject)
SAME(VSpot, VirtualObject)
SAME(VStair, VirtualObject)
SAME(VStartPoint, VirtualObject)
SAME(VLevel, VirtualObject)
template <typename V> void visit(V& v, zk::VSound& o) {
	BASE(VirtualObject), FF(volume), FF(mode), FF(random_delay), FF(random_delay_var), FF(initially_playing), FF(ambient3d), FF(obstruction),
	    FF(cone_angle), FF(volume_type), FF(radius), FF(sound_name), FF(s_is_running), FF(s_is_allowed_to_run);
}
template <typename V> void visit(V& v, zk::VSoundDaytime& o) { BASE(VSound), FF(start_time), FF(end_time), FF(sound_name2); }
template <typename V> void visit(V& v, zk::VTrigger& o) {
	BASE(VirtualObject), FF(target), FF(flags), FF(filter_flags), FF(vob_target), FF(max_activation_count), FF(retrigger_delay_sec), FF(damage_threshold),
	    FF(fire_delay_sec), FF(s_next_time_triggerable), FF(s_count_can_be_activated), FF(s_other_vob), FF(s_is_enabled),
	    FF(start_enabled), FF(send_untrigger), FF(react_to_on_trigger), FF(react_to_on_touch), FF(react_to_on_damage), FF(respond_to_object), FF(respond_to_pc), FF(respond_to_npc);
}
SAME(VCutsceneTrigger, VTrigger)
template <typename V> void visit(V& v, zk::VMover& o) {
	BASE(VTrigger), FF(behavior), FF(touch_blocker_damage), FF(stay_open_time_sec), FF(locked), FF(auto_link), FF(auto_rotate), FF(speed), FF(lerp_mode),
	    FF(speed_mode), FF(keyframes), FF(sfx_open_start), FF(sfx_open_end), FF(sfx_transitioning), FF(sfx_close_start), FF(sfx_close_end), FF(sfx_lock),
	    FF(sfx_unlock), FF(sfx_use_locked), FF(s_act_key_pos_delta), FF(s_act_keyframe_f), FF(s_act_keyframe), FF(s_next_keyframe), FF(s_move_speed_unit),
	    FF(s_advance_dir), FF(s_mover_state), FF(s_trigger_event_count), FF(s_stay_open_time_dest);
}
template <typename V> void visit(V& v, zk::VTriggerList& o) { BASE(VTrigger), FF(mode), FF(targets), FF(s_act_target), FF(s_send_on_trigger); }
template <typename V> void visit(V& v, zk::VTriggerScript& o) { BASE(VTrigger), FF(function); }
template <typename V> void visit(V& v, zk::VTriggerChangeLevel& o) { BASE(VTrigger), FF(level_name), FF(start_vob); }
template <typename V> void visit(V& v, zk::VTriggerWorldStart& o) { BASE(VirtualObject), FF(target), FF(fire_once), FF(s_has_fired); }
template <typename V> void visit(V& v, zk::VTriggerUntouch& o) { BASE(VirtualObject), FF(target); }
template <typename V> void visit(V& v, zk::VLight& o) {
	BASE(VirtualObject), FF(preset), FF(light_type), FF(range), FF(color), FF(cone_angle), FF(is_static), FF(quality), FF(lensflare_fx), FF(on),
	    FF(range_animation_scale), FF(range_animation_fps), FF(range_animation_smooth), FF(color_animation_list), FF(color_animation_fps),
	    FF(color_animation_smooth), FF(can_move);
	text_of(v, "range_txt", "%g", o.range_animation_scale);
}
template <typename V> void visit(V& v, zk::VZoneMusic& o) {
	BASE(VirtualObject), FF(enabled), FF(priority), FF(ellipsoid), FF(reverb), FF(volume), FF(loop), FF(s_local_enabled), FF(s_day_entrance_done), FF(s_night_entrance_done);
}
SAME(VZoneMusicDefault, VZoneMusic)
template <typename V> void visit(V& v, zk::VZoneFarPlane& o) { BASE(VirtualObject), FF(vob_far_plane_z), FF(inner_range_percentage); }
SAME(VZoneFarPlaneDefault, VZoneFarPlane)
template <typename V> void visit(V& v, zk::VZoneFog& o) { BASE(VirtualObject), FF(range_center), FF(inner_range_percentage), FF(color), FF(fade_out_sky), FF(override_color); }
SAME(VZoneFogDefault, VZoneFog)
template <typename V> void visit(V& v, zk::VCameraTrajectoryFrame& o) {
	BASE(VirtualObject), FF(time), FF(roll_angle), FF(fov_scale), FF(motion_type), FF(motion_type_fov), FF(motion_type_roll), FF(motion_type_time_scale),
	    FF(tension), FF(cam_bias), FF(continuity), FF(time_scale), FF(time_fixed), FF(original_pose);
}
template <typename V> void visit(V& v, zk::VCutsceneCamera& o) {
	BASE(VirtualObject), FF(trajectory_for), FF(target_trajectory_for), FF(loop_mode), FF(lerp_mode), FF(ignore_for_vob_rotation),
	    FF(ignore_for_vob_rotation_target), FF(adapt), FF(ease_first), FF(ease_last), FF(total_duration), FF(auto_focus_vob), FF(auto_player_movable),
	    FF(auto_untrigger_last), FF(auto_untrigger_last_delay), FF(position_count), FF(target_count), FF(trajectory_frames), FF(target_frames), FF(paused), FF(started),
	    FF(goto_time_mode), FF(cs_time);
}
template <typename V> void visit(V& v, zk::ConversationMessageEvent& o) { FF(type), FF(text), FF(name), FF(high_priority), FF(used), FF(deleted); }
template <typename V> void visit(V& v, zk::CutsceneAtomicBlock& o) { FF(message); }
template <typename V> void visit(V& v, zk::CutsceneBlock& o) { FF(name), FF(block); }
template <typename V> void visit(V& v, zk::CutsceneLibrary& o) { FF(blocks); }
template <typename V> void visit(V& v, zk::CutsceneProps& o) {
	FF(name), FF(global), FF(loop), FF(has_to_be_triggered), FF(distance), FF(range), FF(locked_block_count), FF(run_behaviour), FF(run_behaviour_value), FF(stage_name), FF(script_function_on_stop);
}
SAME(Cutscene, CutsceneBlock)
template <typename V> void visit(V& v, zk::CutsceneContext& o) {
	BASE(CutsceneBlock), FF(props), FF(role_count), FF(role_vob_count), FF(npc), FF(main_role), FF(is_cutscene), FF(reference), FF(actual_block), FF(alt_stage), FF(stage), FF(was_triggered);
}
template <typename V> void visit(V& v, zk::CutscenePlayer& o) { FF(last_process_day), FF(last_process_hour), FF(playlists); }
template <typename V> void visit(V& v, zk::SkyController& o) {
	FF(master_time), FF(rain_weight), FF(rain_start), FF(rain_stop), FF(rain_sct_timer), FF(rain_snd_vol), FF(day_ctr), FF(fade_scale), FF(render_lightning), FF(is_raining), FF(rain_ctr);
}
template <typename V> void visit(V& v, zk::WayPoint& o) { FF(name), FF(water_depth), FF(under_water), FF(position), FF(direction), FF(free_point); }
template <typename V> void edges_of(V& v, zk::WayNet& o);
template <> inline void edges_of(Get& v, zk::WayNet& o) {
	json j = json::array();
	for (auto& e : o.edges) j.push_back(json::array({v.pool.of(e.first), v.pool.of(e.second)}));
	v.out["edges"] = j;
}
template <> inline void edges_of(Kinds& v, zk::WayNet&) { v.out["edges"] = "edges"; }
template <> inline void edges_of(Set& v, zk::WayNet& o) {
	if (v.in.contains("edges")) for (auto& e : v.in["edges"])
		o.edges.emplace_back(std::dynamic_pointer_cast<zk::WayPoint>(v.pool.get(e[0].get<int>())), std::dynamic_pointer_cast<zk::WayPoint>(v.pool.get(e[1].get<int>())));
}
template <typename V> void visit(V& v, zk::WayNet& o) { FF(points); edges_of(v, o); }
template <typename V> void visit(V& v, zk::World& o) { FF(world_vobs), FF(way_net), FF(npcs), FF(npc_spawns), FF(npc_spawn_enabled), FF(npc_spawn_flags), FF(player), FF(sky_controller); }
template <typename V> void visit(V& v, zk::Material& o) {
	FF(name), FF(group), FF(color), FF(smooth_angle), FF(texture), FF(texture_scale), FF(texture_anim_fps), FF(texture_anim_map_mode), FF(texture_anim_map_dir),
	    FF(disable_collision), FF(disable_lightmap), FF(dont_collapse), FF(detail_object), FF(detail_object_scale), FF(force_occluder), FF(environment_mapping),
	    FF(environment_mapping_strength), FF(wave_mode), FF(wave_speed), FF(wave_max_amplitude), FF(wave_grid_size), FF(ignore_sun), FF(alpha_func), FF(default_mapping);
	text_of(v, "scale_txt", "%.9g", {o.texture_scale.x, o.texture_scale.y});
	text_of(v, "dir_txt", "%.9g", {o.texture_anim_map_dir.x, o.texture_anim_map_dir.y});
}
template <typename V> void visit(V& v, zk::SaveMetadata& o) {
	FF(title), FF(world), FF(time_day), FF(time_hour), FF(time_minute), FF(save_date), FF(version_major), FF(version_minor), FF(play_time_seconds), FF(version_point), FF(version_int), FF(version_app_name);
}
template <typename V> void visit(V& v, zk::CutscenePoolItem& o) { FF(name), FF(run_behavior), FF(run_behavior_value), FF(times_played), FF(deactivated), FF(flags); }
template <typename V> void visit(V& v, zk::CutsceneManager& o) { FF(pool_items); }

// ---- the classes
struct ClassInfo {
	char const* name;
	zk::ObjectType type;
	std::function<std::shared_ptr<zk::Object>()> make;
	std::function<bool(zk::Object*, Pool&, json const&)> set;
	std::function<bool(zk::Object*, Pool&, json&)> get;
	std::function<void(json&)> kinds;
};
template <typename T> ClassInfo info(char const* name, zk::ObjectType t) {
	return {name, t, [] { return std::make_shared<T>(); },
	        [](zk::Object* o, Pool& p, json const& j) {
		        auto* x = dynamic_cast<T*>(o);
		        if (!x) return false;
		        Set s {p, j};
		        visit(s, *x);
		        return true;
	        },
	        [](zk::Object* o, Pool& p, json& j) {
		        auto* x = dynamic_cast<T*>(o);
		        if (!x) return false;
		        Get g {p, j};
		        visit(g, *x);
		        return true;
	        },
	        [](json& j) {
		        T x {};
		        Kinds k {j};
		        visit(k, x);
	        }};
}
inline std::vector<ClassInfo> const& classes() {
#define C(t, n) info<zk::t>(#n, zk::ObjectType::n)
	static std::vector<ClassInfo> const c = {
	    C(VirtualObject, zCVob), C(VLevel, zCVobLevelCompo), C(VItem, oCItem), C(VNpc, oCNpc), C(VMoverController, zCMoverController), C(VScreenEffect, zCVobScreenFX),
	    C(VStair, zCVobStair), C(VParticleEffectController, zCPFXController), C(VAnimate, zCVobAnimate), C(VLensFlare, zCVobLensFlare), C(VLight, zCVobLight),
	    C(VSpot, zCVobSpot), C(VStartPoint, zCVobStartpoint), C(VMessageFilter, zCMessageFilter), C(VCodeMaster, zCCodeMaster), C(VTriggerWorldStart, zCTriggerWorldStart),
	    C(VCutsceneCamera, zCCSCamera), C(VCameraTrajectoryFrame, zCCamTrj_KeyFrame), C(VTouchDamage, oCTouchDamage), C(VTriggerUntouch, zCTriggerUntouch),
	    C(VEarthquake, zCEarthquake), C(VMovableObject, oCMOB), C(VInteractiveObject, oCMobInter), C(VBed, oCMobBed), C(VFire, oCMobFire), C(VLadder, oCMobLadder),
	    C(VSwitch, oCMobSwitch), C(VWheel, oCMobWheel), C(VContainer, oCMobContainer), C(VDoor, oCMobDoor), C(VTrigger, zCTrigger), C(VTriggerList, zCTriggerList),
	    C(VTriggerScript, oCTriggerScript), C(VTriggerChangeLevel, oCTriggerChangeLevel), C(VCutsceneTrigger, oCCSTrigger), C(VMover, zCMover), C(VSound, zCVobSound),
	    C(VSoundDaytime, zCVobSoundDaytime), C(VZoneMusic, oCZoneMusic), C(VZoneMusicDefault, oCZoneMusicDefault), C(VZoneFog, zCZoneZFog), C(VZoneFogDefault, zCZoneZFogDefault),
	    C(VZoneFarPlane, zCZoneVobFarPlane), C(VZoneFarPlaneDefault, zCZoneVobFarPlaneDefault), C(VNpc::Talent, oCNpcTalent), C(EventManager, zCEventManager),
	    C(VisualDecal, zCDecal), C(VisualMesh, zCMesh), C(VisualMultiResolutionMesh, zCProgMeshProto), C(VisualParticleEffect, zCParticleFX), C(VisualCamera, zCAICamera),
	    C(VisualModel, zCModel), C(VisualMorphMesh, zCMorphMesh), C(AiHuman, oCAIHuman), C(AiMove, oCAIVobMove), C(CutscenePlayer, oCCSPlayer),
	    C(SkyController, zCSkyControler_Outdoor), C(World, oCWorld), C(WayNet, zCWayNet), C(WayPoint, zCWaypoint), C(Material, zCMaterial), C(SaveMetadata, oCSavegameInfo),
	    C(CutsceneManager, oCCSManager), C(CutscenePoolItem, zCCSPoolItem), C(CutsceneBlock, zCCSBlock), C(Cutscene, zCCutscene), C(CutsceneContext, zCCSCutsceneContext),
	    C(ConversationMessageEvent, oCMsgConversation), C(CutsceneAtomicBlock, zCCSAtomicBlock), C(CutsceneLibrary, zCCSLib), C(CutsceneProps, zCCSProps)};
#undef C
	return c;
}
inline ClassInfo const* class_named(std::string const& n) {
	for (auto& c : classes())
		if (n == c.name) return &c;
	return nullptr;
}
inline ClassInfo const* class_of(zk::Object const* o) {
	for (auto& c : classes())
		if (o->get_object_type() == c.type) return &c;
	return nullptr;
}

// Create the objects described by a scenario. The pool keeps them alive.
inline void build_graph(Pool& pool, json const& objs) {
	for (auto& o : objs) {
		auto p = class_named(o["cls"])->make();
		pool.of(p);
		auto t = p->get_object_type();
		if (auto v = std::dynamic_pointer_cast<zk::Visual>(p)) {
			static std::map<zk::ObjectType, zk::VisualType> const types = {
			    {zk::ObjectType::zCDecal, zk::VisualType::DECAL}, {zk::ObjectType::zCMesh, zk::VisualType::MESH},
			    {zk::ObjectType::zCProgMeshProto, zk::VisualType::MULTI_RESOLUTION_MESH}, {zk::ObjectType::zCParticleFX, zk::VisualType::PARTICLE_EFFECT},
			    {zk::ObjectType::zCModel, zk::VisualType::MODEL}, {zk::ObjectType::zCAICamera, zk::VisualType::AI_CAMERA}, {zk::ObjectType::zCMorphMesh, zk::VisualType::MORPH_MESH}};
			v->type = types.at(t);
		}
	}
	for (size_t i = 0; i < objs.size(); ++i) class_named(objs[i]["cls"])->set(pool.objs[i].get(), pool, objs[i]["f"]);
}

// Everything reachable from the given objects. Objects are numbered in the order in which they are met.
inline json dump_graph(std::vector<std::shared_ptr<zk::Object>> const& roots) {
	Pool p;
	json r = json::array(), objs = json::array();
	for (auto& o : roots) r.push_back(p.of(o));
	for (size_t i = 0; i < p.objs.size(); ++i) {
		auto o = p.objs[i];
		auto* c = class_of(o.get());
		json f = json::object();
		if (c == nullptr) objs.push_back({{"cls", "?"}, {"f", f}});
		else if (!c->get(o.get(), p, f)) objs.push_back({{"cls", std::string("wrong type for ") + c->name}, {"f", f}});
		else objs.push_back({{"cls", c->name}, {"f", f}});
	}
	return {{"roots", r}, {"objs", objs}};
}
