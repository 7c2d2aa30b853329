------------------------------------------------------ MODULE Objects ------------------------------------------------------
(* Objects in archives (A03, O01, W01, C01). A heap is a sequence of objects [cls, f]; references are indices into it, 0 is *)
(* no object. Every class has a body: the entries it stores, in order, as a function of its fields, the game, and whether   *)
(* the archive is a save-game. Storing objects flattens the part of the heap they reach into a token sequence in which each *)
(* object occurs once; loading is right if the loaded heap flattens to the same tokens.                                     *)
EXTENDS Bytes, TLC

\* c = [g |-> 1 or 2, save |-> BOOLEAN, pack |-> BOOLEAN]
E(k, key, v) == [k |-> k, key |-> key, v |-> v]
Str(key, v) == E("string", key, v)    Itg(key, v) == E("int", key, v)     Flt(key, v) == E("float", key, v)
Boo(key, v) == E("bool", key, v)      Enu(key, v) == E("enum", key, v)    Byt(key, v) == E("byte", key, v)
Vec(key, v) == E("vec3", key, v)      Raw(key, v) == E("raw", key, v)     Col(key, v) == E("color", key, v)
RawF(key, v) == E("rawf", key, v)     Wor(key, v) == E("word", key, v)
Num(key, n) == Itg(key, NatWord(n))
Obj(key, id) == E("obj", key, id)
Beg(key, cls, ver, idx) == [k |-> "begin", key |-> key, cls |-> cls, ver |-> ver, idx |-> idx]
End == [k |-> "end"]
Map(s, F(_)) == FlattenSeq([i \in 1 .. Len(s) |-> F(s[i])])
MapI(s, F(_, _)) == FlattenSeq([i \in 1 .. Len(s) |-> F(s[i], i - 1)])
If(b, s) == IF b THEN s ELSE <<>>
Bit(b, n) == IF b THEN n ELSE 0
Words(ws) == FlattenSeq([i \in 1 .. Len(ws) |-> WordBytes(ws[i])])
Transp(ws, n) == [k \in 1 .. n * n |-> ws[((k - 1) % n) * n + ((k - 1) \div n) + 1]]
U16(n) == <<n % 256, n \div 256>>
Low(w) == w[2] % 256
Zeros(n) == [i \in 1 .. n |-> 0]
Zero == <<0, 0>>
RECURSIVE DecN(_)
DecN(n) == IF n < 10 THEN <<48 + n>> ELSE DecN(n \div 10) \o <<48 + (n % 10)>>

-----------------------------------------------------------------------------------------------------------------------------
(* zCVob. Packed objects keep most properties in one block, and optional parts only if present. *)
Bits0(o) == Bit(o.show_visual, 1) + 2 * (o.sprite_camera_facing_mode[2] % 4) + Bit(o.cd_static, 8) + Bit(o.cd_dynamic, 16)
            + Bit(o.vob_static, 32) + 64 * (o.dynamic_shadows[2] % 4)
Bits1(o) == Bit(o.preset_name # <<>>, 1) + Bit(o.vob_name # <<>>, 2) + Bit(o.visual_name # <<>>, 4) + Bit(o.visual # 0, 8)
            + Bit(o.ai # 0, 16) + Bit(o.event_manager # 0, 32) + Bit(o.physics_enabled, 64)
Bits2(o) == 128 * (o.anim_mode[2] % 4) + 512 * (o.bias[2] % 32) + Bit(o.ambient, 16384)
PackedData(o, c) ==
  Words(o.bbox) \o Words(o.position) \o Words(Transp(o.rotation, 3)) \o <<Bits0(o)>>
  \o (IF c.g = 1 THEN <<Bits1(o)>> ELSE U16(Bits1(o) + Bits2(o)) \o WordBytes(o.anim_strength) \o WordBytes(o.far_clip_scale))
Packed(o, c) ==
  <<Num("pack", 1), Raw("dataRaw", PackedData(o, c))>>
  \o If(o.preset_name # <<>>, <<Str("presetName", o.preset_name)>>)
  \o If(o.vob_name # <<>>, <<Str("vobName", o.vob_name)>>)
  \o If(o.visual_name # <<>>, <<Str("visual", o.visual_name)>>)
  \o If(o.visual # 0, <<Obj("visual", o.visual)>>)
  \o If(o.ai # 0, <<Obj("ai", o.ai)>>)
  \o If(o.event_manager # 0 /\ c.save, <<Obj("%", o.event_manager)>>)
Unpacked(o, c) ==
  <<Num("pack", 0), Str("presetName", o.preset_name), RawF("bbox3DWS", o.bbox), Raw("trafoOSToWSRot", Words(Transp(o.rotation, 3))),
    Vec("trafoOSToWSPos", o.position), Str("vobName", o.vob_name), Str("visual", o.visual_name), Boo("showVisual", o.show_visual),
    Enu("visualCamAlign", o.sprite_camera_facing_mode)>>
  \o If(c.g = 2, <<Enu("visualAniMode", o.anim_mode), Flt("visualAniModeStrength", o.anim_strength), Flt("vobFarClipZScale", o.far_clip_scale)>>)
  \o <<Boo("cdStatic", o.cd_static), Boo("cdDyn", o.cd_dynamic), Boo("staticVob", o.vob_static), Enu("dynShadow", o.dynamic_shadows)>>
  \o If(c.g = 2, <<Itg("zbias", o.bias), Boo("isAmbient", o.ambient)>>)
  \o <<Obj("visual", o.visual), Obj("ai", o.ai)>>
NoBody == [vel |-> <<Zero, Zero, Zero>>, mode |-> 0, gravity_enabled |-> FALSE, gravity_scale |-> Zero, slide_direction |-> <<Zero, Zero, Zero>>]
Rigid(b) == <<Vec("vel", b.vel), Byt("mode", b.mode), Boo("gravOn", b.gravity_enabled), Flt("gravScale", b.gravity_scale), Vec("slideDir", b.slide_direction)>>
RigidOf(o) == IF o.rigid_body # <<>> THEN Rigid(o.rigid_body[1]) ELSE Rigid(NoBody)
Vob(o, c) ==
  (IF c.pack THEN Packed(o, c) ELSE Unpacked(o, c))
  \o If(c.save, <<Byt("sleepMode", o.sleep_mode), Flt("nextOnTimer", o.next_on_timer)>> \o If(o.physics_enabled \/ ~c.pack, RigidOf(o)))

Decal(o, c) ==
  <<Str("name", o.name), RawF("decalDim", o.dimension), RawF("decalOffset", o.offset), Boo("decal2Sided", o.two_sided),
    Enu("decalAlphaFunc", o.alpha_func), Flt("decalTexAniFPS", o.texture_anim_fps)>>
  \o If(c.g = 2, <<Byt("decalAlphaWeight", o.alpha_weight), Boo("ignoreDayLight", o.ignore_daylight)>>)
EventMgr(o) == <<Boo("cleared", o.cleared), Boo("active", o.active), Obj("emCutscene", o.cutscene)>>
Human(o) ==
  <<Itg("waterLevel", o.water_level), Flt("floorY", o.floor_y), Flt("waterY", o.water_y), Flt("ceilY", o.ceil_y), Flt("feetY", o.feet_y),
    Flt("headY", o.head_y), Flt("fallDistY", o.fall_dist_y), Flt("fallStartY", o.fall_start_y), Obj("aiNpc", o.npc), Itg("walkMode", o.walk_mode),
    Itg("weaponMode", o.weapon_mode), Itg("wmodeLast", o.wmode_ast), Itg("wmodeSelect", o.wmode_select), Boo("changeWeapon", o.change_weapon),
    Itg("actionMode", o.action_mode)>>
Move(o) == <<Obj("vob", o.vob), Obj("owner", o.owner)>>

-----------------------------------------------------------------------------------------------------------------------------
(* Objects of the world *)
Animate(o, c) == Vob(o, c) \o <<Boo("startOn", o.start_on)>> \o If(c.save, <<Boo("isRunning", o.s_is_running)>>)
Item(o, c) == Vob(o, c) \o <<Str("itemInstance", o.instance)>> \o If(c.save, <<Itg("amount", o.s_amount), Itg("flags", o.s_flags)>>)
LensFlare(o, c) == Vob(o, c) \o <<Str("lensflareFX", o.fx)>>
Pfx(o, c) == Vob(o, c) \o <<Str("pfxName", o.pfx_name), Boo("killVobWhenDone", o.kill_when_done), Boo("pfxStartOn", o.initially_running)>>
MsgFilter(o, c) == Vob(o, c) \o <<Str("triggerTarget", o.target), Enu("onTrigger", o.on_trigger), Enu("onUntrigger", o.on_untrigger)>>
CodeMaster(o, c) ==
  Vob(o, c) \o <<Str("triggerTarget", o.target), Boo("orderRelevant", o.ordered), Boo("firstFalseIsFailure", o.first_false_is_failure),
                 Str("triggerTargetFailure", o.failure_target), Boo("untriggerCancels", o.untriggered_cancels), Byt("numSlaves", Len(o.slaves))>>
  \o MapI(o.slaves, LAMBDA s, i : <<Str("slaveVobName" \o ToString(i), s)>>)
  \o If(c.save /\ c.g = 2, <<Byt("numSlavesTriggered", o.s_num_triggered_slaves)>> \o MapI(o.slaves, LAMBDA s, i : <<Obj("slaveTriggered" \o ToString(i), 0)>>))
MoverCtrl(o, c) == Vob(o, c) \o <<Str("triggerTarget", o.target), Enu("moverMessage", o.message), Itg("gotoFixedKey", o.key)>>
TouchDamage(o, c) ==
  Vob(o, c) \o <<Flt("damage", o.damage), Boo("Barrier", o.barrier), Boo("Blunt", o.blunt), Boo("Edge", o.edge), Boo("Fire", o.fire), Boo("Fly", o.fly),
                 Boo("Magic", o.magic), Boo("Point", o.point), Boo("Fall", o.fall), Flt("damageRepeatDelaySec", o.repeat_delay_sec),
                 Flt("damageVolDownScale", o.volume_scale), Enu("damageCollType", o.collision)>>
Earthquake(o, c) == Vob(o, c) \o <<Flt("radius", o.radius), Flt("timeSec", o.duration), Vec("amplitudeCM", o.amplitude)>>
ScreenFx(o, c) ==
  LET n == IF c.g = 1 THEN 20 ELSE 48 IN
  Vob(o, c) \o If(c.save, <<Raw("blend", Zeros(n)), Raw("cinema", Zeros(n)), Raw("fovMorph", Zeros(n)), RawF("fovSaved", <<Zero, Zero>>), RawF("fovSaved1st", <<Zero, Zero>>)>>)
Mob(o, c) ==
  Vob(o, c) \o <<Str("focusName", o.name), Itg("hitpoints", o.hp), Itg("damage", o.damage), Boo("moveable", o.movable), Boo("takeable", o.takable),
                 Boo("focusOverride", o.focus_override), Enu("soundMaterial", o.material), Str("visualDestroyed", o.visual_destroyed),
                 Str("owner", o.owner), Str("ownerGuild", o.owner_guild), Boo("isDestroyed", o.destroyed)>>
Inter(o, c) ==
  Mob(o, c) \o <<Itg("stateNum", o.state_count), Str("triggerTarget", o.target), Str("useWithItem", o.item), Str("conditionFunc", o.condition_function),
                 Str("onStateFunc", o.on_state_change_function), Boo("rewind", o.rewind)>>
Fire(o, c) == Inter(o, c) \o <<Str("fireSlot", o.slot), Str("fireVobtreeName", o.vob_tree)>>
Lockable(o, c) == Inter(o, c) \o <<Boo("locked", o.locked), Str("keyInstance", o.key), Str("pickLockStr", o.pick_string)>>
Container(o, c) == Lockable(o, c) \o <<Str("contains", o.contents)>>
                   \o If(c.save, <<Num("NumOfEntries", Len(o.s_items))>> \o Map(o.s_items, LAMBDA i : <<Obj("%", i)>>))
Sound(o, c) ==
  Vob(o, c) \o <<Flt("sndVolume", o.volume), Enu("sndMode", o.mode), Flt("sndRandDelay", o.random_delay), Flt("sndRandDelayVar", o.random_delay_var),
                 Boo("sndStartOn", o.initially_playing), Boo("sndAmbient3D", o.ambient3d), Boo("sndObstruction", o.obstruction),
                 Flt("sndConeAngle", o.cone_angle), Enu("sndVolType", o.volume_type), Flt("sndRadius", o.radius), Str("sndName", o.sound_name)>>
  \o If(c.save, <<Boo("soundIsRunning", o.s_is_running), Boo("soundAllowedToRun", o.s_is_allowed_to_run)>>)
Daytime(o, c) == Sound(o, c) \o <<Flt("sndStartTime", o.start_time), Flt("sndEndTime", o.end_time), Str("sndName2", o.sound_name2)>>
TriggerFlags(o) == (o.flags \div 8) * 8 + Bit(o.start_enabled, 1) + ((o.flags \div 2) % 2) * 2 + Bit(o.send_untrigger, 4)
FilterFlags(o) == (o.filter_flags \div 64) * 64 + Bit(o.react_to_on_trigger, 1) + Bit(o.react_to_on_touch, 2) + Bit(o.react_to_on_damage, 4)
                  + Bit(o.respond_to_object, 8) + Bit(o.respond_to_pc, 16) + Bit(o.respond_to_npc, 32)
Trigger(o, c) ==
  Vob(o, c) \o <<Str("triggerTarget", o.target), Raw("flags", <<TriggerFlags(o)>>), Raw("filterFlags", <<FilterFlags(o)>>),
                 Str("respondToVobName", o.vob_target), Itg("numCanBeActivated", o.max_activation_count), Flt("retriggerWaitSec", o.retrigger_delay_sec),
                 Flt("damageThreshold", o.damage_threshold), Flt("fireDelaySec", o.fire_delay_sec)>>
  \o If(c.save, <<Flt("nextTimeTriggerable", o.s_next_time_triggerable), Obj("savedOtherVob", o.s_other_vob), Itg("countCanBeActivated", o.s_count_can_be_activated)>>
                \o If(c.g = 2, <<Boo("isEnabled", o.s_is_enabled)>>))
Mover(o, c) ==
  Trigger(o, c)
  \o <<Enu("moverBehavior", o.behavior), Flt("touchBlockerDamage", o.touch_blocker_damage), Flt("stayOpenTimeSec", o.stay_open_time_sec),
       Boo("moverLocked", o.locked), Boo("autoLinkEnabled", o.auto_link)>>
  \o If(c.g = 2, <<Boo("autoRotate", o.auto_rotate)>>)
  \o <<Wor("numKeyframes", Len(o.keyframes))>>
  \o If(o.keyframes # <<>>, <<Flt("moveSpeed", o.speed), Enu("posLerpType", o.lerp_mode), Enu("speedType", o.speed_mode),
                              Raw("keyframes", FlattenSeq([i \in 1 .. Len(o.keyframes) |-> Words(o.keyframes[i])]))>>)
  \o If(c.save, <<Vec("actKeyPosDelta", o.s_act_key_pos_delta), Flt("actKeyframeF", o.s_act_keyframe_f), Itg("actKeyframe", o.s_act_keyframe),
                  Itg("nextKeyframe", o.s_next_keyframe), Flt("moveSpeedUnit", o.s_move_speed_unit), Flt("advanceDir", o.s_advance_dir),
                  Enu("moverState", o.s_mover_state), Itg("numTriggerEvents", o.s_trigger_event_count), Flt("stayOpenTimeDest", o.s_stay_open_time_dest)>>)
  \o <<Str("sfxOpenStart", o.sfx_open_start), Str("sfxOpenEnd", o.sfx_open_end), Str("sfxMoving", o.sfx_transitioning), Str("sfxCloseStart", o.sfx_close_start),
       Str("sfxCloseEnd", o.sfx_close_end), Str("sfxLock", o.sfx_lock), Str("sfxUnlock", o.sfx_unlock), Str("sfxUseLocked", o.sfx_use_locked)>>
TrigList(o, c) ==
  Trigger(o, c) \o <<Enu("listProcess", o.mode), Byt("numTargets", Len(o.targets))>>
  \o MapI(o.targets, LAMBDA t, i : <<Str("triggerTarget" \o ToString(i), t.name), Flt("fireDelay" \o ToString(i), t.delay)>>)
  \o If(c.save, <<Byt("actTarget", o.s_act_target), Boo("sendOnTrigger", o.s_send_on_trigger)>>)
TrigScript(o, c) == Trigger(o, c) \o <<Str("scriptFunc", o.function)>>
TrigLevel(o, c) == Trigger(o, c) \o <<Str("levelName", o.level_name), Str("startVobName", o.start_vob)>>
WorldStart(o, c) == Vob(o, c) \o <<Str("triggerTarget", o.target), Boo("fireOnlyFirstTime", o.fire_once)>> \o If(c.save /\ c.g = 2, <<Boo("hasFired", o.s_has_fired)>>)
Untouch(o, c) == Vob(o, c) \o <<Str("triggerTarget", o.target)>>
Light(o, c) ==
  Vob(o, c)
  \o <<Str("lightPresetInUse", o.preset), Enu("lightType", o.light_type), Flt("range", o.range), Col("color", o.color), Flt("spotConeAngle", o.cone_angle),
       Boo("lightStatic", o.is_static), Enu("lightQuality", o.quality), Str("lensflareFX", o.lensflare_fx)>>
  \o If(~o.is_static, <<Boo("turnedOn", o.on), Str("rangeAniScale", Map(o.range_txt, LAMBDA t : t \o <<32>>)), Flt("rangeAniFPS", o.range_animation_fps),
                        Boo("rangeAniSmooth", o.range_animation_smooth),
                        Str("colorAniList", Map(o.color_animation_list, LAMBDA x : <<40>> \o DecN(x[1]) \o <<32>> \o DecN(x[2]) \o <<32>> \o DecN(x[3]) \o <<41, 32>>)),
                        Flt("colorAniFPS", o.color_animation_fps), Boo("colorAniSmooth", o.color_animation_smooth)>>
                      \o If(c.g = 2, <<Boo("canMove", o.can_move)>>))
Music(o, c) ==
  Vob(o, c) \o <<Boo("enabled", o.enabled), Itg("priority", o.priority), Boo("ellipsoid", o.ellipsoid), Flt("reverbLevel", o.reverb), Flt("volumeLevel", o.volume),
                 Boo("loop", o.loop)>>
  \o If(c.save, <<Boo("local_enabled", o.s_local_enabled), Boo("dayEntranceDone", o.s_day_entrance_done), Boo("nightEntranceDone", o.s_night_entrance_done)>>)
FarPlane(o, c) == Vob(o, c) \o <<Flt("vobFarPlaneZ", o.vob_far_plane_z), Flt("innerRangePerc", o.inner_range_percentage)>>
Fog(o, c) == Vob(o, c) \o <<Flt("fogRangeCenter", o.range_center), Flt("innerRangePerc", o.inner_range_percentage), Col("fogColor", o.color)>>
             \o If(c.g = 2, <<Boo("fadeOutSky", o.fade_out_sky), Boo("overrideColor", o.override_color)>>)
KeyFrame(o, c) ==
  Vob(o, c) \o <<Flt("time", o.time), Flt("angleRollDeg", o.roll_angle), Flt("camFOVScale", o.fov_scale), Enu("motionType", o.motion_type),
                 Enu("motionTypeFOV", o.motion_type_fov), Enu("motionTypeRoll", o.motion_type_roll), Enu("motionTypeTimeScale", o.motion_type_time_scale),
                 Flt("tension", o.tension), Flt("bias", o.cam_bias), Flt("continuity", o.continuity), Flt("timeScale", o.time_scale),
                 Boo("timeIsFixed", o.time_fixed), Raw("originalPose", Words(Transp(o.original_pose, 4)))>>
CsCamera(o, c) ==
  Vob(o, c)
  \o <<Enu("camTrjFOR", o.trajectory_for), Enu("targetTrjFOR", o.target_trajectory_for), Enu("loopMode", o.loop_mode), Enu("splLerpMode", o.lerp_mode),
       Boo("ignoreFORVobRotCam", o.ignore_for_vob_rotation), Boo("ignoreFORVobRotTarget", o.ignore_for_vob_rotation_target), Boo("adaptToSurroundings", o.adapt),
       Boo("easeToFirstKey", o.ease_first), Boo("easeFromLastKey", o.ease_last), Flt("totalTime", o.total_duration), Str("autoCamFocusVobName", o.auto_focus_vob),
       Boo("autoCamPlayerMovable", o.auto_player_movable), Boo("autoCamUntriggerOnLastKey", o.auto_untrigger_last),
       Flt("autoCamUntriggerOnLastKeyDelay", o.auto_untrigger_last_delay), Num("numPos", Len(o.trajectory_frames)), Num("numTargets", Len(o.target_frames))>>
  \o Map(o.trajectory_frames \o o.target_frames, LAMBDA i : <<Obj("%", i)>>)
  \o If(c.save /\ c.g = 2, <<Boo("paused", o.paused), Boo("started", o.started), Boo("gotoTimeMode", o.goto_time_mode), Flt("csTime", o.cs_time)>>)

-----------------------------------------------------------------------------------------------------------------------------
(* NPCs *)
Talent(o) == <<Itg("talent", o.talent), Itg("value", o.value), Itg("skill", o.skill)>>
News(n) == <<Boo("told", n.told), Flt("spread_time", n.spread_time), Itg("spreadType", n.spread_type), Itg("news_id", n.news_id), Boo("gossip", n.gossip),
             Boo("guildvictim", n.guild_victim), Str("witnessName", n.witness_name), Str("offenderName", n.offender_name), Str("victimName", n.victim_name)>>
Slot(s) == <<Boo("used", s.used), Str("name", s.name)>> \o If(s.used, <<Obj("vob", s.item), Boo("inInv", s.in_inventory)>>)
RECURSIVE JoinedBy(_, _)
JoinedBy(ts, sep) == IF Len(ts) = 0 THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o JoinedBy(Tail(ts), sep)
HasShortKey(h, id) == id # 0 /\ (h[id].f.s_flags[2] \div 512) % 2 = 1
Npc(h, o, c) ==
  Vob(o, c)
  \o <<Str("npcInstance", o.npc_instance), Vec("modelScale", o.model_scale), Flt("modelFatness", o.model_fatness), Num("numOverlays", Len(o.overlays))>>
  \o Map(o.overlays, LAMBDA s : <<Str("overlay", s)>>)
  \o <<Itg("flags", o.flags), Itg("guild", o.guild), Itg("guildTrue", o.guild_true), Itg("level", o.level), Itg("xp", o.xp), Itg("xpnl", o.xp_next_level),
       Itg("lp", o.lp), Num("numTalents", Len(o.talents))>>
  \o Map(o.talents, LAMBDA i : <<Obj("%", i)>>)
  \o <<Itg("fightTactic", o.fight_tactic), Itg("fightMode", o.fight_mode), Boo("wounded", o.wounded), Boo("mad", o.mad), Itg("madTime", o.mad_time), Boo("player", o.player)>>
  \o MapI(o.attributes, LAMBDA v, i : <<Itg("atr" \o ToString(i), v)>>)
  \o If(c.g = 2, MapI(o.hit_chance, LAMBDA v, i : <<Itg("hc" \o ToString(i), v)>>))
  \o MapI(o.missions, LAMBDA v, i : <<Itg("mission" \o ToString(i), v)>>)
  \o <<Str("startAIState", o.start_ai_state), Raw("scriptVars", Words(SubSeq(o.aivar, 1, IF c.g = 1 THEN 50 ELSE 100))), Str("scriptWp", o.script_waypoint),
       Itg("attitude", o.attitude), Itg("tmpAttitude", o.attitude_temp), Itg("nameNr", o.name_nr), Raw("spells", Zeros(4)), Num("NumOfEntries", Len(o.news))>>
  \o Map(o.news, News)
  \o <<Obj("carryVob", o.carry_vob), Obj("enemy", o.enemy), Boo("moveLock", o.move_lock)>>
  \o (IF c.g = 1 THEN Map(o.packed, LAMBDA s : <<Str("packed", s)>>) ELSE <<Str("packed", JoinedBy(o.packed, <<59>>))>>)
  \o <<Num("itemCount", Len(o.items))>>
  \o MapI(o.items, LAMBDA v, i : <<Obj("item" \o ToString(i), v)>> \o If(c.save /\ HasShortKey(h, v), <<Num("shortKey" \o ToString(i), 0)>>))
  \o <<Num("numInvSlots", Len(o.slots))>> \o Map(o.slots, Slot)
  \o <<Boo("curState.valid", o.current_state_valid), Str("curState.name", o.current_state_name), Itg("curState.prgIndex", o.current_state_index),
       Boo("curState.isRtnState", o.current_state_is_routine), Boo("nextState.valid", o.next_state_valid), Str("nextState.name", o.next_state_name),
       Itg("nextState.prgIndex", o.next_state_index), Boo("nextState.isRtnState", o.next_state_is_routine), Itg("lastAIState", o.last_ai_state),
       Boo("hasRoutine", o.has_routine), Boo("rtnChanged", o.routine_changed), Boo("rtnOverlay", o.routine_overlay), Itg("rtnOverlayCount", o.routine_overlay_count),
       Itg("walkmode_routine", o.walkmode_routine), Boo("weaponmode_routine", o.weaponmode_routine), Boo("startNewRoutine", o.start_new_routine),
       Itg("aiStateDriven", o.ai_state_driven), Vec("aiStatePos", o.ai_state_pos), Str("curRoutine", o.current_routine), Boo("respawn", o.respawn),
       Itg("respawnTime", o.respawn_time), Raw("protection", Words(o.protection))>>
  \o If(c.g = 2, <<Itg("bsInterruptableOverride", o.bs_interruptable_override), Itg("npcType", o.npc_type), Itg("spellMana", o.spell_mana)>>)

-----------------------------------------------------------------------------------------------------------------------------
(* Cutscenes, materials, save-game information *)
Conversation(o, c) == <<Enu("subType", o.type)>> \o If(c.save, <<Boo("highPriority", o.high_priority), Boo("inUse", o.used), Boo("deleted", o.deleted)>>)
                      \o <<Str("text", o.text), Str("name", o.name)>>
CsBlock(o) == <<Str("blockName", o.name), Num("numOfBlocks", 1), Flt("subBlock0", Zero), Obj("%", o.block)>>
CsLib(o) == <<Num("NumOfItems", Len(o.blocks))>> \o Map(o.blocks, LAMBDA i : <<Obj("%", i)>>)
CsProps(o) == <<Str("name", o.name), Boo("globalCutscene", o.global), Boo("csLoop", o.loop), Boo("hasToBeTriggerd", o.has_to_be_triggered), Flt("distance", o.distance),
                Flt("range", o.range), Itg("numLockedBlocks", o.locked_block_count), Enu("runBehaviour", o.run_behaviour), Itg("runBehaviourValue", o.run_behaviour_value),
                Str("StageName", o.stage_name), Str("scriptFuncOnStop", o.script_function_on_stop)>>
CsContext(o) == CsBlock(o) \o <<Obj("%", o.props), Itg("numOfRoles", o.role_count), Itg("numOfRoleVobs", o.role_vob_count), Obj("%", o.npc), Obj("mainRoleVob", o.main_role),
                                Boo("isCutscene", o.is_cutscene), Itg("reference", o.reference), Itg("actualBlock", o.actual_block), Obj("alt_stage", o.alt_stage),
                                Obj("stage", o.stage), Boo("wasTriggered", o.was_triggered)>>
CsPlayer(o) == <<Itg("lastProcessDay", o.last_process_day), Itg("lastProcessHour", o.last_process_hour), Num("playListCount", Len(o.playlists))>>
               \o MapI(o.playlists, LAMBDA p, i : <<Obj("playContext" \o ToString(i), p)>>)
PoolItem(o) == <<Str("itemName", o.name), Enu("runBehaviour", o.run_behavior), Itg("runBehaviourValue", o.run_behavior_value), Itg("numPlayed", o.times_played),
                 Itg("deactivated", o.deactivated), Itg("flags", o.flags)>>
CsManager(o) == <<Num("poolCount", Len(o.pool_items))>> \o Map(o.pool_items, LAMBDA i : <<Obj("%", i)>>)
Sky(o, c) == <<Flt("masterTime", o.master_time), Flt("rainWeight", o.rain_weight), Flt("rainStart", o.rain_start), Flt("rainStop", o.rain_stop),
               Flt("rainSctTimer", o.rain_sct_timer), Flt("rainSndVol", o.rain_snd_vol), Flt("dayCtr", o.day_ctr)>>
             \o If(c.g = 2, <<Flt("fadeScale", o.fade_scale), Boo("renderLightning", o.render_lightning), Boo("isRaining", o.is_raining), Itg("rainCtr", o.rain_ctr)>>)
Mat(o, c) ==
  <<Str("name", o.name), Enu("matGroup", o.group), Col("color", o.color), Flt("smoothAngle", o.smooth_angle), Str("texture", o.texture),
    Str("texScale", JoinedBy(o.scale_txt, <<32>>)), Flt("texAniFPS", o.texture_anim_fps), Enu("texAniMapMode", o.texture_anim_map_mode),
    Str("texAniMapDir", JoinedBy(o.dir_txt, <<32>>)), Boo("noCollDet", o.disable_collision), Boo("noLightmap", o.disable_lightmap),
    Boo("lodDontCollapse", o.dont_collapse), Str("detailObject", o.detail_object)>>
  \o If(c.g = 2, <<Flt("detailObjectScale", o.detail_object_scale), Boo("forceOccluder", o.force_occluder), Boo("environmentalMapping", o.environment_mapping),
                   Flt("environmentalMappingStrength", o.environment_mapping_strength), Enu("waveMode", o.wave_mode), Enu("waveSpeed", o.wave_speed),
                   Flt("waveMaxAmplitude", o.wave_max_amplitude), Flt("waveGridSize", o.wave_grid_size), Boo("ignoreSunLight", o.ignore_sun), Enu("alphaFunc", o.alpha_func)>>)
  \o <<RawF("defaultMapping", o.default_mapping)>>
SaveInfo(o, c) ==
  <<Str("Title", o.title), Str("WorldName", o.world), Itg("TimeDay", o.time_day), Itg("TimeHour", o.time_hour), Itg("TimeMin", o.time_minute), Str("SaveDate", o.save_date),
    Itg("VersionMajor", o.version_major), Itg("VersionMinor", o.version_minor), Itg("PlayTimeSeconds", o.play_time_seconds)>>
  \o If(c.g = 2, <<Itg("VersionPoint", o.version_point), Itg("VersionInt", o.version_int), Str("VersionAppName", o.version_app_name)>>)

-----------------------------------------------------------------------------------------------------------------------------
(* Worlds: the object tree in pre-order, each object followed by the number of its children; the way-net: free points, then *)
(* the edges with their ends                                                                                               *)
WayPt(o) == <<Str("wpName", o.name), Itg("waterDepth", o.water_depth), Boo("underWater", o.under_water), Vec("position", o.position), Vec("direction", o.direction)>>
FreePts(h, o) == SelectSeq(o.points, LAMBDA p : h[p].f.free_point)
WayNt(h, o) ==
  LET fr == FreePts(h, o) IN
  <<Num("waynetVersion", 1), Num("numWaypoints", Len(fr))>> \o MapI(fr, LAMBDA p, i : <<Obj("waypoint" \o ToString(i), p)>>)
  \o <<Num("numWays", Len(o.edges))>> \o MapI(o.edges, LAMBDA e, i : <<Obj("wayl" \o ToString(i), e[1]), Obj("wayr" \o ToString(i), e[2])>>)
\* All nodes of the tree below id, in pre-order
RECURSIVE Preorder(_, _)
Preorder(h, id) == <<id>> \o FlattenSeq([i \in 1 .. Len(h[id].f.children) |-> Preorder(h, h[id].f.children[i])])
VobTree(h, id) == MapI(Preorder(h, id), LAMBDA n, i : <<Obj("%", n), Num("childs" \o ToString(i), Len(h[n].f.children))>>)
Section(key, body) == <<Beg(key, "%", 0, 0)>> \o body \o <<End>>
Wrld(h, o, c) ==
  If(~c.save, Section("MeshAndBsp", <<E("mesh", "", IF c.g = 1 THEN <<521, 0>> ELSE <<1033, 0>>)>>))
  \o Section("VobTree", <<Num("childs0", Len(o.world_vobs))>> \o Map(o.world_vobs, LAMBDA v : VobTree(h, v)))
  \o If(c.save /\ o.player # 0, Section("CutscenePlayer", <<Obj("%", o.player)>>))
  \o If(c.save /\ o.sky_controller # 0, Section("SkyCtrl", <<Obj("%", o.sky_controller)>>))
  \o Section("WayNet", <<Obj("%", o.way_net)>>)
  \o Section("EndMarker", <<>>)
  \o If(c.save, <<Num("npcCount", Len(o.npcs))>> \o MapI(o.npcs, LAMBDA n, i : <<Obj("npc" \o ToString(i), n)>>)
                \o <<Num("NoOfEntries", Len(o.npc_spawns))>> \o Map(o.npc_spawns, LAMBDA s : <<Obj("npc", s.npc), Vec("spawnPos", s.position), Flt("timer", s.timer)>>)
                \o <<Boo("spawningEnabled", o.npc_spawn_enabled)>> \o If(c.g = 2, <<Itg("spawnFlags", o.npc_spawn_flags)>>))

-----------------------------------------------------------------------------------------------------------------------------
(* The classes: name in archives, version in Gothic 1 and 2 *)
Vobs == [zCVob |-> "zCVob", zCVobLevelCompo |-> "zCVobLevelCompo:zCVob", oCItem |-> "oCItem:zCVob", oCNpc |-> "oCNpc:zCVob",
  zCMoverController |-> "zCMoverControler:zCVob", zCVobScreenFX |-> "zCVobScreenFX:zCVob", zCVobStair |-> "zCVobStair:zCVob",
  zCPFXController |-> "zCPFXControler:zCVob", zCVobAnimate |-> "zCVobAnimate:zCVob", zCVobLensFlare |-> "zCVobLensFlare:zCVob", zCVobLight |-> "zCVobLight:zCVob",
  zCVobSpot |-> "zCVobSpot:zCVob", zCVobStartpoint |-> "zCVobStartpoint:zCVob", zCMessageFilter |-> "zCMessageFilter:zCVob", zCCodeMaster |-> "zCCodeMaster:zCVob",
  zCTriggerWorldStart |-> "zCTriggerWorldStart:zCVob", zCCSCamera |-> "zCCSCamera:zCVob", zCCamTrj_KeyFrame |-> "zCCamTrj_KeyFrame:zCVob",
  oCTouchDamage |-> "oCTouchDamage:zCTouchDamage:zCVob", zCTriggerUntouch |-> "zCTriggerUntouch:zCVob", zCEarthquake |-> "zCEarthquake:zCVob", oCMOB |-> "oCMOB:zCVob",
  oCMobInter |-> "oCMobInter:oCMOB:zCVob", oCMobBed |-> "oCMobBed:oCMobInter:oCMOB:zCVob", oCMobFire |-> "oCMobFire:oCMobInter:oCMOB:zCVob",
  oCMobLadder |-> "oCMobLadder:oCMobInter:oCMOB:zCVob", oCMobSwitch |-> "oCMobSwitch:oCMobInter:oCMOB:zCVob", oCMobWheel |-> "oCMobWheel:oCMobInter:oCMOB:zCVob",
  oCMobContainer |-> "oCMobContainer:oCMobInter:oCMOB:zCVob", oCMobDoor |-> "oCMobDoor:oCMobInter:oCMOB:zCVob", zCTrigger |-> "zCTrigger:zCVob",
  zCTriggerList |-> "zCTriggerList:zCTrigger:zCVob", oCTriggerScript |-> "oCTriggerScript:zCTrigger:zCVob", oCTriggerChangeLevel |-> "oCTriggerChangeLevel:zCTrigger:zCVob",
  oCCSTrigger |-> "oCCSTrigger:zCTrigger:zCVob", zCMover |-> "zCMover:zCTrigger:zCVob", zCVobSound |-> "zCVobSound:zCVob",
  zCVobSoundDaytime |-> "zCVobSoundDaytime:zCVobSound:zCVob", oCZoneMusic |-> "oCZoneMusic:zCVob", oCZoneMusicDefault |-> "oCZoneMusicDefault:oCZoneMusic:zCVob",
  zCZoneZFog |-> "zCZoneZFog:zCVob", zCZoneZFogDefault |-> "zCZoneZFogDefault:zCZoneZFog:zCVob", zCZoneVobFarPlane |-> "zCZoneVobFarPlane:zCVob",
  zCZoneVobFarPlaneDefault |-> "zCZoneVobFarPlaneDefault:zCZoneVobFarPlane:zCVob"]
Longer == [oCAIHuman |-> "oCAIHuman:oCAniCtrl_Human:zCAIPlayer", oCCSPlayer |-> "oCCSPlayer:zCCSPlayer", oCWorld |-> "oCWorld:zCWorld",
  oCCSManager |-> "oCCSManager:zCCSManager", zCCutscene |-> "zCCutscene:zCCSBlock", zCCSCutsceneContext |-> "zCCSCutsceneContext:zCCutscene:zCCSBlock",
  oCMsgConversation |-> "oCMsgConversation:oCNpcMessage:zCEventMessage"]
IsVob(cls) == cls \in DOMAIN Vobs
ClassName(cls) == IF IsVob(cls) THEN Vobs[cls] ELSE IF cls \in DOMAIN Longer THEN Longer[cls] ELSE cls
\* Versions by game; derived classes inherit the version of their base
VersionTable == [oCZoneMusic |-> <<0, 0>>, oCZoneMusicDefault |-> <<0, 0>>, zCZoneZFog |-> <<64704, 5505>>, zCZoneZFogDefault |-> <<64704, 5505>>,
  zCVobSound |-> <<12289, 12289>>, zCVobSoundDaytime |-> <<12289, 12289>>, zCTrigger |-> <<47105, 47105>>, oCCSTrigger |-> <<24577, 24577>>,
  oCTriggerScript |-> <<24577, 24577>>, oCTriggerChangeLevel |-> <<24577, 24577>>, zCMover |-> <<39936, 39936>>, zCTriggerList |-> <<59776, 5505>>,
  zCTriggerWorldStart |-> <<52224, 52224>>, zCTriggerUntouch |-> <<193, 193>>, zCVobLight |-> <<46080, 39168>>, oCItem |-> <<0, 0>>, zCMessageFilter |-> <<0, 0>>,
  zCCodeMaster |-> <<0, 0>>, zCMoverController |-> <<0, 0>>, zCVobLensFlare |-> <<64704, 193>>, oCTouchDamage |-> <<36865, 36865>>, zCEarthquake |-> <<52224, 52224>>,
  oCNpc |-> <<52224, 52224>>, oCMOB |-> <<47105, 47105>>, oCMobInter |-> <<35585, 35585>>, oCMobLadder |-> <<35585, 35585>>, oCMobSwitch |-> <<35585, 35585>>,
  oCMobWheel |-> <<35585, 35585>>, oCMobContainer |-> <<64513, 64513>>, oCMobDoor |-> <<64513, 64513>>, oCMobBed |-> <<61440, 61440>>, oCMobFire |-> <<18433, 18433>>,
  zCCSCamera |-> <<30720, 33793>>, oCWorld |-> <<64513, 64513>>, zCMaterial |-> <<17408, 39939>>]
VersionOf(cls, g) == IF cls \in DOMAIN VersionTable THEN VersionTable[cls][g] ELSE IF IsVob(cls) THEN <<12289, 52224>>[g] ELSE 0

Body(h, id, c) ==
  LET o == h[id].f  k == h[id].cls IN
  CASE k \in {"zCVob", "zCVobLevelCompo", "zCVobStair", "zCVobSpot", "zCVobStartpoint"} -> Vob(o, c)
    [] k \in {"zCMesh", "zCProgMeshProto", "zCParticleFX", "zCAICamera", "zCModel", "zCMorphMesh"} -> <<>>
    [] k = "zCDecal" -> Decal(o, c)             [] k = "zCEventManager" -> EventMgr(o)      [] k = "oCAIHuman" -> Human(o)
    [] k = "oCAIVobMove" -> Move(o)             [] k = "zCVobAnimate" -> Animate(o, c)      [] k = "oCItem" -> Item(o, c)
    [] k = "zCVobLensFlare" -> LensFlare(o, c)  [] k = "zCPFXController" -> Pfx(o, c)       [] k = "zCMessageFilter" -> MsgFilter(o, c)
    [] k = "zCCodeMaster" -> CodeMaster(o, c)   [] k = "zCMoverController" -> MoverCtrl(o, c) [] k = "oCTouchDamage" -> TouchDamage(o, c)
    [] k = "zCEarthquake" -> Earthquake(o, c)   [] k = "zCVobScreenFX" -> ScreenFx(o, c)    [] k = "oCMOB" -> Mob(o, c)
    [] k \in {"oCMobInter", "oCMobBed", "oCMobLadder", "oCMobSwitch", "oCMobWheel"} -> Inter(o, c)
    [] k = "oCMobFire" -> Fire(o, c)            [] k = "oCMobDoor" -> Lockable(o, c)        [] k = "oCMobContainer" -> Container(o, c)
    [] k = "zCVobSound" -> Sound(o, c)          [] k = "zCVobSoundDaytime" -> Daytime(o, c) [] k \in {"zCTrigger", "oCCSTrigger"} -> Trigger(o, c)
    [] k = "zCMover" -> Mover(o, c)             [] k = "zCTriggerList" -> TrigList(o, c)    [] k = "oCTriggerScript" -> TrigScript(o, c)
    [] k = "oCTriggerChangeLevel" -> TrigLevel(o, c) [] k = "zCTriggerWorldStart" -> WorldStart(o, c) [] k = "zCTriggerUntouch" -> Untouch(o, c)
    [] k = "zCVobLight" -> Light(o, c)          [] k \in {"oCZoneMusic", "oCZoneMusicDefault"} -> Music(o, c)
    [] k \in {"zCZoneVobFarPlane", "zCZoneVobFarPlaneDefault"} -> FarPlane(o, c)            [] k \in {"zCZoneZFog", "zCZoneZFogDefault"} -> Fog(o, c)
    [] k = "zCCamTrj_KeyFrame" -> KeyFrame(o, c) [] k = "zCCSCamera" -> CsCamera(o, c)      [] k = "oCNpc" -> Npc(h, o, c)
    [] k = "oCNpcTalent" -> Talent(o)           [] k = "oCMsgConversation" -> Conversation(o, c) [] k = "zCCSAtomicBlock" -> <<Obj("%", o.message)>>
    [] k \in {"zCCSBlock", "zCCutscene"} -> CsBlock(o) [] k = "zCCSLib" -> CsLib(o)         [] k = "zCCSProps" -> CsProps(o)
    [] k = "zCCSCutsceneContext" -> CsContext(o) [] k = "oCCSPlayer" -> CsPlayer(o)         [] k = "zCCSPoolItem" -> PoolItem(o)
    [] k = "oCCSManager" -> CsManager(o)        [] k = "zCSkyControler_Outdoor" -> Sky(o, c) [] k = "zCMaterial" -> Mat(o, c)
    [] k = "oCSavegameInfo" -> SaveInfo(o, c)   [] k = "zCWaypoint" -> WayPt(o)             [] k = "zCWayNet" -> WayNt(h, o)
    [] k = "oCWorld" -> Wrld(h, o, c)

-----------------------------------------------------------------------------------------------------------------------------
(* Storing: a depth-first walk. An object met for the first time gets the next index; met again, it is stored as a reference *)
RECURSIVE Flat(_, _, _, _, _)
Flat(h, c, ts, i, st) ==
  IF i > Len(ts) THEN st
  ELSE LET t == ts[i] IN
    IF t.k # "obj" THEN Flat(h, c, ts, i + 1, [st EXCEPT !.out = Append(@, t)])
    ELSE IF t.v = 0 THEN Flat(h, c, ts, i + 1, [st EXCEPT !.out = @ \o <<Beg(t.key, "%", 0, 0), End>>])
    ELSE IF t.v \in DOMAIN st.cache THEN Flat(h, c, ts, i + 1, [st EXCEPT !.out = @ \o <<Beg(t.key, "REF", 0, st.cache[t.v]), End>>])
    ELSE LET inner == Flat(h, c, Body(h, t.v, c), 1,
                           [out |-> Append(st.out, Beg(t.key, ClassName(h[t.v].cls), VersionOf(h[t.v].cls, c.g), st.n)), cache |-> st.cache @@ (t.v :> st.n), n |-> st.n + 1])
         IN Flat(h, c, ts, i + 1, [inner EXCEPT !.out = Append(@, End)])
Stored(h, c, roots) == Flat(h, c, [i \in 1 .. Len(roots) |-> Obj("%", roots[i])] \o <<Num("tail", 4711)>>, 1, [out |-> <<>>, cache |-> <<>>, n |-> 0])

SameTok(a, b) == /\ a.k = b.k
                 /\ IF a.k = "end" THEN TRUE
                    ELSE /\ a.key = b.key
                         /\ IF a.k = "begin" THEN a.cls = b.cls /\ a.ver = b.ver /\ a.idx = b.idx ELSE a.v = b.v
FirstDiff(x, y) == IF \E i \in 1 .. MinOf(Len(x), Len(y)) : ~SameTok(x[i], y[i])
                   THEN CHOOSE i \in 1 .. MinOf(Len(x), Len(y)) : ~SameTok(x[i], y[i]) /\ \A j \in 1 .. i - 1 : SameTok(x[j], y[j])
                   ELSE MinOf(Len(x), Len(y)) + 1
At(x, i) == IF i <= Len(x) THEN x[i] ELSE "(nothing)"
SameToks(x, y) == IF Len(x) = Len(y) /\ \A i \in 1 .. Len(x) : SameTok(x[i], y[i]) THEN TRUE
                  ELSE LET i == FirstDiff(x, y) IN PrintT("EXPECTED token " \o ToString(i) \o ToString(At(x, i)) \o " got " \o ToString(At(y, i))) /\ FALSE

-----------------------------------------------------------------------------------------------------------------------------
(* What loading derives for fields that are not stored as such *)
Derived(o, k, c) ==
  /\ IsVob(k) => o.typed
  /\ (k = "zCVobAnimate" /\ ~c.save) => o.s_is_running = o.start_on
  /\ ("max_activation_count" \in DOMAIN o) =>
       /\ ~c.save => o.s_count_can_be_activated = o.max_activation_count
       /\ o.flags = TriggerFlags(o) /\ o.filter_flags = FilterFlags(o)
  /\ k = "zCCSCamera" => o.position_count = NatWord(Len(o.trajectory_frames)) /\ o.target_count = NatWord(Len(o.target_frames))

\* A loaded way-net lists every point once: the free ones and the ends of the edges
NetRight(o, k, h) == k = "zCWayNet" =>
  /\ \A i, j \in 1 .. Len(o.points) : o.points[i] = o.points[j] => i = j
  /\ {o.points[i] : i \in 1 .. Len(o.points)} = {p \in {o.points[i] : i \in 1 .. Len(o.points)} : h[p].f.free_point} \cup UNION {{o.edges[i][1], o.edges[i][2]} : i \in 1 .. Len(o.edges)}

-----------------------------------------------------------------------------------------------------------------------------
\* What loading makes of a stored graph: archives that are no save-games do not keep event managers, libraries of cutscenes
\* come back sorted by name, and objects of the classes in `gone` are left out of trees together with everything below them.
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
Kept(h, c, gone) ==
  LET known(list) == SelectSeq(list, LAMBDA x : h[x].cls \notin gone) IN
  [i \in 1 .. Len(h) |->
    CASE IsVob(h[i].cls) -> [h[i] EXCEPT !.f.event_manager = IF c.save THEN @ ELSE 0, !.f.children = known(@)]
      [] h[i].cls = "oCWorld" -> [h[i] EXCEPT !.f.world_vobs = known(@)]
      [] h[i].cls = "zCCSLib" -> [h[i] EXCEPT !.f.blocks = SortSeq(@, LAMBDA x, y : LexLess(h[x].f.name, h[y].f.name))]
      [] OTHER -> h[i]]

\* heap: the objects of the program; cfg, roots, gone: what was stored last; toks: what loading it must come back to;
\* lib: the cutscene library loaded last
VARIABLES heap, cfg, roots, toks, lib
ovars == <<heap, cfg, roots, toks, lib>>
OInit == heap = <<>> /\ cfg = [g |-> 1, save |-> FALSE, pack |-> TRUE] /\ roots = <<>> /\ toks = <<>> /\ lib = <<>>
Graph(e) == heap' = e.objs /\ UNCHANGED <<cfg, roots, toks, lib>>
Conf(e) == [g |-> e.game, save |-> e.save, pack |-> e.pack]
Write(e) == /\ cfg' = Conf(e) /\ roots' = e.roots /\ UNCHANGED <<heap, lib>>
            /\ LET s == Stored(heap, Conf(e), e.roots) IN
               /\ toks' = Stored(Kept(heap, Conf(e), {}), Conf(e), e.roots).out
               /\ e.res = "ok" /\ SameToks(s.out, e.toks) /\ e.objects = s.n /\ e.count = s.n
Forge(e) == toks' = Stored(Kept(heap, cfg, {e.cls}), cfg, roots).out /\ UNCHANGED <<heap, cfg, roots, lib>>
Loaded(e) == /\ e.res = "ok"
             /\ SameToks(toks, Stored(e.objs, cfg, e.roots).out)
             /\ \A i \in 1 .. Len(e.objs) : Derived(e.objs[i].f, e.objs[i].cls, cfg) /\ NetRight(e.objs[i].f, e.objs[i].cls, e.objs)
ReadBack(e) == UNCHANGED ovars /\ e.tail /\ Loaded(e)
\* The game a world belongs to shows in its mesh
\* (save-games have none), and only a world is a world
ReadWorld(e) == UNCHANGED ovars /\ IF heap[roots[1]].cls # "oCWorld" \/ (e.detect /\ cfg.save) THEN e.res # "ok"
                                   ELSE Loaded(e) /\ (e.detect => e.version = cfg.g)
ReadLib(e) == UNCHANGED <<heap, cfg, roots, toks>> /\ Loaded(e) /\ lib' = e.objs
Find(e) ==
  /\ UNCHANGED ovars
  /\ LET hits == IF lib = <<>> THEN {} ELSE {i \in 1 .. Len(lib[1].f.blocks) : lib[lib[1].f.blocks[i]].f.name = e.name} IN
     IF hits = {} THEN e.found = <<-1>>
     ELSE /\ e.found = e.name
          /\ \E i \in hits : Stored(lib, cfg, <<lib[1].f.blocks[i]>>).out = Stored(e.blocks.objs, cfg, e.blocks.roots).out
OStep(e) == CASE e.op = "graph" -> Graph(e) [] e.op = "write" -> Write(e) [] e.op = "read" -> ReadBack(e) [] e.op = "forge" -> Forge(e)
              [] e.op = "read_world" -> ReadWorld(e) [] e.op = "read_lib" -> ReadLib(e) [] e.op = "find" -> Find(e)
============================================================================================================================
