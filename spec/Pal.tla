---------------------------------- MODULE Pal ----------------------------------
(***************************************************************************)
(* The structures Palworld embeds in byte arrays, where they occur, and    *)
(* the export of a document (the JSON the tool writes).                    *)
(***************************************************************************)
EXTENDS Gvas, PalNames

G16 == <<"g">>
S == <<"s">>
U8 == <<"p", "u8">>
I32 == <<"p", "i32">>
U32 == <<"p", "u32">>
I64 == <<"p", "i64">>
B32 == <<"b32">>
Arr(g) == <<"a", g>>
Rec(fs) == <<"r", fs>>
Const(j) == <<"k", j>>
Props == <<"P">>
EmptyRec == <<"r", <<>>>>

(***************************************************************************)
(* Layouts.                                                                *)
(***************************************************************************)
HandleG == Rec(<<<<"guid", G16>>, <<"instance_id", G16>>>>)
IndividualG == Rec(<<<<"player_uid", G16>>, <<"instance_id", G16>>>>)
PlayerInfoG == Rec(<<<<"last_online_real_time", I64>>, <<"player_name", S>>>>)
DynamicIdG == Rec(<<<<"created_world_id", G16>>, <<"local_id_in_created_world", G16>>>>)
ItemIdG == Rec(<<<<"static_id", S>>, <<"dynamic_id", DynamicIdG>>>>)
ItemNumG == Rec(<<<<"item_id", ItemIdG>>, <<"num", U32>>>>)
PermissionG == Rec(<<<<"type_a", Arr(U8)>>, <<"type_b", Arr(U8)>>, <<"item_static_ids", Arr(S)>>>>)

uGuild == U("EPalGroupType::Guild")
uIndie == U("EPalGroupType::IndependentGuild")
uOrg == U("EPalGroupType::Organization")
GroupG(t) ==
  Rec(<<<<"group_type", Const(<<"s", t>>)>>, <<"group_id", G16>>, <<"group_name", S>>,
        <<"individual_character_handle_ids", Arr(HandleG)>>>>
      \o (IF t \in {uGuild, uIndie, uOrg}
          THEN <<<<"org_type", U8>>, <<"base_ids", Arr(G16)>>>> ELSE <<>>)
      \o (IF t \in {uGuild, uIndie}
          THEN <<<<"base_camp_level", I32>>, <<"map_object_instance_ids_base_camp_points", Arr(G16)>>,
                 <<"guild_name", S>>>> ELSE <<>>)
      \o (IF t = uIndie
          THEN <<<<"player_uid", G16>>, <<"guild_name_2", S>>, <<"player_info", PlayerInfoG>>>> ELSE <<>>)
      \o (IF t = uGuild
          THEN <<<<"admin_player_uid", G16>>,
                 <<"players", Arr(Rec(<<<<"player_uid", G16>>, <<"player_info", PlayerInfoG>>>>))>>>> ELSE <<>>))

CharacterG == Rec(<<<<"object", Props>>, <<"unknown_bytes", <<"raw", 4>>>>, <<"group_id", G16>>>>)
ItemContainerG == Rec(<<<<"permission", PermissionG>>>>)
ItemSlotG == Rec(<<<<"permission", PermissionG>>, <<"corruption_progress_value", F32>>>>)
CharacterSlotG == Rec(<<<<"player_uid", G16>>, <<"instance_id", G16>>, <<"permission_tribe_id", U8>>>>)
FoliageModelG == Rec(<<<<"model_id", S>>, <<"foliage_preset_type", U8>>,
                       <<"cell_coord", Rec(<<<<"x", I64>>, <<"y", I64>>, <<"z", I64>>>>)>>>>)
FoliageInstanceG == Rec(<<<<"model_instance_id", G16>>,
    <<"world_transform", Rec(<<<<"rotator", <<"rot">>>>, <<"location", <<"pv">>>>, <<"scale_x", F32>>>>)>>,
    <<"hp", I32>>>>)
BaseCampG == Rec(<<<<"id", G16>>, <<"name", S>>, <<"state", U8>>, <<"transform", TransformG>>,
    <<"area_range", F32>>, <<"group_id_belong_to", G16>>, <<"fast_travel_local_transform", TransformG>>,
    <<"owner_map_object_instance_id", G16>>>>)
WorkerDirectorG == Rec(<<<<"id", G16>>, <<"spawn_transform", TransformG>>, <<"current_order_type", U8>>,
    <<"current_battle_type", U8>>, <<"container_id", G16>>>>)
WorkCollectionG == Rec(<<<<"id", G16>>, <<"work_ids", Arr(G16)>>>>)

\* dynamic items: identification, then one of three layouts found by trial
ItemHeadG == Rec(<<<<"created_world_id", G16>>, <<"local_id_in_created_world", G16>>, <<"static_id", S>>>>)
EggG == Rec(<<<<"character_id", S>>, <<"object", Props>>, <<"unknown_bytes", <<"raw", 4>>>>, <<"unknown_id", G16>>>>)
ArmorG == Rec(<<<<"durability", F32>>>>)
WeaponG == Rec(<<<<"durability", F32>>, <<"remaining_bullets", I32>>, <<"passive_skill_list", Arr(S)>>>>)
TypeConst(s) == <<"type", Const(<<"c", s>>)>>

ModuleNoOps == {U(s) : s \in {"EPalBaseCampModuleType::Energy", "EPalBaseCampModuleType::Medical",
   "EPalBaseCampModuleType::ResourceCollector", "EPalBaseCampModuleType::ItemStorages",
   "EPalBaseCampModuleType::FacilityReservation", "EPalBaseCampModuleType::ObjectMaintenance"}}
uTransport == U("EPalBaseCampModuleType::TransportItemDirector")
uPassive == U("EPalBaseCampModuleType::PassiveEffect")
TransportG == Rec(<<<<"transport_item_character_infos",
    Arr(Rec(<<<<"item_infos", Arr(ItemNumG)>>, <<"character_location", VectorG>>>>))>>>>)
PassiveG == Rec(<<<<"passive_effects", Arr(<<"alt",
    <<<<0, EmptyRec>>, <<1, EmptyRec>>,
      <<2, Rec(<<<<"work_hard_type", U8>>, <<"unknown_trailer", <<"upto", 4>>>>>>)>>>>, <<"bad">>>>)>>>>)

uProgress == U("EPalWorkableType::Progress")
uDefense == U("EPalWorkableType::Defense")
uRevive == U("EPalWorkableType::ReviveCharacter")
uAssign == U("EPalWorkableType::Assign")
WorkBaseTypes == {uProgress, uDefense, uRevive} \union {U(s) : s \in {
   "EPalWorkableType::TransportItemInBaseCamp", "EPalWorkableType::LevelObject",
   "EPalWorkableType::Repair", "EPalWorkableType::BootUp", "EPalWorkableType::OnlyJoin",
   "EPalWorkableType::OnlyJoinAndWalkAround", "EPalWorkableType::RemoveMapObjectEffect",
   "EPalWorkableType::MonsterFarm"}}
V2 == <<"v2", Const(<<"i", "u8", <<0>>>>)>>
WorkTransformG == <<"alt",
    <<<<1, Rec(<<V2, <<"rotation", QuatG>>, <<"translation", VectorG>>, <<"scale3d", VectorG>>>>)>>,
      <<2, Rec(<<V2, <<"map_object_instance_id", G16>>>>)>>,
      <<3, Rec(<<V2, <<"guid", G16>>, <<"instance_id", G16>>>>)>>>>,
    Rec(<<V2, <<"raw_data", <<"rest">>>>>>)>>
WorkBaseFields == <<<<"id", G16>>,
    <<"workable_bounds", Rec(<<<<"location", VectorG>>, <<"rotation", QuatG>>,
        <<"box_sphere_bounds", Rec(<<<<"origin", VectorG>>, <<"box_extent", VectorG>>,
                                     <<"sphere_radius", F64>>>>)>>>>)>>,
    <<"base_camp_id_belong_to", G16>>, <<"owner_map_object_model_id", G16>>,
    <<"owner_map_object_concrete_model_id", G16>>, <<"current_state", U8>>,
    <<"assign_locations", Arr(Rec(<<<<"location", VectorG>>, <<"facing_direction", VectorG>>>>))>>,
    <<"behaviour_type", U8>>, <<"assign_define_data_id", S>>, <<"override_work_type", U8>>,
    <<"assignable_fixed_type", U8>>, <<"assignable_otomo", B32>>,
    <<"can_trigger_worker_event", B32>>, <<"can_steal_assign", B32>>>>
WorkG(t) ==
  IF t \in WorkBaseTypes
  THEN Rec(WorkBaseFields
        \o (IF t = uDefense THEN <<<<"defense_combat_type", U8>>>>
            ELSE IF t = uProgress
            THEN <<<<"required_work_amount", F32>>, <<"work_exp", I32>>, <<"current_work_amount", F32>>,
                   <<"auto_work_self_amount_by_sec", F32>>>>
            ELSE IF t = uRevive THEN <<<<"target_individual_id", IndividualG>>>>
            ELSE <<>>)
        \o <<<<"transform", WorkTransformG>>>>)
  ELSE Rec(<<<<"handle_id", G16>>, <<"location_index", I32>>, <<"assign_type", U8>>,
             <<"assigned_individual_id", IndividualG>>, <<"state", U8>>, <<"fixed", U32>>,
             <<"transform", WorkTransformG>>>>)
WorkAssignG == Rec(<<<<"id", G16>>, <<"location_index", I32>>, <<"assign_type", U8>>,
    <<"assigned_individual_id", IndividualG>>, <<"state", U8>>, <<"fixed", B32>>>>)

MapModelG == Rec(<<<<"instance_id", G16>>, <<"concrete_model_instance_id", G16>>,
    <<"base_camp_id_belong_to", G16>>, <<"group_id_belong_to", G16>>,
    <<"hp", Rec(<<<<"current", I32>>, <<"max", I32>>>>)>>,
    <<"initital_transform_cache", TransformG>>, <<"repair_work_id", G16>>,
    <<"owner_spawner_level_object_instance_id", G16>>, <<"owner_instance_id", G16>>,
    <<"build_player_uid", G16>>, <<"interact_restrict_type", U8>>,
    <<"stage_instance_id_belong_to", Rec(<<<<"id", G16>>, <<"valid", B32>>>>)>>,
    <<"created_at", I64>>>>)
ConnectItemG == Rec(<<<<"connect_to_model_instance_id", G16>>, <<"index", U8>>>>)
ConnectorG == Rec(<<<<"supported_level", I32>>,
    <<"connect", Rec(<<<<"index", U8>>, <<"any_place", Arr(ConnectItemG)>>>>)>>,
    <<"other_connectors", <<"m", Rec(<<<<"index", U8>>, <<"connect", Arr(ConnectItemG)>>>>)>>>>>>)
BuildProcessG == Rec(<<<<"state", U8>>, <<"id", G16>>>>)

ModT(s) == U("EPalMapObjectConcreteModelModuleType::" \o s)
uModItem == ModT("ItemContainer")  uModChar == ModT("CharacterContainer")
uModWorkee == ModT("Workee")  uModSwitch == ModT("Switch")  uModLock == ModT("PasswordLock")
MapModuleG(t) ==
  IF t = uModItem THEN Rec(<<<<"target_container_id", G16>>,
        <<"slot_attribute_indexes", Arr(Rec(<<<<"attribute", U8>>, <<"indexes", Arr(I32)>>>>))>>,
        <<"all_slot_attribute", Arr(U8)>>, <<"drop_item_at_disposed", B32>>, <<"usage_type", U8>>>>)
  ELSE IF t = uModChar THEN Rec(<<<<"target_container_id", G16>>>>)
  ELSE IF t = uModWorkee THEN Rec(<<<<"target_work_id", G16>>>>)
  ELSE IF t = uModSwitch THEN Rec(<<<<"switch_state", U8>>>>)
  ELSE IF t = uModLock THEN Rec(<<<<"lock_state", U8>>, <<"password", S>>,
        <<"player_infos", Arr(Rec(<<<<"player_uid", G16>>, <<"try_failed_count", I32>>,
                                    <<"try_success_cache", B32>>>>))>>>>)
  ELSE <<"bad">>

\* concrete models: "" if the name is not in the table
ClassOf(nameU) ==
  LET n == StrOf(LowerU(nameU))
      hits == SelectSeq(ClassTable, LAMBDA row : \E i \in 1..Len(row[2]) : row[2][i] = n)
  IN IF hits = <<>> THEN "" ELSE hits[1][1]
AutoPick == <<"auto_picked_up", B32>>
ClassFields(c) ==
  CASE c = "PalMapObjectDeathDroppedCharacterModel" ->
         <<<<"stored_parameter_id", G16>>, <<"owner_player_uid", G16>>>>
    [] c = "PalMapObjectConvertItemModel" ->
         <<<<"current_recipe_id", S>>, <<"remain_product_num", I32>>, <<"requested_product_num", I32>>,
           <<"work_speed_additional_rate", F32>>>>
    [] c = "PalMapObjectPickupItemOnLevelModel" -> <<AutoPick>>
    [] c = "PalMapObjectDropItemModel" -> <<AutoPick, <<"item_id", ItemIdG>>>>
    [] c = "PalMapObjectItemDropOnDamagModel" -> <<<<"drop_item_infos", Arr(ItemNumG)>>>>
    [] c = "PalMapObjectDeathPenaltyStorageModel" -> <<<<"owner_player_uid", G16>>>>
    [] c = "PalMapObjectDefenseBulletLauncherModel" ->
         <<<<"remaining_bullets", I32>>, <<"magazine_size", I32>>, <<"bullet_item_name", S>>>>
    [] c = "PalMapObjectGenerateEnergyModel" -> <<<<"stored_energy_amount", F32>>>>
    [] c = "PalMapObjectFarmBlockV2Model" ->
         <<<<"crop_data_id", S>>, <<"current_state", U8>>, <<"crop_progress_rate_value", F32>>,
           <<"water_stack_rate_value", F32>>,
           <<"state_machine", <<"o", Rec(<<<<"growup_required_time", F32>>, <<"growup_progress_time", F32>>>>)>>>>>>
    [] c = "PalMapObjectFastTravelPointModel" -> <<<<"location_instance_id", G16>>>>
    [] c = "PalMapObjectShippingItemModel" -> <<<<"shipping_hours", Arr(I32)>>>>
    [] c = "PalMapObjectProductItemModel" ->
         <<<<"work_speed_additional_rate", F32>>, <<"product_item_id", S>>>>
    [] c = "PalMapObjectRecoverOtomoModel" -> <<<<"recover_amount_by_sec", F32>>>>
    [] c = "PalMapObjectHatchingEggModel" ->
         <<<<"hatched_character_save_parameter", Props>>, <<"unknown_bytes", U32>>,
           <<"hatched_character_guid", G16>>>>
    [] c = "PalMapObjectTreasureBoxModel" -> <<<<"treasure_grade_type", U8>>>>
    [] c = "PalMapObjectBreedFarmModel" -> <<<<"spawned_egg_instance_ids", Arr(G16)>>>>
    [] c = "PalMapObjectSignboardModel" -> <<<<"signboard_text", S>>>>
    [] c = "PalMapObjectTorchModel" -> <<<<"extinction_date_time", I64>>>>
    [] c = "PalMapObjectPalEggModel" -> <<<<"unknown_bytes", U32>>>>
    [] c = "PalMapObjectBaseCampPoint" -> <<<<"base_camp_id", G16>>>>
    [] OTHER -> <<>>
\* the one class of the table without a layout
NoLayoutClass == "DEFAULT_UNKNOWN_PalMapObjectConcreteModelBase"
ConcreteG(c) == Rec(<<<<"instance_id", G16>>, <<"model_instance_id", G16>>,
                      <<"concrete_model_type", Const(<<"c", c>>)>>>> \o ClassFields(c))

(***************************************************************************)
(* Reading one embedded structure: <<1, result>> or Fail (refused).        *)
(* A result is a decoded node, <<"null">> or <<"vals", bytes>> (raw).      *)
(***************************************************************************)
Whole(g, h, b) == LET r == Dec(g, h, "", b, 1) IN
                  IF OkP(r) /\ r[3] = Len(b) + 1 THEN <<1, r[2]>> ELSE Fail
Vals(b) == <<1, <<"vals", b>>>>
WholeOr(g, h, b) == LET r == Whole(g, h, b) IN IF OkP(r) THEN r ELSE Vals(b)

DecDynamicItem(h, b) ==
  LET hd == Dec(ItemHeadG, h, "", b, 1) IN
  IF ~OkP(hd) THEN Fail
  ELSE LET p == hd[3]
           egg == Dec(EggG, h, "", b, p)
           weapon == Dec(WeaponG, h, "", b, p)
           Is(t, body) == <<1, <<"r", <<<<"id", hd[2]>>, TypeConst(t), <<"", body>>>>>>>>
       IN IF OkP(egg) THEN IF egg[3] = Len(b) + 1 THEN Is("egg", egg[2]) ELSE Fail
          ELSE IF Len(b) + 1 - p = 4 THEN Is("armor", Dec(ArmorG, h, "", b, p)[2])
          ELSE IF OkP(weapon) /\ weapon[3] = Len(b) + 1 THEN Is("weapon", weapon[2])
          ELSE Is("unknown", <<"r", <<<<"trailer", <<"z", SubSeq(b, p, Len(b))>>>>>>>>)

PlainKinds == [character |-> CharacterG, foliage_model |-> FoliageModelG,
   foliage_instance |-> FoliageInstanceG, base_camp |-> BaseCampG, worker_director |-> WorkerDirectorG,
   work_collection |-> WorkCollectionG, work_assign |-> WorkAssignG, map_model |-> MapModelG,
   build_process |-> BuildProcessG]
NullKinds == [item_container |-> ItemContainerG, item_slot |-> ItemSlotG, character_slot |-> CharacterSlotG]

\* ctx: the accompanying group type, module type, work type or map object name
DecBlob(kind, ctx, h, b) ==
  IF kind \in DOMAIN PlainKinds THEN Whole(PlainKinds[kind], h, b)
  ELSE IF kind \in DOMAIN NullKinds
       THEN IF b = <<>> THEN <<1, <<"null">>>> ELSE Whole(NullKinds[kind], h, b)
  ELSE IF kind = "dynamic_item" THEN IF b = <<>> THEN <<1, <<"null">>>> ELSE DecDynamicItem(h, b)
  ELSE IF kind = "group" THEN Whole(GroupG(ctx), h, b)
  ELSE IF kind = "camp_module"
       THEN IF ctx \in ModuleNoOps THEN WholeOr(EmptyRec, h, b)
            ELSE IF ctx = uTransport THEN WholeOr(TransportG, h, b)
            ELSE IF ctx = uPassive THEN WholeOr(PassiveG, h, b)
            ELSE Vals(b)
  ELSE IF kind = "work"
       THEN IF ctx \in WorkBaseTypes \/ ctx = uAssign THEN Whole(WorkG(ctx), h, b) ELSE Vals(b)
  ELSE IF kind = "connector" THEN IF b = <<>> THEN Vals(b) ELSE Whole(ConnectorG, h, b)
  ELSE IF kind = "map_module" THEN IF b = <<>> THEN Vals(b) ELSE Whole(MapModuleG(ctx), h, b)
  ELSE IF kind = "concrete"
       THEN LET c == ClassOf(ctx) IN
            IF b = <<>> \/ c = "" THEN Vals(b)
            ELSE IF c = NoLayoutClass  \* every concrete model starts with two identifiers
                 THEN IF Len(b) < 32 THEN Fail ELSE Vals(b)
            ELSE Whole(ConcreteG(c), h, b)
  ELSE Assert(FALSE, <<"kind", kind>>)

\* the layout used for a kind and context where one exists, <<"bad">> otherwise
LayoutOf(kind, ctx) ==
  IF kind \in DOMAIN PlainKinds THEN PlainKinds[kind]
  ELSE IF kind \in DOMAIN NullKinds THEN NullKinds[kind]
  ELSE IF kind = "group" THEN GroupG(ctx)
  ELSE IF kind = "camp_module" THEN IF ctx \in ModuleNoOps THEN EmptyRec
                                    ELSE IF ctx = uTransport THEN TransportG
                                    ELSE IF ctx = uPassive THEN PassiveG ELSE <<"bad">>
  ELSE IF kind = "work" THEN IF ctx \in WorkBaseTypes \/ ctx = uAssign THEN WorkG(ctx) ELSE <<"bad">>
  ELSE IF kind = "connector" THEN ConnectorG
  ELSE IF kind = "map_module" THEN MapModuleG(ctx)
  ELSE IF kind = "concrete" THEN LET c == ClassOf(ctx) IN
       IF c = "" \/ c = NoLayoutClass THEN <<"bad">> ELSE ConcreteG(c)
  ELSE <<"bad">>

(***************************************************************************)
(* Where the structures occur.                                             *)
(***************************************************************************)
W == ".worldSaveData."
CustomSeq == <<
  <<".worldSaveData.GroupSaveDataMap", "group_map">>,
  <<".worldSaveData.CharacterSaveParameterMap.Value.RawData", "character">>,
  <<".worldSaveData.ItemContainerSaveData.Value.RawData", "item_container">>,
  <<".worldSaveData.ItemContainerSaveData.Value.Slots.Slots.RawData", "item_slot">>,
  <<".worldSaveData.CharacterContainerSaveData.Value.Slots.Slots.RawData", "character_slot">>,
  <<".worldSaveData.DynamicItemSaveData.DynamicItemSaveData.RawData", "dynamic_item">>,
  <<".worldSaveData.FoliageGridSaveDataMap.Value.ModelMap.Value.RawData", "foliage_model">>,
  <<".worldSaveData.FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value.RawData", "foliage_instance">>,
  <<".worldSaveData.BaseCampSaveData.Value.RawData", "base_camp">>,
  <<".worldSaveData.BaseCampSaveData.Value.WorkerDirector.RawData", "worker_director">>,
  <<".worldSaveData.BaseCampSaveData.Value.WorkCollection.RawData", "work_collection">>,
  <<".worldSaveData.BaseCampSaveData.Value.ModuleMap", "module_map">>,
  <<".worldSaveData.WorkSaveData", "work_list">>,
  <<".worldSaveData.MapObjectSaveData", "map_object_list">> >>
CustomPaths == {CustomSeq[i][1] : i \in 1..Len(CustomSeq)}
CustomKind == [x \in CustomPaths |-> CustomSeq[CHOOSE i \in 1..Len(CustomSeq) : CustomSeq[i][1] = x][2]]

HintPropertyLists == {W \o s : s \in {
  "CharacterContainerSaveData.Key", "CharacterContainerSaveData.Value",
  "CharacterSaveParameterMap.Key", "CharacterSaveParameterMap.Value",
  "FoliageGridSaveDataMap.Key", "FoliageGridSaveDataMap.Value",
  "FoliageGridSaveDataMap.Value.ModelMap.Value",
  "FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Key",
  "FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value",
  "ItemContainerSaveData.Key", "ItemContainerSaveData.Value",
  "MapObjectSaveData.MapObjectSaveData.ConcreteModel.ModuleMap.Value",
  "MapObjectSaveData.MapObjectSaveData.Model.EffectMap.Value",
  "MapObjectSpawnerInStageSaveData.Key", "MapObjectSpawnerInStageSaveData.Value",
  "MapObjectSpawnerInStageSaveData.Value.SpawnerDataMapByLevelObjectInstanceId.Value",
  "MapObjectSpawnerInStageSaveData.Value.SpawnerDataMapByLevelObjectInstanceId.Value.ItemMap.Value",
  "WorkSaveData.WorkSaveData.WorkAssignMap.Value",
  "BaseCampSaveData.Value", "BaseCampSaveData.Value.ModuleMap.Value",
  "GroupSaveDataMap.Value", "EnemyCampSaveData.EnemyCampStatusMap.Value",
  "DungeonSaveData.DungeonSaveData.MapObjectSaveData.MapObjectSaveData.Model.EffectMap.Value",
  "DungeonSaveData.DungeonSaveData.MapObjectSaveData.MapObjectSaveData.ConcreteModel.ModuleMap.Value"}}
HintGuids == {W \o s : s \in {
  "MapObjectSpawnerInStageSaveData.Value.SpawnerDataMapByLevelObjectInstanceId.Key",
  "BaseCampSaveData.Key", "GroupSaveDataMap.Key"}}
PalHints == [x \in HintPropertyLists \union HintGuids |->
                IF x \in HintGuids THEN uGuid ELSE uStructProperty]

(***************************************************************************)
(* Export.                                                                 *)
(*   <<"o", members>> object, <<"O", members>> object whose member order   *)
(*   counts, <<"a", items>>, <<"i"|"f", prim, bytes>>, <<"g", bytes>>,      *)
(*   <<"s", units>>, <<"c", literal>>, <<"b", 0|1>>, <<"n">>, <<"y", bytes>>*)
(*   (list of numbers), <<"B", bytes>> (base64), <<"q", 16 bit angle>>,     *)
(*   <<"v", width, scaled, bytes>> (a component of a compact position)     *)
(***************************************************************************)
\* replace the byte array called name by what decoding it gives
PGet(ps, name) == LET hits == SelectSeq(ps, LAMBDA q : q[1] = name) IN
                  IF hits = <<>> THEN <<"missing">> ELSE hits[1][2]
PSet(ps, name, v) == FMap(ps, LAMBDA q : IF q[1] = name THEN <<name, v>> ELSE q)

uRawData == U("RawData")  uGroupType == U("GroupType")  uWorkableType == U("WorkableType")
uWorkAssignMap == U("WorkAssignMap")  uModel == U("Model")  uConnector == U("Connector")
uBuildProcess == U("BuildProcess")  uConcreteModel == U("ConcreteModel")  uModuleMap == U("ModuleMap")
uMapObjectId == U("MapObjectId")

RECURSIVE JN(_, _, _), JProps(_, _, _), JProp(_, _, _), JPropPlain(_, _, _)
JId(id) == id
JRes(res, sel) == CASE res[1] = "null" -> <<"n">>
                    [] res[1] = "vals" -> <<"o", <<<<<<"c", "values">>, <<"y", res[2]>>>>>>>>
                    [] OTHER -> JN(res, "", sel)
Refused == <<"x">>
\* what stands in for the value of a byte array property q decoded as kind
DecP(q, kind, ctx, sel) ==
  LET r == DecBlob(kind, ctx, PalHints, q[3]) IN
  <<"Dec", q[2], IF OkP(r) THEN JRes(r[2], sel) ELSE Refused>>
DecIn(ps, kind, ctx, sel) == PSet(ps, uRawData, DecP(PGet(ps, uRawData), kind, ctx, sel))
StructProps(q) == q[5][2]
SetStructProps(q, ps) == <<q[1], q[2], q[3], q[4], <<"P", ps>>>>
MapEntries(q, F(_)) == <<q[1], q[2], q[3], q[4], q[5], q[6], FMap(q[7], F)>>
ArrEntries(q, F(_)) == <<q[1], q[2], q[3], q[4], q[5], q[6], FMap(q[7], F)>>

Interp(kind, q, sel) ==
  CASE kind = "group_map" ->
         MapEntries(q, LAMBDA e : <<e[1], <<"P", DecIn(e[2][2], "group", PGet(e[2][2], uGroupType)[4], sel)>>>>)
    [] kind = "module_map" ->
         MapEntries(q, LAMBDA e : <<e[1], <<"P", DecIn(e[2][2], "camp_module", e[1][2], sel)>>>>)
    [] kind = "work_list" ->
         ArrEntries(q, LAMBDA n :
           LET ps1 == DecIn(n[2], "work", PGet(n[2], uWorkableType)[4], sel)
               am == PGet(ps1, uWorkAssignMap)
               am2 == MapEntries(am, LAMBDA e : <<e[1], <<"P", DecIn(e[2][2], "work_assign", <<>>, sel)>>>>)
           IN <<"P", PSet(ps1, uWorkAssignMap, am2)>>)
    [] kind = "map_object_list" ->
         ArrEntries(q, LAMBDA n :
           LET ps == n[2]
               name == PGet(ps, uMapObjectId)[3][2]
               model == PGet(ps, uModel)
               m1 == DecIn(StructProps(model), "map_model", <<>>, sel)
               conn == PGet(m1, uConnector)
               m2 == PSet(m1, uConnector, SetStructProps(conn, DecIn(StructProps(conn), "connector", <<>>, sel)))
               bp == PGet(m2, uBuildProcess)
               m3 == PSet(m2, uBuildProcess, SetStructProps(bp, DecIn(StructProps(bp), "build_process", <<>>, sel)))
               cm == PGet(ps, uConcreteModel)
               c1 == DecIn(StructProps(cm), "concrete", name, sel)
               mm == PGet(c1, uModuleMap)
               mm2 == MapEntries(mm, LAMBDA e : <<e[1], <<"P", DecIn(e[2][2], "map_module", e[1][2], sel)>>>>)
               c2 == PSet(c1, uModuleMap, mm2)
           IN <<"P", PSet(PSet(ps, uModel, SetStructProps(model, m3)), uConcreteModel, SetStructProps(cm, c2))>>)
    [] OTHER -> DecP(q, kind, <<>>, sel)

Key(s) == <<"c", s>>
JSeq(ns, path, sel) == FMap(ns, LAMBDA n : JN(n, path, sel))
JMembers(fs, path, sel) ==
  FoldLeft(LAMBDA acc, f :
     IF f[2][1] = "o" /\ Len(f[2]) = 1 THEN acc
     ELSE IF f[2][1] = "m" /\ f[2][2] = <<>> THEN acc
     ELSE IF f[1] = "" THEN acc \o JN(f[2], path, sel)[2]
     ELSE Append(acc, <<Key(f[1]), JN(f[2], path, sel)>>), <<>>, fs)
XYZ(a, b, c) == <<"o", <<<<Key("x"), a>>, <<Key("y"), b>>, <<Key("z"), c>>>>>>
JN(n, path, sel) ==
  LET t == n[1] IN
  CASE t \in {"i", "f", "g", "s", "y"} -> n
    [] t = "z" -> <<"y", n[2]>>
    [] t \in {"b8", "b32"} -> <<"b", n[2]>>
    [] t = "r" -> <<"o", JMembers(n[2], path, sel)>>
    [] t \in {"a", "m", "t"} -> <<"a", JSeq(n[2], path, sel)>>
    [] t = "o" -> JN(n[2], path, sel)
    [] t = "k" -> n[2]
    [] t = "P" -> <<"O", JProps(n[2], path, sel)>>
    [] t = "rot" -> <<"o", <<<<Key("pitch"), <<"q", n[2]>>>>, <<Key("yaw"), <<"q", n[3]>>>>,
                             <<Key("roll"), <<"q", n[4]>>>>>>>>
    [] t = "pv" -> XYZ(<<"v", n[2], n[3], n[4]>>, <<"v", n[2], n[3], n[5]>>, <<"v", n[2], n[3], n[6]>>)
    [] t = "pvd" -> XYZ(<<"f", "f64", n[2]>>, <<"f", "f64", n[3]>>, <<"f", "f64", n[4]>>)
JProps(ps, path, sel) ==
  FMap(ps, LAMBDA q : <<<<"s", q[1]>>, JProp(q[2], path \o "." \o StrOf(q[1]), sel)>>)
JProp(q, path, sel) ==
  IF path \in sel
  THEN LET j == JPropPlain(Interp(CustomKind[path], q, sel), path, sel)
       IN <<"o", Append(j[2], <<Key("custom_type"), <<"c", path>>>>)>>
  ELSE JPropPlain(q, path, sel)
JType(u) == IF u = <<>> THEN <<"n">> ELSE <<"s", u>>
JPropPlain(q, path, sel) ==
  LET t == q[1]
      ty == <<Key("type"), <<"c", PropTypeName[t]>>>>
      id == <<Key("id"), q[2]>>
      Obj(ms) == <<"o", <<id, ty>> \o ms>>
  IN CASE t \in SimpleTypes -> Obj(<<<<Key("value"), JN(q[3], path, sel)>>>>)
       [] t = "Enum" -> Obj(<<<<Key("value"), <<"o", <<<<Key("type"), <<"s", q[3]>>>>,
                                                        <<Key("value"), <<"s", q[4]>>>>>>>>>>>>)
       [] t = "Bool" -> Obj(<<<<Key("value"), <<"b", q[3]>>>>>>)
       [] t = "Struct" -> Obj(<<<<Key("struct_type"), <<"s", q[3]>>>>, <<Key("struct_id"), <<"g", q[4]>>>>,
                                <<Key("value"), JN(q[5], path, sel)>>>>)
       [] t = "ArrV" -> Obj(<<<<Key("array_type"), <<"s", q[3]>>>>,
              <<Key("value"), <<"o", <<<<Key("values"), <<"a", JSeq(q[4], path, sel)>>>>>>>>>>>>)
       [] t = "ArrB" -> Obj(<<<<Key("array_type"), <<"c", "ByteProperty">>>>,
              <<Key("value"), <<"o", <<<<Key("values"), <<"y", q[3]>>>>>>>>>>>>)
       [] t = "Dec" -> Obj(<<<<Key("array_type"), <<"c", "ByteProperty">>>>, <<Key("value"), q[3]>>>>)
       [] t = "ArrS" -> Obj(<<<<Key("array_type"), <<"c", "StructProperty">>>>,
              <<Key("value"), <<"o", <<<<Key("prop_name"), <<"s", q[3]>>>>, <<Key("prop_type"), <<"s", q[4]>>>>,
                   <<Key("type_name"), <<"s", q[5]>>>>, <<Key("id"), <<"g", q[6]>>>>,
                   <<Key("values"), <<"a", JSeq(q[7], path \o "." \o StrOf(q[3]), sel)>>>>>>>>>>>>)
       [] t = "Map" -> Obj(<<<<Key("key_type"), <<"s", q[3]>>>>, <<Key("value_type"), <<"s", q[4]>>>>,
              <<Key("key_struct_type"), JType(q[5])>>, <<Key("value_struct_type"), JType(q[6])>>,
              <<Key("value"), <<"a", FMap(q[7], LAMBDA e :
                   <<"o", <<<<Key("key"), JN(e[1], path \o ".Key", sel)>>,
                            <<Key("value"), JN(e[2], path \o ".Value", sel)>>>>>>)>>>>>>)

\* the export of a (lowered) document with the structures at the paths in sel decoded
Export(d, sel) ==
  <<"o", <<<<Key("header"), JN(d[1], "", sel)>>, <<Key("properties"), <<"O", JProps(d[2], "", sel)>>>>,
           <<Key("trailer"), <<"B", d[3]>>>>>>>>

\* non-finite floats turned into null
NonFinite(prim, b) == IF prim = "f32" THEN b[4] % 128 = 127 /\ b[3] >= 128
                      ELSE b[8] % 128 = 127 /\ b[7] >= 240
RECURSIVE Nulled(_)
Nulled(j) ==
  CASE j[1] = "f" -> IF NonFinite(j[2], j[3]) THEN <<"n">> ELSE j
    [] j[1] \in {"o", "O"} -> <<j[1], FMap(j[2], LAMBDA m : <<m[1], Nulled(m[2])>>)>>
    [] j[1] = "a" -> <<"a", FMap(j[2], Nulled)>>
    [] OTHER -> j
===============================================================================
