---------------------------------- MODULE Docs ----------------------------------
(***************************************************************************)
(* The life of a document as a state machine: it starts as one of the      *)
(* documents of a suite and is edited, one point at a time.  Every state   *)
(* is a well-formed save; the invariants are the theorems the converter    *)
(* relies on, and Emit hands the state (stored form and export) to the     *)
(* conformance harness, which drives the real code with it.                *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS SUITE,      \* which family of documents
          K,          \* number of edits
          RANDOM,     \* edits drawn at random (simulation) instead of all of them
          TEXTS,      \* "all" or "short": text values used by the edits;
                      \* "grow": the edits set lengths instead
          MODE        \* what is handed over (see the end of the module)
VARIABLES st, k
vars == <<st, k>>

(***************************************************************************)
(* A state: header, embedded parts <<kind, <<<<context, node>>, ...>>>>,   *)
(* further top-level properties, trailer, hints ("pal" or a table).        *)
(***************************************************************************)
Cell(h, parts, top, trl, hints) == <<h, parts, top, trl, hints>>
StdTrailer == Zeros(4)
OfParts(parts) == Cell(HeaderNode(WorldClass), parts, <<>>, StdTrailer, <<"pal">>)
Single(kind, ctx, node) == OfParts(<<<<kind, <<<<ctx, node>>>>>>>>)
OptionClass == U("/Script/Pal.PalWorldOptionSaveGame")
OfTop(top) == Cell(HeaderNode(OptionClass), <<>>, top, StdTrailer, <<"pal">>)
OfTopH(top, hints) == Cell(HeaderNode(OptionClass), <<>>, top, StdTrailer, hints)

DocOf(s) == <<s[1],
              (IF s[2] = <<>> THEN <<>>
               ELSE <<StructP("worldSaveData", "PalWorldSaveData",
                        FoldLeft(LAMBDA acc, p : acc \o EmbedProps(p[1], p[2]), <<>>, s[2]))>>) \o s[3],
              s[4]>>
HintsOf(s) == IF s[5][1] = "pal" THEN PalHints
              ELSE [x \in {s[5][i][1] : i \in 2..Len(s[5])} |->
                      s[5][CHOOSE i \in 2..Len(s[5]) : s[5][i][1] = x][2]]
SelOf(s) == IF s[5][1] = "pal" THEN CustomPaths ELSE {}

\* layout by which an entry is edited; raw entries ("z") have none
ItemG(body, t) == Rec(<<<<"id", ItemHeadG>>, TypeConst(t), <<"", body>>>>)
EditG(kind, ctx, node) ==
  IF node[1] = "z" THEN <<"none">>
  ELSE IF kind = "dynamic_item"
  THEN LET t == node[2][2][2][2][2] IN
       ItemG(IF t = "egg" THEN EggG ELSE IF t = "armor" THEN ArmorG
             ELSE IF t = "weapon" THEN WeaponG ELSE Rec(<<<<"trailer", <<"rest">>>>>>), t)
  ELSE LayoutOf(kind, ctx)

(***************************************************************************)
(* Contexts.                                                               *)
(***************************************************************************)
uNeutral == U("EPalGroupType::Neutral")
GroupTypes == <<uGuild, uIndie, uOrg, uNeutral, U("EPalGroupType::Undefined")>>
WorkTypes == <<uProgress, uDefense, uRevive, uAssign, U("EPalWorkableType::Repair"),
   U("EPalWorkableType::TransportItemInBaseCamp"), U("EPalWorkableType::LevelObject"),
   U("EPalWorkableType::BootUp"), U("EPalWorkableType::OnlyJoin"),
   U("EPalWorkableType::OnlyJoinAndWalkAround"), U("EPalWorkableType::RemoveMapObjectEffect"),
   U("EPalWorkableType::MonsterFarm")>>
NoOpSeq == <<U("EPalBaseCampModuleType::Energy"), U("EPalBaseCampModuleType::Medical"),
   U("EPalBaseCampModuleType::ResourceCollector"), U("EPalBaseCampModuleType::ItemStorages"),
   U("EPalBaseCampModuleType::FacilityReservation"), U("EPalBaseCampModuleType::ObjectMaintenance")>>
MapModTypes == <<uModItem, uModChar, uModWorkee, uModSwitch, uModLock>>
Classes == Tup([i \in 1..Len(ClassTable) |-> ClassTable[i][1]])
LayoutRows == SelectSeq(ClassTable, LAMBDA r : r[1] # NoLayoutClass)
\* a name of the i-th class with a layout
NameOfRow(r) == U(r[2][1])
Idx(n) == Tup([i \in 1..n |-> i])
MapSeq(s, F(_)) == FMap(s, F)
Concat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
DefOf(kind, ctx) == Default(LayoutOf(kind, ctx))
DefOfK(kind, ctx, n) == Def(LayoutOf(kind, ctx), n)[1]
DefItem(t, n) == Def(ItemG(IF t = "egg" THEN EggG ELSE IF t = "armor" THEN ArmorG ELSE WeaponG, t), n)[1]
ItemTypes == <<"egg", "armor", "weapon">>
SingleDef(kind, ctx) == Single(kind, ctx, DefOf(kind, ctx))

(***************************************************************************)
(* Generic documents.                                                      *)
(***************************************************************************)
IntN(n) == <<"i", "i32", LE(n, 4)>>
VecN(n) == Def(VectorG, n)[1]
AllLeafProps == <<
  IntP("AnInt", 5), Prop("AnInt64", <<"Int64", NoId, <<"i", "i64", DefInt(8, 2)>>>>),
  Prop("AFixed", <<"Fixed64", NoId, <<"i", "i32", DefInt(4, 3)>>>>),
  Prop("AFloat", <<"Float", NoId, <<"f", "f32", DefF("f32", 4)>>>>),
  Prop("AStr", <<"Str", NoId, <<"s", U("text")>>>>), NameP("AName", U("name")),
  EnumP("AnEnum", "EType", U("EType::A")), Prop("ABool", <<"Bool", NoId, 1>>)>>
NativeStructs == <<
  Prop("AVector", <<"Struct", NoId, uVector, Zeros(16), VecN(1)>>),
  Prop("AQuat", <<"Struct", NoId, uQuat, Zeros(16), Def(QuatG, 4)[1]>>),
  Prop("ADateTime", <<"Struct", NoId, uDateTime, DefBytes(16, 4), <<"i", "u64", DefInt(8, 5)>>>>),
  Prop("AGuid", <<"Struct", NoId, uGuid, Zeros(16), <<"g", DefBytes(16, 6)>>>>),
  Prop("AColor", <<"Struct", NoId, uLinearColor, Zeros(16), Def(ColorG, 7)[1]>>)>>
ArrayProps == <<
  Prop("Enums", <<"ArrV", NoId, uEnumProperty, <<<<"s", U("E::A")>>, <<"s", U("E::B")>>>>>>),
  Prop("Names", <<"ArrV", NoId, uNameProperty, <<<<"s", U("n1")>>, <<"s", U("n2")>>, <<"s", U("n1")>>>>>>),
  Prop("GuidArr", <<"ArrV", NoId, uGuid, <<<<"g", DefBytes(16, 1)>>, <<"g", DefBytes(16, 2)>>>>>>),
  Prop("Bytes", <<"ArrB", NoId, <<1, 2, 255, 0, 128>>>>)>>
StructArrays(dummy) == <<
  Prop("SVecs", <<"ArrS", NoId, U("SVecs"), uStructProperty, uVector, Zeros(16), <<VecN(1), VecN(4)>>>>),
  Prop("SGuids", <<"ArrS", NoId, U("Other"), uStructProperty, uGuid, DefBytes(16, 8), <<<<"g", DefBytes(16, 1)>>, <<"g", DefBytes(16, 2)>>>>>>),
  Prop("SDates", <<"ArrS", NoId, U("SDates"), uStructProperty, uDateTime, Zeros(16), <<<<"i", "u64", DefInt(8, 5)>>, <<"i", "u64", DefInt(8, 6)>>>>>>),
  Prop("SQuats", <<"ArrS", NoId, U("SQuats"), uStructProperty, uQuat, Zeros(16), <<Def(QuatG, 1)[1]>>>>),
  Prop("SColors", <<"ArrS", NoId, U("SColors"), uStructProperty, uLinearColor, Zeros(16), <<Def(ColorG, 1)[1], Def(ColorG, 5)[1]>>>>),
  Prop("SProps", <<"ArrS", NoId, U("SProps"), uStructProperty, U("SomeStruct"), Zeros(16),
      <<P(<<IntP("A", 1), Prop("B", <<"Bool", NoId, 0>>)>>), P(<<>>), P(<<Prop("C", <<"Str", NoId, <<"s", <<>>>>>>)>>)>>>>)>>
Inner(d) == StructP("Deep", "Deep" \o ToString(d), <<IntP("D", d)>>)
RECURSIVE Nest(_)
Nest(d) == IF d = 0 THEN StructP("N0", "S0", <<IntP("D", 0)>>)
           ELSE StructP("N" \o ToString(d), "S" \o ToString(d), <<IntP("D", d), Nest(d - 1), Prop("E", <<"Bool", NoId, 1>>)>>)
\* a struct inside an array inside a struct inside a map
NestedMix(dummy) == StructP("Outer", "OuterType", <<
   ArrS("List", "ElemType", <<P(<<Nest(1), Prop("M", <<"Map", NoId, uNameProperty, uStructProperty, <<>>, uStructProperty,
        <<<<<<"s", U("k1")>>, P(<<Prop("L2", <<"ArrS", NoId, U("L2"), uStructProperty, uVector, Zeros(16), <<VecN(2)>>>>)>>)>>,
          <<<<"s", U("k2")>>, P(<<>>)>>>>>>)>>), P(<<IntP("Z", 9)>>)>>),
   IntP("After", 3)>>)
KeyOf == <<<<"StructProperty", uGuid>>, <<"EnumProperty", <<>>>>, <<"NameProperty", <<>>>>, <<"IntProperty", <<>>>>, <<"BoolProperty", <<>>>>>>
ValOf == <<<<"StructProperty", uStructProperty>>, <<"EnumProperty", <<>>>>, <<"NameProperty", <<>>>>, <<"IntProperty", <<>>>>, <<"BoolProperty", <<>>>>>>
SmallP(n) == P(<<IntP("V", n), Prop("W", <<"Bool", NoId, n % 2>>)>>)
DefE(g, n) == IF g = <<"P">> THEN SmallP(n) ELSE Def(g, n)[1]
MapOf(kt, kst, vt, vst, n) ==
  <<"Map", NoId, U(kt), U(vt), kst, vst,
    Tup([i \in 1..n |-> <<DefE(MapElemG(U(kt), kst), 2 * i), DefE(MapElemG(U(vt), vst), 2 * i + 1)>>])>>
MapCells(dummy) == Concat(MapSeq(KeyOf, LAMBDA a : Concat(MapSeq(ValOf, LAMBDA b :
   <<OfTop(<<Prop("M", MapOf(a[1], a[2], b[1], b[2], 2)), IntP("After", 1)>>),
     OfTop(<<Prop("M", MapOf(a[1], a[2], b[1], b[2], 0))>>)>>))))
\* hints of the caller: every native struct type as key and as value
HintTypes == <<uVector, uQuat, uDateTime, uGuid, uLinearColor, uStructProperty, U("Anything")>>
HintCells(dummy) == Concat(MapSeq(HintTypes, LAMBDA a : MapSeq(HintTypes, LAMBDA b :
   OfTopH(<<StructP("S", "T", <<Prop("M", MapOf("StructProperty", a, "StructProperty", b, 2))>>), IntP("After", 1)>>,
          <<"own", <<".S.M.Key", a>>, <<".S.M.Value", b>>, <<".M.Key", uQuat>>>>))))
          \o MapSeq(HintTypes, LAMBDA a : OfTopH(<<StructP("S", "T", <<Prop("M", MapOf("StructProperty", uGuid, "StructProperty", uStructProperty, 2))>>)>>,
                <<"own", <<".S.M", a>>, <<".M.Key", a>>>>))
\* the save's own maps of structures that are not decoded: spawners, enemy camps, dungeons
ItemMapV == P(<<NameP("ItemId", U("Wood")), IntP("Num", 3)>>)
Spawner(dummy) == <<MapSS("MapObjectSpawnerInStageSaveData", uStructProperty, uStructProperty,
   <<<<P(<<GuidP("StageId", 3), Prop("Valid", <<"Bool", NoId, 1>>)>>),
       P(<<Prop("SpawnerDataMapByLevelObjectInstanceId", <<"Map", NoId, uStructProperty, uStructProperty, uGuid, uStructProperty,
          <<<<<<"g", DefBytes(16, 5)>>, P(<<Prop("ItemMap", <<"Map", NoId, uIntProperty, uStructProperty, <<>>, uStructProperty,
              <<<<IntN(0), ItemMapV>>, <<IntN(1), ItemMapV>>>>>>)>>)>>,
            <<<<"g", DefBytes(16, 6)>>, P(<<>>)>>>>>>)>>)>>>>),
   StructP("EnemyCampSaveData", "PalEnemyCampSaveData", <<Prop("EnemyCampStatusMap",
      <<"Map", NoId, uNameProperty, uStructProperty, <<>>, uStructProperty, <<<<<<"s", U("Camp1")>>, SmallP(4)>>>>>>)>>)>>
\* the map objects of dungeons stay as they are: only the world's own are decoded
Dungeon(dummy) == <<ArrS("DungeonSaveData", "PalDungeonSaveData", <<P(<<NameP("Name", U("D1")),
     ArrS("MapObjectSaveData", "PalMapObjectSaveData",
        <<MapObj(1, uChest, DefModel, DefConnector, DefBp, DefConc, DefMods)>>)>>)>>)>>
GenericCells(dummy) == <<OfTop(AllLeafProps), OfTop(NativeStructs), OfTop(ArrayProps), OfTop(StructArrays(0)),
                  OfTop(<<NestedMix(0)>>), OfTop(<<>>), OfTop(<<Nest(12), Nest(3)>>),
                  OfTop(<<StructP("worldSaveData", "PalWorldSaveData", Spawner(0))>>),
                  OfTop(<<StructP("worldSaveData", "PalWorldSaveData", Dungeon(0))>>)>>
\* The structures' own properties somewhere else than where the game has them: in another
\* struct, a level higher or deeper, or under a name that is not quite theirs.  What is
\* read without hints still (theorem) is exported like any other property.
Decamel(u) == [u EXCEPT ![1] = LowerU(<<u[1]>>)[1]]
RenameTop(ps, f(_)) == FMap(ps, LAMBDA q : <<f(q[1]), q[2]>>)
RECURSIVE RenameN(_, _), RenameP(_, _)
Renames(how, u) == IF u # U("RawData") THEN u ELSE U(CASE how = "lower" -> "rawdata" [] how = "upper" -> "RAWDATA" [] how = "more" -> "RawData2" [] OTHER -> "MyRawData")
RenameProps(ps, how) == FMap(ps, LAMBDA q : <<Renames(how, q[1]), RenameP(q[2], how)>>)
RenameN(n, how) == IF n[1] = "P" THEN <<"P", RenameProps(n[2], how)>> ELSE n
RenameP(q, how) ==
  CASE q[1] = "Struct" -> <<q[1], q[2], q[3], q[4], RenameN(q[5], how)>>
    [] q[1] = "ArrS" -> <<q[1], q[2], q[3], q[4], q[5], q[6], FMap(q[7], LAMBDA x : RenameN(x, how))>>
    [] q[1] = "Map" -> <<q[1], q[2], q[3], q[4], q[5], q[6], FMap(q[7], LAMBDA e : <<RenameN(e[1], how), RenameN(e[2], how)>>)>>
    [] OTHER -> q
WorldS(ps) == StructP("worldSaveData", "PalWorldSaveData", ps)
\* (these have a place of their own in the table of structures; of the others, the whole map or array has)
OwnPlace == {"character", "item_container", "item_slot", "character_slot", "dynamic_item", "foliage_instance", "base_camp"}
Misplaced(kd, ps) ==
  <<ps, <<StructP("WorldSaveData", "PalWorldSaveData", ps)>>, <<StructP("worldsavedata", "PalWorldSaveData", ps)>>,
    <<StructP("worldSaveData2", "PalWorldSaveData", ps)>>, <<StructP("Other", "PalWorldSaveData", <<WorldS(ps)>>)>>, <<WorldS(<<WorldS(ps)>>)>>,
    <<WorldS(<<StructP("Other", "T", ps)>>)>>,
    <<WorldS(RenameTop(ps, LowerU))>>, <<WorldS(RenameTop(ps, UpperU))>>, <<WorldS(RenameTop(ps, Decamel))>>,
    <<WorldS(RenameTop(ps, LAMBDA u : u \o U("2")))>>, <<WorldS(RenameTop(ps, LAMBDA u : U("My") \o u))>>>>
  \o MapSeq(IF kd \in OwnPlace THEN <<"lower", "upper", "more", "my">> ELSE <<>>, LAMBDA how : <<WorldS(RenameProps(ps, how))>>)
KindCtx == <<<<"group", uGuild>>, <<"character", <<>>>>, <<"item_container", <<>>>>, <<"item_slot", <<>>>>, <<"character_slot", <<>>>>,
             <<"dynamic_item", <<>>>>, <<"foliage_instance", <<>>>>, <<"base_camp", <<>>>>, <<"camp_module", uTransport>>,
             <<"work", uProgress>>, <<"work_assign", <<>>>>, <<"concrete", uChest>>, <<"map_module", uModItem>>>>
DefKind(kd, ctx) == IF kd = "dynamic_item" THEN DefItem("egg", 1) ELSE DefOf(kd, ctx)
ReadsPlain(s) == LET d == DocOf(s) IN DecDoc(HintsOf(s), EncDoc(d)) = <<1, LowerDoc(d)>>
DecoyCells(dummy) == SelectSeq(Concat(MapSeq(KindCtx, LAMBDA kc :
     MapSeq(Misplaced(kc[1], EmbedProps(kc[1], <<<<kc[2], DefKind(kc[1], kc[2])>>>>)), LAMBDA ps : OfTop(ps)))), ReadsPlain)
RepeatTo(n, F(_)) == Tup([i \in 1..n |-> F(i)])
BigCells(dummy) == <<
  OfTop(<<Prop("Names", <<"ArrV", NoId, uNameProperty, RepeatTo(300, LAMBDA i : <<"s", DefText(i)>>)>>)>>),
  OfTop(<<Prop("SVecs", <<"ArrS", NoId, U("SVecs"), uStructProperty, uVector, Zeros(16), RepeatTo(258, LAMBDA i : VecN(i))>>)>>),
  OfTop(<<Prop("M", MapOf("IntProperty", <<>>, "StructProperty", uStructProperty, 300))>>),
  OfTop(RepeatTo(300, LAMBDA i : IntP("P" \o ToString(i), i))),
  OfTop(<<Prop("T", <<"Str", NoId, <<"s", Reps(120, 70000)>>>>)>>),
  OfTop(<<Prop("T", <<"Str", NoId, <<"s", Reps(8364, 33000)>>>>)>>),
  OfTop(<<Prop("Bytes", <<"ArrB", NoId, Tup([i \in 1..70000 |-> (i * 7) % 256])>>)>>),
  OfTop(<<Nest(40)>>), OfTop(<<Nest(70), Nest(1)>>),
  Single("group", uGuild, [DefOf("group", uGuild) EXCEPT ![2][4][2] = <<"a", RepeatTo(257, LAMBDA i : Def(HandleG, i)[1])>>]),
  OfParts(<<<<"character_slot", RepeatTo(300, LAMBDA i : <<<<>>, DefOfK("character_slot", <<>>, i)>>)>>>>)>>
\* counts around the limits somebody might have thought of
CountCells(n) == <<
  OfTop(<<Prop("Names", <<"ArrV", NoId, uNameProperty, RepeatTo(n, LAMBDA i : <<"s", DefText(i % 7)>>)>>)>>),
  OfTop(<<Prop("SVecs", <<"ArrS", NoId, U("SVecs"), uStructProperty, uVector, Zeros(16), RepeatTo(n, LAMBDA i : VecN(i % 50))>>)>>),
  OfTop(<<Prop("Guids", <<"ArrV", NoId, uGuid, RepeatTo(n, LAMBDA i : <<"g", DefBytes(16, i % 99)>>)>>)>>),
  OfTop(<<Prop("M", <<"Map", NoId, uIntProperty, uBoolProperty, <<>>, <<>>, RepeatTo(n, LAMBDA i : <<IntKey(i), <<"b8", i % 2>>>>)>>)>>),
  OfTop(<<Prop("Bytes", <<"ArrB", NoId, Tup([i \in 1..n |-> (i * 7) % 256])>>)>>),
  Single("group", uGuild, [DefOf("group", uGuild) EXCEPT ![2][4][2] = <<"a", RepeatTo(n, LAMBDA i : Def(HandleG, i % 9)[1])>>])>>
\* headers and trailers
HeaderCells(dummy) == LET ms == Muts(HeaderG, HeaderNode(OptionClass), Texts)
                   ok == SelectSeq(ms, LAMBDA h : HeaderAccepted(h))
               IN MapSeq(ok, LAMBDA h : Cell(h, <<>>, <<IntP("A", 1)>>, StdTrailer, <<"pal">>))
                  \o MapSeq(<<<<>>, <<0>>, Zeros(3), Zeros(5), <<1, 2, 3, 255>>, Reps(255, 7), DefBytes(300, 1), NoneBytes>>,
                            LAMBDA t : Cell(HeaderNode(WorldClass), <<>>, <<IntP("A", 1)>>, t, <<"pal">>))

(***************************************************************************)
(* Map object names in several spellings.                                  *)
(***************************************************************************)
Alternate(u) == Tup([i \in 1..Len(u) |-> IF i % 2 = 1 THEN UpperU(<<u[i]>>)[1] ELSE u[i]])
AllNames(dummy) == Concat(MapSeq(LayoutRows, LAMBDA r : MapSeq(r[2], LAMBDA n : <<r[1], U(n)>>)))
NameCells(spell(_)) == MapSeq(AllNames(0), LAMBDA x : Single("concrete", spell(x[2]), Default(ConcreteG(x[1]))))

(***************************************************************************)
(* Data of unknown kind.                                                   *)
(***************************************************************************)
Raw(b) == <<"z", b>>
RawBytes == <<<<>>, <<0>>, <<255>>, <<1, 0, 0, 0>>, Zeros(40), DefBytes(50, 3), DefBytes(300, 5), NoneBytes>>
UnknownNames == <<U("BrandNew_Object"), <<>>, U("itemchest_"), U("xitemchest"), <<22269, 22283>>, U("DefenseMinigun"), U("Trap_MineAttack"), U("trap_leghold"),
                  U("item chest"), U("palmapobjectitemchestmodel")>>
Between(kind, a, ctx, raw) == OfParts(<<<<kind, <<<<a, DefOf(kind, a)>>, <<ctx, Raw(raw)>>, <<a, DefOfK(kind, a, 30)>>>>>>>>)
\* one byte set to something no text holds, and the data kept raw for it
Spoilt(b, v) == Tup([i \in 1..Len(b) |-> [b EXCEPT ![i] = v]])
KeptRaw(kd, ctx, b) == LET r == DecBlob(kd, ctx, PalHints, b) IN OkP(r) /\ r[2][1] = "vals"
KeptTrailer(b) == LET r == DecBlob("dynamic_item", <<>>, PalHints, b) IN OkP(r) /\ r[2][2][2][2][2][2] \notin {"egg", "armor", "weapon"}
Cuts(b) == Tup([i \in 1..Len(b) |-> SubSeq(b, 1, i - 1)])
UnkConcrete(dummy) == Concat(MapSeq(UnknownNames, LAMBDA n : MapSeq(RawBytes \o <<Enc(DefConc)>>, LAMBDA b : Between("concrete", uChest, n,
                  IF ClassOf(n) = NoLayoutClass /\ b # <<>> /\ Len(b) < 32 THEN b \o DefBytes(32, 7) ELSE b))))
               \o MapSeq(<<uChest, U("Torch"), U("PalBoxV2"), U("hatchingpalegg")>>, LAMBDA n : Between("concrete", uChest, n, <<>>))
UnkModule(dummy) ==
  LET tr == Enc(Default(TransportG))
      pa == Enc(Default(PassiveG))
      Mod(t, b) == OfParts(<<<<"camp_module", <<<<U("EPalBaseCampModuleType::Energy"), Raw(<<>>)>>, <<t, Raw(b)>>,
                               <<IF t = uTransport THEN uPassive ELSE uTransport, IF t = uTransport THEN Default(PassiveG) ELSE Default(TransportG)>>>>>>>>)
  IN Concat(MapSeq(<<U("EPalBaseCampModuleType::BrandNew"), <<>>, U("Energy"), <<26032>>, U("epalbasecampmoduletype::energy"), U("EPalBaseCampModuleType::None")>>,
              LAMBDA t : MapSeq(RawBytes \o <<tr>>, LAMBDA b : Mod(t, b))))
     \o Concat(MapSeq(NoOpSeq, LAMBDA t : MapSeq(Tail(RawBytes), LAMBDA b : OfParts(<<<<"camp_module", <<<<t, Raw(b)>>, <<uTransport, Default(TransportG)>>>>>>>>))))
     \o MapSeq(Cuts(tr) \o <<tr \o <<0>>, tr \o Zeros(4), tr \o <<255, 1, 2>>>>, LAMBDA b : Mod(uTransport, b))
     \o MapSeq(SelectSeq(Spoilt(tr, 255) \o Spoilt(tr, 128), LAMBDA b : KeptRaw("camp_module", uTransport, b)), LAMBDA b : Mod(uTransport, b))
     \o MapSeq(SelectSeq(Spoilt(pa, 255), LAMBDA b : KeptRaw("camp_module", uPassive, b)), LAMBDA b : Mod(uPassive, b))
     \o MapSeq(Cuts(pa) \o <<pa \o <<0>>, pa \o Zeros(4), pa \o <<255, 1, 2>>, <<1, 0, 0, 0, 3>>, <<1, 0, 0, 0, 3, 1, 2, 3, 4, 5>>,
               <<1, 0, 0, 0, 255, 0>>, <<2, 0, 0, 0, 0, 7>>>>, LAMBDA b : Mod(uPassive, b))
UnkWork(dummy) ==
  Concat(MapSeq(<<U("EPalWorkableType::BrandNew"), <<>>, U("Progress"), <<233>>, U("epalworkabletype::progress"), U("EPalWorkableType::Illegal")>>,
     LAMBDA t : MapSeq(RawBytes \o <<Enc(DefWork)>>, LAMBDA b : Between("work", uDefense, t, b))))
UnkTransform(dummy) ==
  LET D(t) == LET d == DefOf("work", t)
                  n == Len(d[2])
                  Tr(x, b) == <<"r", <<<<"type", <<"i", "u8", <<x>>>>>>, <<"", <<"r", <<V2, <<"raw_data", Raw(b)>>>>>>>>>>>>
                  one(x, b) == OfParts(<<<<"work", <<<<t, [d EXCEPT ![2][n] = <<"transform", Tr(x, b)>>]>>, <<uDefense, DefWork>>>>>>>>)
              IN Concat(MapSeq(<<0, 4, 5, 128, 255>>, LAMBDA x : MapSeq(RawBytes, LAMBDA b : one(x, b))))
  IN D(uProgress) \o D(uAssign) \o D(U("EPalWorkableType::LevelObject"))
UnkItem(dummy) ==
  LET hd == Enc(Default(ItemHeadG))
      A == DefItem("armor", 3)
      E == DefItem("egg", 3)
      W1 == DefItem("weapon", 3)
      wb == Enc(Default(WeaponG))
      eb == Enc(Default(EggG))
      It(b) == OfParts(<<<<"dynamic_item", <<<<<<>>, E>>, <<<<>>, Raw(b)>>, <<<<>>, A>>, <<<<>>, Raw(<<>>)>>, <<<<>>, W1>>>>>>>>)
  IN MapSeq(RawBytes \o <<Zeros(3), Zeros(5), Reps(255, 8), wb \o <<0>>, wb \o <<1, 2>>, SubSeq(wb, 1, 7), SubSeq(wb, 1, 11)>>
            \o MapSeq(<<5, 9, 12>>, LAMBDA n : SubSeq(wb, 1, n)), LAMBDA b : It(hd \o b))
     \o MapSeq(Cuts(eb), LAMBDA b : It(hd \o b))
     \o MapSeq(SelectSeq(Spoilt(wb, 255) \o Spoilt(eb, 255), LAMBDA b : KeptTrailer(hd \o b)), LAMBDA b : It(hd \o b))
     \o <<It(<<>>)>>
Empties(dummy) ==
  <<OfParts(<<<<"item_container", <<<<<<>>, Raw(<<>>)>>, <<<<>>, DefOf("item_container", <<>>)>>, <<<<>>, Raw(<<>>)>>>>>>>>),
    OfParts(<<<<"item_slot", <<<<<<>>, Raw(<<>>)>>, <<<<>>, DefOf("item_slot", <<>>)>>>>>>>>),
    OfParts(<<<<"character_slot", <<<<<<>>, Raw(<<>>)>>, <<<<>>, DefOf("character_slot", <<>>)>>>>>>>>),
    OfParts(<<<<"dynamic_item", <<<<<<>>, Raw(<<>>)>>, <<<<>>, DefItem("armor", 3)>>>>>>>>),
    OfParts(<<<<"connector", <<<<<<>>, Raw(<<>>)>>, <<<<>>, DefConnector>>>>>>>>)>>
  \o MapSeq(MapModTypes \o <<ModT("BrandNew"), <<>>>>, LAMBDA t : OfParts(<<<<"map_module", <<<<t, Raw(<<>>)>>, <<uModWorkee, DefOf("map_module", uModWorkee)>>>>>>>>))
  \o MapSeq(NoOpSeq, LAMBDA t : OfParts(<<<<"camp_module", <<<<t, Raw(<<>>)>>, <<uPassive, Default(PassiveG)>>>>>>>>))

(***************************************************************************)
(* Several structures side by side.                                        *)
(***************************************************************************)
Pairs(kind, cs) == Concat(MapSeq(cs, LAMBDA a : MapSeq(cs, LAMBDA b :
    OfParts(<<<<kind, <<<<a, DefOf(kind, a)>>, <<b, DefOfK(kind, b, 25)>>>>>>>>))))
DistinctPairs(kind, cs) == Concat(MapSeq(Idx(Len(cs)), LAMBDA i : MapSeq(SelectSeq(Idx(Len(cs)), LAMBDA j : j # i), LAMBDA j :
    OfParts(<<<<kind, <<<<cs[i], DefOf(kind, cs[i])>>, <<cs[j], DefOfK(kind, cs[j], 25)>>>>>>>>))))
ItemPairs(dummy) == Concat(MapSeq(ItemTypes, LAMBDA a : MapSeq(ItemTypes, LAMBDA b :
    OfParts(<<<<"dynamic_item", <<<<<<>>, DefItem(a, 1)>>, <<<<>>, DefItem(b, 9)>>>>>>>>))))
\* many structures of a kind side by side
Kinds == <<<<"group", GroupTypes>>, <<"work", WorkTypes>>, <<"concrete", MapSeq(LayoutRows, LAMBDA r : NameOfRow(r))>>>>
         \o MapSeq(<<"character", "item_container", "item_slot", "character_slot", "foliage_model", "foliage_instance", "base_camp",
                    "worker_director", "work_collection", "work_assign", "map_model", "connector", "build_process">>, LAMBDA x : <<x, <<<<>>>>>>)
Turn(cs, i) == cs[1 + ((i * 5) % Len(cs))]
ManyCells(ns) == Concat(MapSeq(ns, LAMBDA n :
     MapSeq(Kinds, LAMBDA kd : OfParts(<<<<kd[1], Tup([i \in 1..n |-> <<Turn(kd[2], i + n), DefOfK(kd[1], Turn(kd[2], i + n), 5 * i + n)>>])>>>>))
     \o <<OfParts(<<<<"dynamic_item", Tup([i \in 1..n |-> <<<<>>, DefItem(Turn(ItemTypes, i + n), 5 * i + n)>>])>>>>)>>))
AllParts(n) ==
  <<<<"group", MapSeq(GroupTypes, LAMBDA t : <<t, DefOfK("group", t, n)>>)>>,
    <<"character", <<<<<<>>, DefOfK("character", <<>>, n)>>, <<<<>>, DefOfK("character", <<>>, n + 7)>>>>>>,
    <<"item_slot", <<<<<<>>, DefOfK("item_slot", <<>>, n)>>, <<<<>>, Raw(<<>>)>>>>>>,
    <<"character_slot", <<<<<<>>, DefOfK("character_slot", <<>>, n)>>>>>>,
    <<"dynamic_item", <<<<<<>>, DefItem("egg", n)>>, <<<<>>, DefItem("armor", n)>>, <<<<>>, DefItem("weapon", n)>>>>>>,
    <<"foliage_instance", <<<<<<>>, DefOfK("foliage_instance", <<>>, n)>>, <<<<>>, DefOfK("foliage_instance", <<>>, n + 4)>>>>>>,
    <<"camp_module", <<<<uTransport, Default(TransportG)>>, <<uPassive, Default(PassiveG)>>, <<NoOpSeq[1], Raw(<<>>)>>,
                       <<U("EPalBaseCampModuleType::New"), Raw(<<1, 2, 3>>)>>>>>>,
    <<"work", MapSeq(WorkTypes, LAMBDA t : <<t, DefOfK("work", t, n)>>)>>,
    <<"concrete", MapSeq(SubSeq(LayoutRows, 1, 8), LAMBDA r : <<NameOfRow(r), Def(ConcreteG(r[1]), n)[1]>>)
                   \o <<<<U("NewThing"), Raw(<<5, 6>>)>>>>>> >>
OnePartEach(dummy) == MapSeq(AllParts(3), LAMBDA p : OfParts(<<p>>))

(***************************************************************************)
(* Documents of every save game class the converter tells apart.           *)
(***************************************************************************)
OfClass(cls, top) == Cell(HeaderNode(U(cls)), <<>>, top, StdTrailer, <<"pal">>)
NanTop == <<Prop("F1", <<"Float", NoId, <<"f", "f32", HX("0000807f")>>>>), Prop("F2", <<"Float", NoId, <<"f", "f32", HX("0000c07f")>>>>),
            Prop("F3", <<"Float", NoId, <<"f", "f32", HX("000080ff")>>>>), Prop("F4", <<"Float", NoId, <<"f", "f32", HX("0000803f")>>>>),
            Prop("V", <<"Struct", NoId, uVector, Zeros(16), <<"r", <<<<"x", <<"f", "f64", HX("000000000000f07f")>>>>, <<"y", <<"f", "f64", Zeros(8)>>>>,
                        <<"z", <<"f", "f64", HX("000000000000f0ff")>>>>>>>>>>)>>
CliCells(dummy) ==
  <<OfClass("/Script/Pal.PalWorldOptionSaveGame", AllLeafProps),
    OfParts(<<<<"group", <<<<uGuild, DefOf("group", uGuild)>>>>>>, <<"item_slot", <<<<<<>>, DefOf("item_slot", <<>>)>>>>>>,
              <<"work", <<<<uProgress, DefOf("work", uProgress)>>>>>>>>),
    OfClass("/Script/Pal.PalLocalWorldSaveGame", ArrayProps), OfClass("/Script/Pal.PalWorldPlayerSaveGame", NativeStructs),
    OfClass("/Script/Pal.PalWorldBaseInfoSaveGame", <<IntP("A", 7), Prop("T", <<"Str", NoId, <<"s", <<12354, 55357, 56832, 55357, 10, 34>>>>>>)>>),
    OfClass("/Script/Pal.PalGlobalPalStorageSaveGame", <<>>),
    OfClass("/Script/Pal.PalWorldSaveGame", NanTop)>>

(***************************************************************************)
(* The suites.                                                             *)
(***************************************************************************)
Cells ==
  CASE SUITE = "camp" -> <<SingleDef("base_camp", <<>>), SingleDef("worker_director", <<>>), SingleDef("work_collection", <<>>)>>
    [] SUITE = "module" -> <<SingleDef("camp_module", uTransport), SingleDef("camp_module", uPassive)>>
                           \o MapSeq(NoOpSeq, LAMBDA t : SingleDef("camp_module", t))
    [] SUITE = "group" -> MapSeq(GroupTypes, LAMBDA t : SingleDef("group", t))
    [] SUITE = "character" -> <<SingleDef("character", <<>>)>>
    [] SUITE = "slots" -> <<SingleDef("item_container", <<>>), SingleDef("item_slot", <<>>), SingleDef("character_slot", <<>>)>>
    [] SUITE = "foliage" -> <<SingleDef("foliage_model", <<>>), SingleDef("foliage_instance", <<>>)>>
    [] SUITE = "item" -> MapSeq(ItemTypes, LAMBDA t : Single("dynamic_item", <<>>, DefItem(t, 1)))
    [] SUITE = "work1" -> MapSeq(<<uProgress, uDefense>>, LAMBDA t : SingleDef("work", t))
    [] SUITE = "work2" -> MapSeq(<<uRevive, uAssign>>, LAMBDA t : SingleDef("work", t)) \o <<SingleDef("work_assign", <<>>)>>
    [] SUITE = "work3" -> MapSeq(SubSeq(WorkTypes, 5, 8), LAMBDA t : SingleDef("work", t))
    [] SUITE = "work4" -> MapSeq(SubSeq(WorkTypes, 9, 12), LAMBDA t : SingleDef("work", t))
    [] SUITE = "workall" -> MapSeq(SubSeq(WorkTypes, 5, 12), LAMBDA t : SingleDef("work", t))
    [] SUITE = "mapobj" -> <<SingleDef("map_model", <<>>), SingleDef("connector", <<>>), SingleDef("build_process", <<>>)>>
                           \o MapSeq(MapModTypes, LAMBDA t : SingleDef("map_module", t))
    [] SUITE = "concrete" -> MapSeq(LayoutRows, LAMBDA r : SingleDef("concrete", NameOfRow(r)))
    [] SUITE = "names" -> NameCells(UpperU)
    [] SUITE = "nameslower" -> NameCells(LAMBDA u : u)
    [] SUITE = "namesmixed" -> NameCells(Alternate)
    [] SUITE = "generic" -> GenericCells(0)
    [] SUITE \in {"generic0", "generic1", "generic2"} ->   \* a third each
         LET r == CASE SUITE = "generic0" -> 0 [] SUITE = "generic1" -> 1 [] OTHER -> 2
             all == GenericCells(0)
         IN MapSeq(SelectSeq(Idx(Len(all)), LAMBDA i : i % 3 = r), LAMBDA i : all[i])
    [] SUITE = "maps" -> MapCells(0) \o HintCells(0)
    [] SUITE = "floatmaps" -> SelectSeq(HintCells(0), LAMBDA x : TRUE)
    [] SUITE = "header" -> HeaderCells(0)
    [] SUITE = "big" -> BigCells(0)
    [] SUITE = "decoys" -> DecoyCells(0)
    [] SUITE = "counts" -> CountCells(1025)
    [] SUITE = "unkmap" -> UnkConcrete(0) \o Empties(0)
    [] SUITE = "unkmodule" -> UnkModule(0)
    [] SUITE = "unkwork" -> UnkWork(0) \o UnkTransform(0)
    [] SUITE = "unkitem" -> UnkItem(0)
    [] SUITE = "pairs" -> Pairs("group", GroupTypes) \o ItemPairs(0) \o DistinctPairs("map_module", MapModTypes) \o OnePartEach(0)
    [] SUITE = "pairswork" -> Pairs("work", WorkTypes)
    [] SUITE = "many" -> ManyCells(<<3, 4, 5, 7, 9, 11, 16>>)
    [] SUITE = "manymore" -> ManyCells(Tup([i \in 1..20 |-> i + 2]) \o <<32, 33, 64, 65, 100>>)
    [] SUITE = "world" -> <<OfParts(AllParts(1)), OfParts(AllParts(40))>>
    [] SUITE = "onepart" -> OnePartEach(0)
    [] SUITE = "choose" -> OnePartEach(0)
    [] SUITE = "cli" -> CliCells(0)
    [] SUITE = "none" -> <<>>
    [] SUITE = "cutgeneric" -> <<OfTop(AllLeafProps \o NativeStructs), OfTop(ArrayProps \o StructArrays(0)), OfTop(<<NestedMix(0)>>),
             OfTop(<<StructP("worldSaveData", "PalWorldSaveData", Spawner(0))>>)>>
    [] SUITE = "cutparts" -> FMap(<<"character", "item_slot", "character_slot", "foliage_instance", "base_camp", "map_model", "work_assign">>,
                                  LAMBDA kd : SingleDef(kd, <<>>))
                             \o <<Single("group", uGuild, DefOf("group", uGuild)), Single("dynamic_item", <<>>, DefItem("egg", 1)),
                                  Single("camp_module", uTransport, DefOf("camp_module", uTransport))>>
    [] SUITE = "selworld" -> <<OfParts(AllParts(1))>> \o OnePartEach(0) \o MapSeq(<<"item_container", "foliage_model", "base_camp", "worker_director",
             "work_collection", "map_model", "connector", "build_process", "work_assign">>, LAMBDA kd : SingleDef(kd, <<>>)) \o GenericCells(0)
    [] SUITE = "sim" -> <<OfParts(AllParts(1))>> \o OnePartEach(0) \o GenericCells(0)
    [] SUITE = "simgeneric" -> GenericCells(0) \o MapCells(0)
    [] SUITE = "simstruct" -> <<OfParts(AllParts(1))>> \o OnePartEach(0)

TX == IF TEXTS = "all" THEN Texts ELSE IF TEXTS = "floats" THEN <<>> ELSE TextsShort

\* lengths to try, other than those near the default (0 to 3)
Lengths == CASE TEXTS = "grow" -> <<4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 31, 33, 64, 65, 100, 128, 129>>
             [] TEXTS = "growmore" -> Tup([i \in 1..70 |-> i + 3]) \o <<99, 100, 101, 127, 128, 129, 192, 200, 254, 255, 256, 257, 300>>
             [] TEXTS = "growfew" -> <<5, 8, 12, 33, 100>>
             [] TEXTS = "touch" -> <<0>>
             [] OTHER -> <<>>
PointEdits(g, v) == IF Lengths = <<>> THEN Muts(g, v, TX) ELSE Concat(MapSeq(Lengths, LAMBDA n : Grown(g, v, n)))
\* one point edits of a state
EditsOfEntry(s, i, j) ==
  LET e == s[2][i][2][j]
      g == EditG(s[2][i][1], e[1], e[2])
      ms == IF g[1] \in {"none", "bad"} THEN <<>> ELSE PointEdits(g, e[2])
  IN Tup([m \in 1..Len(ms) |-> [s EXCEPT ![2][i][2][j] = <<e[1], ms[m]>>]])
EditsOfTop(s) == LET ms == IF Lengths = <<>> THEN PropsMuts(s[3], TX)
                           ELSE Concat(MapSeq(Lengths, LAMBDA n : GrownProps(s[3], n))) IN Tup([m \in 1..Len(ms) |-> [s EXCEPT ![3] = ms[m]]])
EntryRefs(s) == Concat(MapSeq(Idx(Len(s[2])), LAMBDA i : MapSeq(Idx(Len(s[2][i][2])), LAMBDA j : <<i, j>>)))
Edits(s) == Concat(MapSeq(SelectSeq(EntryRefs(s), LAMBDA r : MODE # "pair" \/ r[2] = 1), LAMBDA r : EditsOfEntry(s, r[1], r[2])))
            \o (IF s[3] = <<>> THEN <<>> ELSE EditsOfTop(s))
\* structural edits in simulation: drop or duplicate an entry
DropOrDup(s) ==
  LET r == RandomElement(ToSet(EntryRefs(s)))
      es == s[2][r[1]][2]
      keyed == s[2][r[1]][1] \in {"camp_module", "map_module"}
  IN IF RandomElement({TRUE, FALSE}) \/ keyed
     THEN [s EXCEPT ![2][r[1]][2] = Without(es, r[2])]
     ELSE [s EXCEPT ![2][r[1]][2] = Append(es, es[r[2]])]
RandomEdit(s) ==
  IF EntryRefs(s) # <<>> /\ RandomElement(1..6) = 1 THEN DropOrDup(s)
  ELSE IF EntryRefs(s) # <<>> /\ (s[3] = <<>> \/ RandomElement({TRUE, FALSE}))
  THEN LET r == RandomElement(ToSet(EntryRefs(s)))
           es == EditsOfEntry(s, r[1], r[2])
       IN IF es = <<>> THEN s ELSE es[RandomElement(1..Len(es))]
  ELSE LET es == EditsOfTop(s) IN IF es = <<>> THEN s ELSE es[RandomElement(1..Len(es))]

\* A structure found by trial must not read as another one: those are not in the language.
Readable(s) == \A i \in 1..Len(s[2]) : \A j \in 1..Len(s[2][i][2]) :
   LET kd == s[2][i][1]
       e == s[2][i][2][j]
   IN kd = "dynamic_item" /\ e[2][1] # "z" => DecBlob(kd, e[1], PalHints, Enc(e[2])) = <<1, e[2]>>

Hand(x) == PrintT("VEC " \o ToJson(x))
\* two documents one edit apart
HandPair(s, t) == LET a == DocOf(s)
                      b == DocOf(t) IN
   Hand(<<SUITE, EncDoc(a), EncDoc(b), Export(LowerDoc(a), SelOf(s)), Export(LowerDoc(b), SelOf(t))>>)
\* every structure twice, so that what is changed in one is the same in the other before
Twice(s) == [s EXCEPT ![2] = Tup([i \in 1..Len(s[2]) |-> IF s[2][i][1] \in {"camp_module", "map_module"} THEN s[2][i]
                                                        ELSE <<s[2][i][1], s[2][i][2] \o s[2][i][2]>>])]
Init == /\ k = 0
        /\ st \in ToSet(IF MODE = "pair" THEN MapSeq(Cells, Twice) ELSE Cells)
Next == /\ k < K
        /\ IF RANDOM THEN st' = RandomEdit(st)
           ELSE st' \in ToSet(Edits(st))
        /\ Readable(st')
        /\ k' = k + 1
        /\ IF MODE = "pair" /\ st' # st THEN HandPair(st, st') ELSE TRUE
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Theorems.                                                               *)
(***************************************************************************)
\* structures decode to what was stored, or are kept byte for byte
Faithful(kd, e) == LET b == Enc(e[2])
                       r == DecBlob(kd, e[1], PalHints, b)
                   IN OkP(r) /\ (IF r[2][1] = "vals" THEN r[2][2] = b
                                 ELSE IF r[2][1] = "null" THEN b = <<>>
                                 ELSE Enc(r[2]) = b /\ (e[2][1] # "z" => r[2] = e[2]))
StructuresFaithful == \A i \in 1..Len(st[2]) : \A j \in 1..Len(st[2][i][2]) : Faithful(st[2][i][1], st[2][i][2][j])
\* stored form and document determine each other
RoundTrip == LET d == DocOf(st) IN DecDoc(HintsOf(st), EncDoc(d)) = <<1, LowerDoc(d)>>

(***************************************************************************)
(* Handing over.                                                           *)
(***************************************************************************)
OwnHints == IF st[5][1] = "pal" THEN <<>> ELSE Tail(st[5])

\* Exports of versions before the work transform was understood ("v2"): the ten
\* numbers of a transform named in the order location, rotation, scale.
JGet(ms, name) == LET hits == SelectSeq(ms, LAMBDA m : m[1] = Key(name)) IN hits[1][2]
Flat(j) == MapSeq(j[2], LAMBDA m : m[2])
Named(names, xs) == <<"o", Tup([i \in 1..Len(names) |-> <<Key(names[i]), xs[i]>>])>>
OldTransform(ms) ==
  LET rest == SelectSeq(ms, LAMBDA m : m[1] # Key("v2"))
      ty == JGet(ms, "type")
      x == Flat(JGet(ms, "rotation")) \o Flat(JGet(ms, "translation")) \o Flat(JGet(ms, "scale3d"))
  IN IF ty # <<"i", "u8", <<1>>>> THEN <<"o", rest>>
     ELSE <<"o", <<<<Key("type"), ty>>,
                   <<Key("location"), Named(<<"x", "y", "z">>, SubSeq(x, 1, 3))>>,
                   <<Key("rotation"), Named(<<"x", "y", "z", "w">>, SubSeq(x, 4, 7))>>,
                   <<Key("scale"), Named(<<"x", "y", "z">>, SubSeq(x, 8, 10))>>>>>>
RECURSIVE OldJ(_)
OldJ(j) ==
  CASE j[1] = "o" /\ (\E i \in 1..Len(j[2]) : j[2][i][1] = Key("v2")) -> OldTransform(j[2])
    [] j[1] \in {"o", "O"} -> <<j[1], FMap(j[2], LAMBDA m : <<m[1], OldJ(m[2])>>)>>
    [] j[1] = "a" -> <<"a", FMap(j[2], OldJ)>>
    [] OTHER -> j

\* the document that writing the nulled export gives: NaN for every non-finite number
Nan32 == HX("0000c07f")
Nan64 == HX("000000000000f87f")
NanF(prim, b) == IF NonFinite(prim, b) THEN (IF prim = "f32" THEN Nan32 ELSE Nan64) ELSE b
RECURSIVE NanN(_), NanProp(_)
NanProps(ps) == FMap(ps, LAMBDA q : <<q[1], NanProp(q[2])>>)
NanN(n) ==
  CASE n[1] = "f" -> <<"f", n[2], NanF(n[2], n[3])>>
    [] n[1] = "r" -> <<"r", FMap(n[2], LAMBDA f : <<f[1], NanN(f[2])>>)>>
    [] n[1] \in {"a", "m", "t"} -> <<n[1], FMap(n[2], NanN)>>
    [] n[1] = "o" /\ Len(n) = 2 -> <<"o", NanN(n[2])>>
    [] n[1] = "pvd" -> <<"pvd", NanF("f64", n[2]), NanF("f64", n[3]), NanF("f64", n[4])>>
    [] n[1] = "P" -> <<"P", NanProps(n[2])>>
    [] OTHER -> n
NanProp(q) ==
  CASE q[1] = "Float" -> <<q[1], q[2], NanN(q[3])>>
    [] q[1] = "Struct" -> <<q[1], q[2], q[3], q[4], NanN(q[5])>>
    [] q[1] = "Blob" -> <<q[1], q[2], NanN(q[3])>>
    [] q[1] = "ArrS" -> <<q[1], q[2], q[3], q[4], q[5], q[6], FMap(q[7], NanN)>>
    [] q[1] = "Map" -> <<q[1], q[2], q[3], q[4], q[5], q[6], FMap(q[7], LAMBDA e : <<NanN(e[1]), NanN(e[2])>>)>>
    [] OTHER -> q
NanDoc(d) == <<d[1], NanProps(d[2]), d[3]>>

\* selections worth telling apart: none, all, each alone, each left out, some at random
CustomAt == Tup([i \in 1..Len(CustomSeq) |-> CustomSeq[i][1]])
PathsOfPart(kind) ==
  CASE kind = "group" -> {1} [] kind = "character" -> {2} [] kind \in {"item_container", "item_slot"} -> {3, 4}
    [] kind = "character_slot" -> {5} [] kind = "dynamic_item" -> {6} [] kind \in {"foliage_model", "foliage_instance"} -> {7, 8}
    [] kind \in {"base_camp", "worker_director", "work_collection", "camp_module"} -> {9, 10, 11, 12}
    [] kind \in {"work", "work_assign"} -> {13} [] OTHER -> {14}
Relevant(s) == UNION {PathsOfPart(s[2][i][1]) : i \in 1..Len(s[2])}
Selections(s) ==
  LET r == Relevant(s)
      every == 1..Len(CustomAt) IN
  IF r = {} THEN {{}, every, RandomElement(SUBSET every)}
  ELSE IF Cardinality(r) <= 4 THEN SUBSET r
  ELSE {{}, r} \union {{x} : x \in r} \union {r \ {x} : x \in r} \union {RandomElement(SUBSET r) : i \in 1..8}
\* What is typed after --custom-properties, and what it selects: names apart by commas,
\* "all" first for everything.  <<>> is not giving the option.
Join(ts, sep) == FoldLeft(LAMBDA acc, i : IF i = 1 THEN ts[1] ELSE acc \o sep \o ts[i], "", Idx(Len(ts)))
Chosen(ts) == IF ts = <<>> \/ ts[1] = "all" THEN CustomPaths ELSE ToSet(ts) \cap CustomPaths
LastDot(p) == CHOOSE i \in 1..Len(p) : SubSeq(p, i, i) = "." /\ \A j \in (i + 1)..Len(p) : SubSeq(p, j, j) # "."
Near(p) == <<SubSeq(p, 1, Len(p) - 1), SubSeq(p, 2, Len(p)), SubSeq(p, 1, LastDot(p) - 1), SubSeq(p, LastDot(p), Len(p)), p \o "X", p \o ".", p \o ".Value",
             StrOf(UpperU(U(p))), SubSeq(p, LastDot(p) + 1, Len(p)), "all" \o p>>
Typed(s) ==
  LET rs == SetToSeq({CustomAt[i] : i \in Relevant(s)})
      near == Concat(MapSeq(rs, LAMBDA p : MapSeq(Near(p), LAMBDA x : <<x>>)))
      mix == Concat(MapSeq(rs, LAMBDA p : MapSeq(Near(p), LAMBDA x : <<x, rs[1]>>)))
  IN <<<<>>, <<"all">>, <<"all", rs[1]>>, <<"all", "nothing">>, <<"">>, <<"", "">>, <<"nothing">>, <<".worldSaveData">>, <<".">>, <<"ALL">>, <<"a">>, <<"*">>,
       <<rs[1], "">>, <<"", rs[1]>>, <<rs[1], rs[1]>>, <<"nothing", rs[1]>>, <<rs[1], "nothing">>>>
     \o MapSeq(rs, LAMBDA p : <<p>>) \o near \o mix
     \o Concat(MapSeq(rs, LAMBDA p : MapSeq(rs, LAMBDA q : <<p, q>>))) \o <<rs>>
TypedChoices(s) == Concat(MapSeq(Typed(s), LAMBDA ts : IF Len(ts) < 2 THEN <<<<ts, Chosen(ts)>>>>
     ELSE <<<<<<Join(ts, ",")>>, Chosen(ts)>>, <<<<Join(ts, ", ")>>, Chosen(ts)>>>>))
\* is this export a decoded one outside the selection (theorem: never)
SelExports(d) == SetToSeq({<<SetToSeq(x), Export(d, {CustomAt[i] : i \in x})>> : x \in Selections(st)})

RoundTripAndEmit ==
  LET d == DocOf(st)
      b == EncDoc(d)
      low == LowerDoc(d)
  IN /\ DecDoc(HintsOf(st), b) = <<1, low>>
     /\ CASE MODE = "std" -> Hand(<<SUITE, k, b, Export(low, SelOf(st)), OwnHints>>)
          [] MODE = "bytes" -> Hand(<<SUITE, k, b, OwnHints>>)
          [] MODE = "old" -> LET j == OldJ(Export(low, SelOf(st))) IN Hand(<<SUITE, k, b, j, OwnHints>>)
          [] MODE = "null" -> LET j == Export(low, SelOf(st))
                              IN Hand(<<SUITE, k, b, j, Nulled(j), EncDoc(NanDoc(d)), OwnHints>>)
          [] MODE = "sel" -> Hand(<<SUITE, k, b, SelExports(low)>>)
          [] MODE = "choose" -> LET cs == TypedChoices(st)
                                    sets == SetToSeq({c[2] : c \in ToSet(cs)})
                                IN Hand(<<SUITE, b, FMap(sets, LAMBDA x : Export(low, x)),
                                          FMap(cs, LAMBDA c : <<c[1], CHOOSE i \in 1..Len(sets) : sets[i] = c[2]>>)>>)
          [] MODE = "pair" -> TRUE
===============================================================================
