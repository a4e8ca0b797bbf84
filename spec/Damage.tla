---------------------------------- MODULE Damage ----------------------------------
(***************************************************************************)
(* Damaged and foreign input.  Three families:                             *)
(*   cut    a payload cut after k bytes                                    *)
(*   blob   an embedded structure cut to k bytes, or (k beyond its length) *)
(*          extended by one of several tails, declared lengths adjusted    *)
(*   foreign  wrong tags and versions, property, array and map types the   *)
(*          tool does not support                                          *)
(* Theorem: what is read at all is written back byte for byte.             *)
(***************************************************************************)
EXTENDS Docs

(***************************************************************************)
(* cut: st is a cell of the suite, k the number of bytes kept              *)
(***************************************************************************)
CutInit == st \in ToSet(Cells) /\ k = 0
CutNext == /\ k < Len(EncDoc(DocOf(st)))
           /\ k' = k + 1 /\ st' = st
CutSound == LET full == EncDoc(DocOf(st))
                b == SubSeq(full, 1, k)
                r == DecDoc(HintsOf(st), b)
            IN OkP(r) => EncDoc(r[2]) = b
CutEmit == k = 0 => Hand(<<"cut", EncDoc(DocOf(st)), OwnHints>>)

(***************************************************************************)
(* blob: st = <<kind, context, node>>                                      *)
(***************************************************************************)
Tails == <<<<0>>, <<1>>, <<255>>, <<0, 0>>, Zeros(4), <<1, 0, 0, 0>>, <<255, 255, 255, 127>>, DefBytes(5, 2), Zeros(16), Zeros(17),
           DefBytes(16, 3), NoneBytes, NoneBytes \o Zeros(20), Zeros(100)>>
PlainSeq == <<"character", "foliage_model", "foliage_instance", "base_camp", "worker_director", "work_collection",
              "work_assign", "map_model", "build_process", "item_container", "item_slot", "character_slot", "connector">>
BlobCells(part) ==
  CASE part = 1 -> FMap(PlainSeq, LAMBDA kd : <<kd, <<>>, DefOf(kd, <<>>)>>)
    [] part = 2 -> FMap(GroupTypes, LAMBDA t : <<"group", t, DefOf("group", t)>>)
                   \o FMap(ItemTypes, LAMBDA t : <<"dynamic_item", <<>>, DefItem(t, 1)>>)
                   \o FMap(<<uTransport, uPassive>>, LAMBDA t : <<"camp_module", t, DefOf("camp_module", t)>>)
                   \o FMap(MapModTypes, LAMBDA t : <<"map_module", t, DefOf("map_module", t)>>)
    [] part = 3 -> FMap(LayoutRows, LAMBDA r : <<"concrete", NameOfRow(r), Default(ConcreteG(r[1]))>>)
    [] part = 4 -> FMap(WorkTypes, LAMBDA t : <<"work", t, DefOf("work", t)>>)
BlobInit == st \in ToSet(BlobCells(K)) /\ k = 0
BlobBytes == Enc(st[3])
BlobNext == k < Len(BlobBytes) + Len(Tails) /\ k' = k + 1 /\ st' = st
Damaged == LET b == BlobBytes IN IF k <= Len(b) THEN SubSeq(b, 1, k) ELSE b \o Tails[k - Len(b)]
BlobSound == LET b == Damaged
                 r == DecBlob(st[1], st[2], PalHints, b)
             IN OkP(r) => IF r[2][1] = "vals" THEN r[2][2] = b
                          ELSE IF r[2][1] = "null" THEN b = <<>>
                          ELSE Enc(r[2]) = b
BlobEmit == LET b == Damaged
                r == DecBlob(st[1], st[2], PalHints, b)
            IN Hand(<<"blob", StrOf(U(st[1])), k, EncDoc(Embed(st[1], <<<<st[2], <<"z", b>>>>>>)), OkP(r)>>)

(***************************************************************************)
(* foreign: st = <<what, bytes>>                                           *)
(***************************************************************************)
GoodTop == <<IntP("A", 1)>>
WithHeader(h) == EncDoc(<<h, GoodTop, StdTrailer>>)
SetField(i, prim, b) == [HeaderNode(OptionClass) EXCEPT ![2][i][2] = <<"i", prim, b>>]
BadInts(good) == SelectSeq(FMap(<<1, 2, 3, 4>>, LAMBDA i : [good EXCEPT ![i] = (good[i] + 1) % 256])
                           \o FMap(<<1, 2, 3, 4>>, LAMBDA i : [good EXCEPT ![i] = (good[i] + 128) % 256])
                           \o <<Zeros(4), Reps(255, 4), HX("02000000"), HX("04000000"), Reverse(good), HX("50617353"), HX("67766173")>>,
                           LAMBDA x : x # good)
RawProp(name, ty, size, body) == FStr(U(name)) \o FStr(U(ty)) \o LE(size, 8) \o body
Payload(props) == Enc(HeaderNode(OptionClass)) \o props \o NoneBytes \o StdTrailer
NewPropTypes == <<"ByteProperty", "UInt32Property", "Int8Property", "Int16Property", "DoubleProperty", "SetProperty", "ObjectProperty",
                  "SoftObjectProperty", "TextProperty", "intproperty", "Int64", "", "StructPropert", "NoneProperty", "UInt64Property">>
NewArrTypes == <<"IntProperty", "Int64Property", "FloatProperty", "StrProperty", "BoolProperty", "TextProperty", "ObjectProperty", "MapProperty",
                 "ArrayProperty", "structproperty", "", "UInt32Property">>
NewMapTypes == <<"StrProperty", "ByteProperty", "FloatProperty", "Int64Property", "ObjectProperty", "ArrayProperty", "MapProperty", "", "nameproperty", "Guid">>
Four == <<1, 0, 0, 0>>
Body8 == <<5, 0, 0, 0, 97, 98, 99, 100, 0>> \o Zeros(40)
InStruct(props) == RawProp("S", "StructProperty", Len(props) + Len(NoneBytes), FStr(U("T")) \o Zeros(16) \o <<0>> \o props \o NoneBytes)
ForeignProps(dummy) ==
  FMap(NewPropTypes, LAMBDA t : RawProp("X", t, 4, <<0>> \o Four))
  \o FMap(NewPropTypes, LAMBDA t : RawProp("X", t, 0, <<0>>))
  \o FMap(NewArrTypes, LAMBDA t : LET b == Four \o Body8 IN RawProp("X", "ArrayProperty", Len(b), FStr(U(t)) \o <<0>> \o b))
  \o FMap(NewMapTypes, LAMBDA t : LET b == Zeros(4) \o Four \o Body8 IN RawProp("X", "MapProperty", Len(b), FStr(U(t)) \o FStr(uIntProperty) \o <<0>> \o b))
  \o FMap(NewMapTypes, LAMBDA t : LET b == Zeros(4) \o Four \o Four \o Body8 IN RawProp("X", "MapProperty", Len(b), FStr(uIntProperty) \o FStr(U(t)) \o <<0>> \o b))
  \o FMap(<<3, 5, 12, 0, 4>>, LAMBDA n : RawProp("X", "ArrayProperty", n, FStr(uByteProperty) \o <<0>> \o <<2, 0, 0, 0, 7, 8>>))
ForeignCells(dummy) ==
  FMap(BadInts(MagicBytes), LAMBDA b : <<"file tag", WithHeader(SetField(1, "i32", b))>>)
  \o FMap(BadInts(Version3), LAMBDA b : <<"save game version", WithHeader(SetField(2, "i32", b))>>)
  \o FMap(BadInts(Version3), LAMBDA b : <<"custom version format", WithHeader(SetField(10, "i32", b))>>)
  \o FMap(ForeignProps(0), LAMBDA p : <<"type", Payload(p)>>)
ForeignNested(dummy) == FMap(ForeignProps(0), LAMBDA p : <<"type in a structure", Payload(InStruct(p))>>)
                 \o FMap(ForeignProps(0), LAMBDA p : <<"type after others", Payload(RawProp("A", "IntProperty", 4, <<0>> \o Four) \o p)>>)
ForeignAll(dummy) == ForeignCells(0) \o ForeignNested(0)
ForeignInit == st \in ToSet(ForeignAll(0)) /\ k = 0
ForeignNext == FALSE /\ UNCHANGED vars
ForeignSound == ~OkP(DecDoc(PalHints, st[2]))
ForeignEmit == Hand(<<"foreign", st[1], st[2]>>)
===============================================================================
