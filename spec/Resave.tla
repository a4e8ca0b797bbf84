---------------------------------- MODULE Resave ----------------------------------
(***************************************************************************)
(* The resave checker: it converts the given save to JSON and back, into   *)
(* two intermediate files, and says whether the result is the same.        *)
(* A case is <<label, file kind, payload, save type>>; the two files may   *)
(* be there already, and the user is asked before they are overwritten.    *)
(***************************************************************************)
EXTENDS Damage

MustBeDouble(cls) == cls = WorldClass \/ cls = U("/Script/Pal.PalLocalWorldSaveGame")
\* what the conversion makes of a payload: the document read and written again
ReadBack(b) == LET r == DecDoc(PalHints, b) IN IF OkP(r) THEN <<1, EncDoc(r[2]), r[2][1][2][12][2][2]>> ELSE <<0>>
Reproduced(b, ty) == LET r == ReadBack(b) IN
   r[1] = 1 /\ r[2] = b /\ (ty = 50 <=> MustBeDouble(r[3]))
LooseProps(dummy) == <<
  <<"ascii stored wide", RawProp("T", "StrProperty", 12, <<0>> \o NegLE(4, 4) \o Utf16(U("abc")) \o <<0, 0>>)>>,
  <<"empty text stored long", RawProp("T", "StrProperty", 5, <<0>> \o <<1, 0, 0, 0, 0>>)>>,
  <<"flag of two", RawProp("B", "BoolProperty", 0, <<2, 0>>)>>,
  <<"id flag of two", RawProp("X", "IntProperty", 4, <<2>> \o DefBytes(16, 3) \o Four)>>,
  <<"declared size off", RawProp("X", "IntProperty", 99, <<0>> \o Four)>>,
  <<"declared size off by one", RawProp("S", "StructProperty", 10, FStr(U("T")) \o Zeros(16) \o <<0>> \o NoneBytes)>>,
  <<"bool with a size", RawProp("B", "BoolProperty", 1, <<1, 0>>)>>,
  <<"map with removals", RawProp("M", "MapProperty", 8, FStr(uIntProperty) \o FStr(uIntProperty) \o <<0>> \o Four \o Zeros(4))>>,
  <<"nothing unusual", RawProp("X", "IntProperty", 4, <<0>> \o Four)>>,
  <<"text unusual", RawProp("T", "StrProperty", 10, <<0>> \o FStr(<<233, 55357>>))>>>>
\* a name given twice: only one of the two survives, and the rest stays where it was
StrOfLen(name, n) == RawProp(name, "StrProperty", n + 5, <<0>> \o FStr(Reps(120, n)))
Overhead(name) == Len(StrOfLen(name, 1)) - 1
Block == 16384
Twice2(dummy) == StrOfLen("T", Block - Overhead("T")) \o StrOfLen("T", Block - Overhead("T"))
PadTo(n) == LET over == (n + Overhead("Pad")) % Block IN StrOfLen("Pad", Block - over)
TwiceBlocks(cls) == PadTo(Len(Enc(HeaderNode(cls)))) \o Twice2(0)
TwiceProps(dummy) == <<<<"twice, the same", RawProp("X", "IntProperty", 4, <<0>> \o Four) \o RawProp("X", "IntProperty", 4, <<0>> \o Four)>>,
                       <<"twice, different", RawProp("X", "IntProperty", 4, <<0>> \o Four) \o RawProp("Y", "IntProperty", 4, <<0>> \o Four)
                                             \o RawProp("X", "IntProperty", 4, <<0>> \o Zeros(4))>>>>
HeaderedBy(cls, props) == Enc(HeaderNode(cls)) \o props \o NoneBytes \o StdTrailer
Cases(dummy) ==
  FMap(LooseProps(0), LAMBDA p : <<p[1], "save", HeaderedBy(OptionClass, p[2]), 49>>)
  \o FMap(LooseProps(0), LAMBDA p : <<p[1] \o ", world", "save", HeaderedBy(WorldClass, p[2]), 50>>)
  \o FMap(TwiceProps(0), LAMBDA p : <<p[1], "save", HeaderedBy(OptionClass, p[2]), 49>>)
  \o <<<<"blocks twice", "save", HeaderedBy(OptionClass, TwiceBlocks(OptionClass)), 49>>,
        <<"blocks twice, world", "save", HeaderedBy(WorldClass, TwiceBlocks(WorldClass)), 50>>>>
  \o Concat(FMap(CliCells(0), LAMBDA x : FMap(<<49, 50>>, LAMBDA ty : <<"document", "save", EncDoc(DocOf(x)), ty>>)))
  \o Concat(FMap(CliCells(0), LAMBDA x : FMap(<<49, 50>>, LAMBDA ty : <<"cut document", "save", SubSeq(EncDoc(DocOf(x)), 1, 60), ty>>)))
  \o FMap(<<<<>>, <<7>>, DefBytes(20, 1), NoneBytes>>, LAMBDA t : <<"trailer", "save", Enc(HeaderNode(OptionClass)) \o NoneBytes \o t, 49>>)
  \o FMap(<<"missing", "dir", "cutfile", "emptyfile", "textfile", "badlength", "badsum">>, LAMBDA x : <<"file", x, HeaderedBy(OptionClass, <<>>), 49>>)
\* a few cases for the full product of file states and answers
Few(dummy) == <<<<"nothing unusual", "save", HeaderedBy(OptionClass, <<>>), 49>>, <<"save type", "save", HeaderedBy(OptionClass, <<>>), 50>>,
                <<"flag of two", "save", HeaderedBy(WorldClass, LooseProps(0)[3][2]), 50>>, <<"file", "cutfile", HeaderedBy(OptionClass, <<>>), 49>>>>

Stale == {"none", "junk", "copy", "dir"}
Answers == {<<>>, <<"y">>, <<"y", "y">>, <<"Y", "n">>, <<"n">>, <<"n", "y">>, <<"y", "", "y">>, <<"", "n">>, <<"x">>}
Names == {"x.sav", "x", "in dir/x.sav", "x.json"}
\* k is <<name, arguments, the two files, answers>>
RInit == \/ st \in ToSet(Cases(0)) /\ k \in {<<n, 1, "none", "none", <<>>>> : n \in {"x.sav"}}
         \/ st \in ToSet(Few(0)) /\ \E n \in Names, a \in Stale, b \in Stale, an \in Answers : k = <<n, 1, a, b, an>>
         \/ st = Few(0)[1] /\ k \in {<<"x.sav", n, a, "none", <<"y", "y">>>> : n \in {0, 2, 3}, a \in {"none", "junk"}}
RNext == FALSE /\ UNCHANGED vars

RECURSIVE Ask(_)
\* <<confirmed, answers left>>
Ask(a) == IF a = <<>> THEN <<FALSE, a>>
          ELSE IF a[1] \in {"y", "Y"} THEN <<TRUE, Tail(a)>>
          ELSE IF a[1] \in {"n", "N"} THEN <<FALSE, Tail(a)>> ELSE Ask(Tail(a))
Outcome ==
  LET a1 == IF k[3] = "none" THEN <<TRUE, k[5]>> ELSE Ask(k[5])
      a2 == IF k[4] = "none" THEN <<TRUE, a1[2]>> ELSE Ask(a1[2])
      readable == st[2] = "save" /\ ReadBack(st[3])[1] = 1
  IN IF k[2] # 1 THEN [json |-> FALSE, sav |-> FALSE, same |-> FALSE]
     ELSE IF ~a1[1] THEN [json |-> FALSE, sav |-> FALSE, same |-> FALSE]
     ELSE IF ~readable \/ k[3] = "dir" THEN [json |-> FALSE, sav |-> FALSE, same |-> FALSE]
     ELSE IF ~a2[1] \/ k[4] = "dir" THEN [json |-> TRUE, sav |-> FALSE, same |-> FALSE]
     ELSE [json |-> TRUE, sav |-> TRUE, same |-> Reproduced(st[3], st[4])]
\* the checker only says "same" after it has written both files anew
Truthful == Outcome.same => Outcome.json /\ Outcome.sav /\ st[2] = "save"
REmit == Hand(<<"resave", st, k, Outcome>>)
===============================================================================
