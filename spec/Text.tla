---------------------------------- MODULE Text ----------------------------------
(***************************************************************************)
(* Texts, grown one code unit at a time over representatives of every      *)
(* class of UTF-16 code unit, and long texts; each is put in every place   *)
(* of a save that holds text.                                              *)
(*   TextInit/TextNext  all texts of up to K units of an alphabet          *)
(*   LongInit           lengths around every power of two, several fillings*)
(* TEXTS: "wide" (20 units) or "narrow" (8 units).                         *)
(***************************************************************************)
EXTENDS Docs

\* NUL, control, line feed, quote, slash, backslash, letters, DEL, first non-ASCII,
\* Latin-1, CJK, line separator, surrogates (high, low, limits), byte order marks
Wide == {0, 1, 10, 34, 47, 92, 97, 78, 127, 128, 233, 255, 256, 8232, 12354, 55296, 56320, 56832, 57343, 55357, 65279, 65534, 65535}
Narrow == {0, 10, 97, 128, 12354, 55357, 56832, 34}
Alphabet == IF TEXTS = "wide" THEN Wide ELSE Narrow

\* every text of a node replaced, where the text selects nothing
RECURSIVE Retext(_, _)
Retext(n, u) ==
  CASE n[1] = "s" -> <<"s", u>>
    [] n[1] = "r" -> <<"r", FMap(n[2], LAMBDA f : <<f[1], Retext(f[2], u)>>)>>
    [] n[1] \in {"a", "m", "t"} -> <<n[1], FMap(n[2], LAMBDA x : Retext(x, u))>>
    [] n[1] = "o" /\ Len(n) = 2 -> <<"o", Retext(n[2], u)>>
    [] n[1] = "P" -> <<"P", FMap(n[2], LAMBDA q : <<q[1], IF q[2][1] \in {"Str", "Name"} THEN <<q[2][1], q[2][2], <<"s", u>>>> ELSE q[2]>>)>>
    [] OTHER -> n
NameOr(u) == IF u = NoneU THEN U("none") ELSE u
TypeOr(u) == IF StructG(u) = <<"P">> THEN u ELSE U("OtherType")
uPlainType == U("PlainType")
TextTop(u) == <<
  <<NameOr(u), <<"Str", NoId, <<"s", u>>>>>>,
  <<U("second"), <<"Name", NoId, <<"s", u>>>>>>,
  <<U("third"), <<"Enum", NoId, u, u>>>>,
  <<U("fourth"), <<"Struct", NoId, TypeOr(u), Zeros(16), P(<<<<NameOr(u), <<"Bool", NoId, 1>>>>>>)>>>>,
  <<U("fifth"), <<"ArrV", NoId, uNameProperty, <<<<"s", u>>, <<"s", <<>>>>, <<"s", u>>>>>>>>,
  <<U("sixth"), <<"ArrV", NoId, uEnumProperty, <<<<"s", u>>>>>>>>,
  <<U("seventh"), <<"ArrS", NoId, u, u, TypeOr(u), Zeros(16), <<P(<<<<NameOr(u), <<"Str", NoId, <<"s", u>>>>>>>>)>>>>>>,
  <<U("eighth"), <<"Map", NoId, uNameProperty, uEnumProperty, <<>>, <<>>, <<<<<<"s", u>>, <<"s", u>>>>>>>>>>,
  <<U("ninth"), <<"Map", NoId, uEnumProperty, uNameProperty, <<>>, <<>>, <<<<<<"s", u>>, <<"s", u>>>>>>>>>>,
  \* a place no hint tells about
  <<U("tenth"), <<"Struct", NoId, uPlainType, Zeros(16), P(<<<<NameOr(u), <<"Map", NoId, uStructProperty, uStructProperty, uGuid, uStructProperty,
       <<<<<<"g", Zeros(16)>>, P(<<IntP("In", 1)>>)>>>>>>>>>>)>>>>>>
TextHeader(u) == LET h == HeaderNode(OptionClass) IN [h EXCEPT ![2][9][2] = <<"s", u>>, ![2][12][2] = <<"s", u>>]
Part(kind, ctx, u) == <<kind, <<<<ctx, Retext(DefOf(kind, ctx), u)>>>>>>
TextParts(u) == <<Part("group", uGuild, u), Part("base_camp", <<>>, u), Part("map_model", <<>>, u), Part("item_slot", <<>>, u)>>
TextParts2(u) == <<Part("character", <<>>, u), Part("work", uProgress, u), Part("foliage_model", <<>>, u)>>
SmallDoc(u) == Cell(TextHeader(u), <<>>, <<<<U("T"), <<"Str", NoId, <<"s", u>>>>>>, IntP("After", 1)>>, StdTrailer, <<"pal">>)
DocsOf(u) == IF Len(u) > 3000 THEN <<SmallDoc(u)>>
             ELSE <<Cell(TextHeader(u), <<>>, TextTop(u), StdTrailer, <<"pal">>), OfParts(TextParts(u)), OfParts(TextParts2(u))>>

\* st is the text
TextInit == st = <<>> /\ k = 0
TextNext == k < K /\ k' = k + 1 /\ \E x \in Alphabet : st' = Append(st, x)
Lens == (1..20) \union (125..130) \union (253..258) \union {510, 511, 512, 513, 1023, 1024}
BigLens == {32766, 32767, 32768, 65534, 65535, 65536}
Fill(n, F(_)) == Tup([i \in 1..n |-> F(i)])
Fillings(n) == {Fill(n, LAMBDA i : 97 + (i % 26)), Fill(n, LAMBDA i : 8364 + (i % 20)), Fill(n, LAMBDA i : IF i = n THEN 233 ELSE 97),
                Fill(n, LAMBDA i : IF i = 1 THEN 12354 ELSE 98), Fill(n, LAMBDA i : IF i % 2 = 1 THEN 55357 ELSE 56832),
                Fill(n, LAMBDA i : IF i = n THEN 55357 ELSE 120), Fill(n, LAMBDA i : 0)}
LongInit == k = 0 /\ st \in UNION {Fillings(n) : n \in IF K = 0 THEN Lens ELSE BigLens}
LongNext == FALSE /\ UNCHANGED vars

\* the stored form determines the text
TextFaithful == LET b == FStr(st) IN
  /\ RdFStr(b, 1) = Ok(st, Len(b) + 1)
  /\ (st = <<>> <=> b = Zeros(4))
  /\ Len(b) < 300 => \A i \in 0..(Len(b) - 1) : RdFStr(SubSeq(b, 1, i), 1) = Fail
TextEmit == \A x \in ToSet(DocsOf(st)) :
  LET d == DocOf(x)
      b == EncDoc(d)
      low == LowerDoc(d)
  IN /\ DecDoc(HintsOf(x), b) = <<1, low>>
     /\ Hand(<<"text", st, FStr(st), b, Export(low, CustomPaths)>>)
===============================================================================
