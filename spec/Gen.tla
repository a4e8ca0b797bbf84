---------------------------------- MODULE Gen ----------------------------------
(***************************************************************************)
(* Documents to explore: a default instance of every layout, the single    *)
(* point edits of a document (a value replaced, an element added, removed  *)
(* or moved, a variant switched), and the places a structure is embedded.  *)
(***************************************************************************)
EXTENDS Pal

Reps(x, n) == Tup([i \in 1..n |-> x])
HexOf == [c \in {SubSeq("0123456789abcdef", i, i) : i \in 1..16} |->
             (CHOOSE i \in 1..16 : SubSeq("0123456789abcdef", i, i) = c) - 1]
\* bytes from hexadecimal text
HX(s) == Tup([i \in 1..(Len(s) \div 2) |-> 16 * HexOf[SubSeq(s, 2 * i - 1, 2 * i - 1)] + HexOf[SubSeq(s, 2 * i, 2 * i)]])

(***************************************************************************)
(* Boundary values of every kind of leaf.                                  *)
(***************************************************************************)
Int1 == Tup([i \in 1..17 |-> <<i - 1>>]) \o <<<<31>>, <<32>>, <<63>>, <<64>>, <<100>>, <<127>>, <<128>>, <<129>>, <<200>>, <<254>>, <<255>>>>
Int2 == <<HX("0000"), HX("0100"), HX("ff00"), HX("0001"), HX("ff7f"), HX("0080"), HX("ffff"), HX("feff"), HX("1234")>>
Int4 == <<HX("00000000"), HX("01000000"), HX("02000000"), HX("ffffffff"), HX("feffffff"), HX("7f000000"),
          HX("80000000"), HX("ff000000"), HX("00010000"), HX("ffff0000"), HX("00000100"), HX("ffffff7f"),
          HX("00000080"), HX("12345678"), HX("fedcba98")>>
Int8 == <<HX("0000000000000000"), HX("0100000000000000"), HX("ffffffffffffffff"), HX("feffffffffffffff"),
          HX("ff00000000000000"), HX("0000010000000000"), HX("ffffffff00000000"), HX("0000000001000000"),
          HX("ffffff7f00000000"), HX("0000008000000000"), HX("00000080ffffffff"), HX("ffffffffffffff7f"),
          HX("0000000000000080"), HX("0100000000002000"), HX("ffffffffffff1f00"), HX("0123456789abcdef")>>
IVals(prim) == CASE PrimSize[prim] = 1 -> Int1 [] PrimSize[prim] = 2 -> Int2
                 [] PrimSize[prim] = 4 -> Int4 [] OTHER -> Int8
\* +0 -0 1 -1 0.1 pi-ish smallest-denormal smallest-normal largest +inf -inf nan
Flt4 == <<HX("00000000"), HX("00000080"), HX("0000803f"), HX("000080bf"), HX("cdcccc3d"), HX("db0f4940"),
          HX("01000000"), HX("00008000"), HX("ffff7f7f"), HX("ffff7fff"), HX("0000807f"), HX("000080ff"), HX("0000c07f")>>
Flt8 == <<HX("0000000000000000"), HX("0000000000000080"), HX("000000000000f03f"), HX("000000000000f0bf"),
          HX("9a9999999999b93f"), HX("182d4454fb210940"), HX("0100000000000000"), HX("0000000000001000"),
          HX("ffffffffffffef7f"), HX("ffffffffffffefff"), HX("000000000000f07f"), HX("000000000000f0ff"),
          HX("000000000000f87f")>>
FVals(prim) == IF prim = "f32" THEN Flt4 ELSE Flt8
Guids == <<Zeros(16), Reps(255, 16), Tup([i \in 1..16 |-> i - 1]), Tup([i \in 1..16 |-> 240 - 7 * i]),
           Tup([i \in 1..16 |-> IF i = 1 THEN 1 ELSE 0]), Tup([i \in 1..16 |-> IF i = 16 THEN 128 ELSE 0])>>
Texts == <<<<>>, U("a"), U("None"), U(" a "), U("0f0e0d0c-0b0a-0908-0706-050403020100"), U("x y_Z-0"), <<233>>, U("na") \o <<239>> \o U("ve"), <<26085, 26412, 35486>>,
           <<55357, 56832>>, <<97, 55357, 56832, 98>>, <<55357>>, <<97, 56832>>, <<56832, 55357>>,
           <<97, 0, 98>>, <<0>>, <<34, 92, 47>>, <<10, 9, 13>>, <<127>>, <<128>>, <<255>>, <<256>>,
           <<65535>>, <<65279, 65>>, <<233, 0>>, U("null"), U("NaN"), Reps(120, 126), Reps(120, 127), Reps(120, 255), Reps(120, 256),
           Reps(233, 127), Reps(8364, 128), Reps(55357, 3) \o <<56832>>>>
TextsShort == <<<<>>, U(" a "), U("None"), U("0f0e0d0c-0b0a-0908-0706-050403020100"), <<233>>, <<55357, 56832>>, <<55357>>, <<97, 0>>, Reps(120, 255)>>

(***************************************************************************)
(* Defaults: every leaf gets its own value (k numbers the leaves).         *)
(***************************************************************************)
DefBytes(n, k) == Tup([i \in 1..n |-> (k * 29 + i * 53 + 7) % 256])
DefInt(n, k) == Tup([i \in 1..n |-> IF i = n /\ n > 1 THEN (k * 13 + 1) % 256 ELSE (k * 29 + i * 53 + 7) % 256])
DefF(prim, k) == IF prim = "f32" THEN <<(k * 31) % 256, (k * 7 + 5) % 256, (k * 3) % 128, 64 + (k % 3)>>
                 ELSE <<(k * 31) % 256, (k * 11) % 256, (k * 5 + 1) % 256, (k * 17) % 256, (k * 7 + 5) % 256,
                        (k * 3) % 256, (k * 13) % 128, 64 + 128 * (k % 2)>>
DefText(k) == U("t" \o ToString(k))
DefObject(k) == <<
  <<U("SaveParameter"), <<"Struct", NoId, U("PalIndividualCharacterSaveParameter"), Zeros(16), <<"P", <<
     <<U("Level"), <<"Int", NoId, <<"i", "i32", LE(k + 3, 4)>>>>>>,
     <<U("IsPlayer"), <<"Bool", NoId, 1>>>>,
     <<U("NickName"), <<"Str", NoId, <<"s", DefText(k)>>>>>>,
     <<U("Gender"), <<"Enum", NoId, U("EPalGenderType"), U("EPalGenderType::Female")>>>>,
     <<U("HP"), <<"Struct", NoId, U("FixedPoint64"), Zeros(16),
         <<"P", <<<<U("Value"), <<"Int64", NoId, <<"i", "i64", DefInt(8, k)>>>>>>>>>>>>>>,
     <<U("EquipWaza"), <<"ArrV", NoId, uEnumProperty, <<<<"s", U("EPalWazaID::A")>>, <<"s", U("EPalWazaID::B")>>>>>>>>,
     <<U("FullStomach"), <<"Float", NoId, <<"f", "f32", DefF("f32", k)>>>>>>
   >>>>>>>>>>

RECURSIVE Def(_, _), DefSeq(_, _, _)
DefSeq(fs, k, acc) ==  \* fields <<key, grammar>>
  IF fs = <<>> THEN <<acc, k>>
  ELSE LET r == Def(fs[1][2], k) IN DefSeq(Tail(fs), r[2], Append(acc, <<fs[1][1], r[1]>>))
\* <<node, next k>>
Def(g, k) ==
  LET t == g[1] IN
  CASE t = "p" -> <<<<"i", g[2], DefInt(PrimSize[g[2]], k)>>, k + 1>>
    [] t = "fl" -> <<<<"f", g[2], DefF(g[2], k)>>, k + 1>>
    [] t = "g" -> <<<<"g", DefBytes(16, k)>>, k + 1>>
    [] t = "s" -> <<<<"s", DefText(k)>>, k + 1>>
    [] t \in {"b8", "b32"} -> <<<<t, k % 2>>, k + 1>>
    [] t = "r" -> LET r == DefSeq(g[2], k, <<>>) IN <<<<"r", r[1]>>, r[2]>>
    [] t = "t" -> LET r == DefSeq(Tup([i \in 1..Len(g[2]) |-> <<"", g[2][i]>>]), k, <<>>)
                  IN <<<<"t", Tup([i \in 1..Len(r[1]) |-> r[1][i][2]])>>, r[2]>>
    [] t \in {"a", "m"} -> LET x == Def(g[2], k)
                               y == Def(g[2], x[2]) IN <<<<t, <<x[1], y[1]>>>>, y[2]>>
    [] t = "o" -> LET x == Def(g[2], k) IN <<<<"o", x[1]>>, x[2]>>
    [] t \in {"raw", "upto"} -> <<<<"y", DefBytes(g[2], k)>>, k + 1>>
    [] t = "rest" -> <<<<"z", DefBytes(3, k)>>, k + 1>>
    [] t = "k" -> <<g, k>>
    [] t = "alt" -> LET c == g[2][Len(g[2]) - (k % Len(g[2]))]
                        x == Def(c[2], k + 1)
                    IN <<<<"r", <<<<"type", <<"i", "u8", <<c[1]>>>>>>, <<"", x[1]>>>>>>, x[2]>>
    [] t = "rot" -> <<<<"rot", DefInt(2, k), DefInt(2, k + 1), DefInt(2, k + 2)>>, k + 3>>
    [] t = "pv" -> <<<<"pv", 18, 1, HX("563401"), HX("0180ff"), HX("785600")>>, k + 1>>
    [] t = "P" -> <<<<"P", DefObject(k)>>, k + 1>>
Default(g) == Def(g, 1)[1]

(***************************************************************************)
(* Single point edits.                                                     *)
(***************************************************************************)
\* sequence s with element i replaced by each of xs
SetEach(s, i, xs) == Tup([j \in 1..Len(xs) |-> [s EXCEPT ![i] = xs[j]]])
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
NotSame(xs, x) == SelectSeq(xs, LAMBDA y : y # x)
Ids == <<NoId, <<"g", DefBytes(16, 3)>>, <<"g", Zeros(16)>>>>

PvSamples == <<
  <<"pv", 1, 1, <<0>>, <<0>>, <<0>>>>, <<"pv", 1, 1, <<255>>, <<0>>, <<255>>>>, <<"pv", 2, 1, <<1>>, <<254>>, <<0>>>>,
  <<"pv", 8, 1, <<127>>, <<128>>, <<1>>>>, <<"pv", 9, 1, HX("8000"), HX("00ff"), HX("0100")>>,
  <<"pv", 16, 1, HX("ff7f"), HX("0080"), HX("ffff")>>, <<"pv", 20, 1, HX("563407"), HX("0000f8"), HX("010000")>>,
  <<"pv", 33, 1, HX("00000080ff"), HX("0000008000"), HX("0000000000")>>,
  <<"pv", 54, 1, HX("00000000000010"), HX("01000000000000"), HX("000000000000f0")>>,
  <<"pv", 54, 0, HX("00000000000010"), HX("00000000000018"), HX("000000000000f0")>>,
  <<"pv", 63, 1, HX("000000000000003f"), HX("0000000000000000"), HX("00000000000000c1")>>,
  <<"pvd", HX("000000000000d043"), HX("000000000000f03f"), HX("182d4454fb210940")>>,
  <<"pvd", HX("000000000000f07f"), HX("000000000000f0ff"), HX("000000000000f87f")>> >>
RotVals == <<HX("0000"), HX("0100"), HX("ff7f"), HX("0080"), HX("ffff"), HX("0040"), HX("00ff")>>

RECURSIVE Muts(_, _, _), FieldMuts(_, _, _, _), PropsMuts(_, _), PropMuts(_, _)
\* tx is the sequence of texts to use; <<>> restricts the edits to floating point values
\* edits of the fields from i on
FieldMuts(gs, fs, i, tx) ==
  FoldLeft(LAMBDA acc, j : LET ms == Muts(gs[j][2], fs[j][2], tx) IN
     acc \o Tup([m \in 1..Len(ms) |-> [fs EXCEPT ![j] = <<fs[j][1], ms[m]>>]]),
     <<>>, Tup([j \in 1..Len(fs) |-> j]))
Lift(tag, xs) == Tup([i \in 1..Len(xs) |-> <<tag, xs[i]>>])
ListEdits(g, s) ==  \* structural edits of a list
  <<<<>>>> \o (IF Len(s) > 0 THEN <<Tail(s), Append(s, s[1]), SubSeq(s, 1, 1), Reverse(s)>> ELSE <<>>)
  \o <<Append(s, Def(g, 40)[1]), <<Def(g, 60)[1]>> \o s>>
ElemEdits(g, s, tx) == FoldLeft(LAMBDA acc, i :
     LET ms == Muts(g, s[i], tx) IN acc \o SetEach(s, i, ms), <<>>, Tup([i \in 1..(IF Len(s) > 2 THEN 2 ELSE Len(s)) |-> i]))

Muts(g, n, tx) ==
  LET t == g[1] IN
  CASE tx = <<>> /\ t \in {"p", "g", "s", "b8", "b32", "raw", "upto", "rest", "rot"} -> <<>>
    [] tx = <<>> /\ t \in {"a", "m"} -> Lift(t, ElemEdits(g[2], n[2], tx))
    [] tx = <<>> /\ t = "o" -> IF Len(n) = 1 THEN <<>> ELSE Lift("o", Muts(g[2], n[2], tx))
    [] t = "p" -> Tup([i \in 1..Len(IVals(g[2])) |-> <<"i", g[2], IVals(g[2])[i]>>])
    [] t = "fl" -> LET vs == IF tx = <<>> THEN SubSeq(FVals(g[2]), 9, 13) ELSE FVals(g[2])
                   IN Tup([i \in 1..Len(vs) |-> <<"f", g[2], vs[i]>>])
    [] t = "g" -> Lift("g", Guids)
    [] t = "s" -> Lift("s", tx)
    [] t \in {"b8", "b32"} -> <<<<t, 1 - n[2]>>>>
    [] t = "r" -> Lift("r", FieldMuts(g[2], n[2], 1, tx))
    [] t = "t" -> FoldLeft(LAMBDA acc, i : acc \o Lift("t", SetEach(n[2], i, Muts(g[2][i], n[2][i], tx))),
                           <<>>, Tup([i \in 1..Len(n[2]) |-> i]))
    [] t \in {"a", "m"} -> Lift(t, ListEdits(g[2], n[2]) \o ElemEdits(g[2], n[2], tx))
    [] t = "o" -> <<<<"o">>>> \o (IF Len(n) = 1 THEN <<Def(g, 50)[1]>> ELSE Lift("o", Muts(g[2], n[2], tx)))
    [] t = "raw" -> <<<<"y", Zeros(g[2])>>, <<"y", Reps(255, g[2])>>, <<"y", DefBytes(g[2], 90)>>>>
    [] t = "upto" -> <<<<"y", Zeros(g[2])>>, <<"y", Reps(255, g[2])>>, <<"y", DefBytes(g[2], 90)>>>>
    [] t = "rest" -> <<<<"z", <<>>>>, <<"z", <<0>>>>, <<"z", Reps(255, 4)>>, <<"z", DefBytes(100, 3)>>>>
    [] t = "alt" ->
         LET tag == n[2][1][2][3][1]
             hits == SelectSeq(g[2], LAMBDA c : c[1] = tag)
             body == IF hits # <<>> THEN hits[1][2] ELSE g[3]
             inner == Muts(body, n[2][2][2], tx)
             MkAlt(x, d) == <<"r", <<<<"type", <<"i", "u8", <<x>>>>>>, <<"", d>>>>>>
         IN Tup([i \in 1..Len(inner) |-> MkAlt(tag, inner[i])])
            \o Tup([i \in 1..Len(g[2]) |-> MkAlt(g[2][i][1], Def(g[2][i][2], 70)[1])])
            \o (IF g[3] = <<"bad">> THEN <<>>
                ELSE <<MkAlt(0, Def(g[3], 70)[1]), MkAlt(4, Def(g[3], 71)[1]), MkAlt(255, Def(g[3], 72)[1])>>)
    [] t = "rot" -> FoldLeft(LAMBDA acc, i : acc \o SetEach(n, i, RotVals), <<>>, <<2, 3, 4>>)
    [] t = "pv" -> PvSamples
    [] t = "P" -> Lift("P", PropsMuts(n[2], tx))
    [] OTHER -> <<>>

HasProp(ps, name) == \E i \in 1..Len(ps) : ps[i][1] = name
PropsMuts(ps, tx) ==
  FoldLeft(LAMBDA acc, i :
      LET ms == PropMuts(ps[i][2], tx) IN
      acc \o Tup([j \in 1..Len(ms) |-> [ps EXCEPT ![i] = <<ps[i][1], ms[j]>>]])
          \o (IF tx = <<>> THEN <<>> ELSE <<Without(ps, i)>>), <<>>, Tup([i \in 1..Len(ps) |-> i]))
  \o IF tx = <<>> THEN <<>> ELSE (
     (IF HasProp(ps, U("Extra Prop")) THEN <<>> ELSE <<Append(ps, <<U("Extra Prop"), <<"Bool", NoId, 0>>>>)>>)
  \o (IF HasProp(ps, <<20013, 25991>>) THEN <<>>
      ELSE <<<<<<<<20013, 25991>>, <<"Int", NoId, <<"i", "i32", LE(7, 4)>>>>>>>> \o ps>>)
  \o <<Reverse(ps), <<>>>>)
PropMuts(q, tx) ==
  LET t == q[1]
      ids == SetEach(q, 2, NotSame(Ids, q[2]))
  IN IF tx = <<>>
   THEN (CASE t = "Float" -> SetEach(q, 3, Muts(NamedPrim[t], q[3], tx))
           [] t = "Struct" -> SetEach(q, 5, Muts(StructG(q[3]), q[5], tx))
           [] t = "ArrS" -> SetEach(q, 7, ElemEdits(StructG(q[5]), q[7], tx))
           [] t = "Map" /\ q[7] # <<>> ->
                LET vm == Muts(MapElemG(q[4], q[6]), q[7][1][2], tx) IN
                SetEach(q, 7, SetEach(q[7], 1, Tup([i \in 1..Len(vm) |-> <<q[7][1][1], vm[i]>>])))
           [] OTHER -> <<>>)
   ELSE ids \o
   (CASE t \in SimpleTypes -> SetEach(q, 3, Muts(NamedPrim[t], q[3], tx))
      [] t = "Enum" -> SetEach(q, 3, tx) \o SetEach(q, 4, tx)
      [] t = "Bool" -> <<<<"Bool", q[2], 1 - q[3]>>>>
      [] t = "Struct" -> SetEach(q, 4, Guids) \o SetEach(q, 5, Muts(StructG(q[3]), q[5], tx))
      [] t = "ArrV" -> SetEach(q, 4, ListEdits(ArrElemG(q[3]), q[4]) \o ElemEdits(ArrElemG(q[3]), q[4], tx))
      [] t = "ArrB" -> SetEach(q, 3, <<<<>>, <<0>>, <<255>>, Tup([i \in 1..256 |-> i - 1]), Reps(7, 300)>>)
      [] t = "ArrS" -> SetEach(q, 3, <<U("P2"), <<233>>, <<>>>>) \o SetEach(q, 4, <<U("StructProperty2"), <<>>>>) \o SetEach(q, 6, Guids)
                       \o SetEach(q, 7, ListEdits(StructG(q[5]), q[7]) \o ElemEdits(StructG(q[5]), q[7], tx))
      [] t = "Map" ->
          LET kg == MapElemG(q[3], q[5])
              vg == MapElemG(q[4], q[6])
              es == q[7]
              km == Muts(kg, es[1][1], tx)
              vm == Muts(vg, es[1][2], tx)
              Ent(k) == <<Def(kg, k)[1], Def(vg, k + 1)[1]>>
          IN SetEach(q, 7, <<<<>>, Append(es, Ent(80)), <<Ent(81)>>>> \o (IF es = <<>> THEN <<>> ELSE <<Tail(es), Reverse(es), Append(es, es[1])>>))
             \o (IF es = <<>> THEN <<>>
                 ELSE SetEach(q, 7, SetEach(es, 1, Tup([i \in 1..Len(km) |-> <<km[i], es[1][2]>>]))
                                 \o SetEach(es, 1, Tup([i \in 1..Len(vm) |-> <<es[1][1], vm[i]>>]))))
      [] OTHER -> <<>>)

(***************************************************************************)
(* Growing: a list, a text or trailing bytes of a document at length n.    *)
(* Length 0 stands for touching everything: one small change per leaf.     *)
(***************************************************************************)
Elems(g, n) == Tup([i \in 1..n |-> Def(g, 7 * i + n)[1]])
TextOf(n) == <<Tup([i \in 1..n |-> 97 + (i % 26)]), Tup([i \in 1..n |-> IF i = n THEN 233 ELSE 97 + (i % 26)])>>
RECURSIVE Grown(_, _, _), GrownProps(_, _), GrownProp(_, _)
GrownElems(g, s, n) == IF s = <<>> THEN <<>> ELSE SetEach(s, 1, Grown(g, s[1], n))
                       \o (IF Len(s) < 2 THEN <<>> ELSE SetEach(s, Len(s), Grown(g, s[Len(s)], n)))
Grown(g, v, n) ==
  LET t == g[1] IN
  CASE n = 0 /\ t \in {"p", "fl"} -> <<[v EXCEPT ![3][1] = (v[3][1] + 1) % 256]>>
    [] n = 0 /\ t = "g" -> <<[v EXCEPT ![2][16] = (v[2][16] + 1) % 256]>>
    [] n = 0 /\ t \in {"b8", "b32"} -> <<[v EXCEPT ![2] = 1 - v[2]]>>
    [] n = 0 /\ t \in {"raw", "upto"} -> IF v[2] = <<>> THEN <<>> ELSE <<[v EXCEPT ![2][1] = (v[2][1] + 1) % 256]>>
    [] n = 0 /\ t = "rot" -> <<[v EXCEPT ![3] = HX("0102")]>>
    [] n = 0 /\ t = "pv" -> <<PvSamples[8]>>
    [] t = "s" -> Lift("s", TextOf(n))
    [] t = "r" -> FoldLeft(LAMBDA acc, j : LET ms == Grown(g[2][j][2], v[2][j][2], n) IN
                     acc \o Tup([m \in 1..Len(ms) |-> <<"r", [v[2] EXCEPT ![j] = <<v[2][j][1], ms[m]>>]>>]),
                     <<>>, Tup([j \in 1..Len(v[2]) |-> j]))
    [] t = "t" -> FoldLeft(LAMBDA acc, j : acc \o Lift("t", SetEach(v[2], j, Grown(g[2][j], v[2][j], n))),
                           <<>>, Tup([j \in 1..Len(v[2]) |-> j]))
    [] t \in {"a", "m"} -> <<<<t, Elems(g[2], n)>>>> \o Lift(t, GrownElems(g[2], v[2], n))
    [] t = "o" -> IF Len(v) = 1 THEN <<>> ELSE Lift("o", Grown(g[2], v[2], n))
    [] t = "rest" -> <<<<"z", DefBytes(n, n)>>>>
    [] t = "alt" -> LET tag == v[2][1][2][3][1]
                        hits == SelectSeq(g[2], LAMBDA c : c[1] = tag)
                        ms == Grown(IF hits # <<>> THEN hits[1][2] ELSE g[3], v[2][2][2], n)
                    IN Tup([m \in 1..Len(ms) |-> <<"r", <<v[2][1], <<"", ms[m]>>>>>>])
    [] t = "P" -> Lift("P", GrownProps(v[2], n))
    [] OTHER -> <<>>
GrownProps(ps, n) ==
  FoldLeft(LAMBDA acc, i : LET ms == GrownProp(ps[i][2], n) IN
      acc \o Tup([j \in 1..Len(ms) |-> [ps EXCEPT ![i] = <<ps[i][1], ms[j]>>]]), <<>>, Tup([i \in 1..Len(ps) |-> i]))
  \o IF n = 0 THEN <<Append(ps, <<U("More"), <<"Bool", NoId, 1>>>>)>> ELSE <<ps \o Tup([i \in 1..n |-> <<U("More" \o ToString(i)), <<"Int", NoId, <<"i", "i32", LE(i * n, 4)>>>>>>]),
       Append(ps, <<TextOf(n)[1], <<"Bool", NoId, 1>>>>)>>
GrownProp(q, n) ==
  LET t == q[1] IN
  CASE t = "Bool" -> IF n = 0 THEN <<[q EXCEPT ![3] = 1 - q[3]]>> ELSE <<>>
    [] t \in SimpleTypes -> SetEach(q, 3, Grown(NamedPrim[t], q[3], n))
    [] t = "Enum" -> SetEach(q, 3, TextOf(n)) \o SetEach(q, 4, TextOf(n))
    [] t = "Struct" -> SetEach(q, 5, Grown(StructG(q[3]), q[5], n))
    [] t = "ArrV" -> SetEach(q, 4, <<Elems(ArrElemG(q[3]), n)>> \o GrownElems(ArrElemG(q[3]), q[4], n))
    [] t = "ArrB" -> SetEach(q, 3, <<DefBytes(n, n)>>)
    [] t = "ArrS" -> SetEach(q, 3, <<TextOf(n)[1]>>) \o SetEach(q, 7, <<Elems(StructG(q[5]), n)>> \o GrownElems(StructG(q[5]), q[7], n))
    [] t = "Map" ->
         LET kg == MapElemG(q[3], q[5])
             vg == MapElemG(q[4], q[6])
             es == q[7]
         IN SetEach(q, 7, <<Tup([i \in 1..n |-> <<Def(kg, 3 * i)[1], Def(vg, 3 * i + 1)[1]>>])>>
              \o (IF es = <<>> THEN <<>>
                  ELSE SetEach(es, 1, FMap(Grown(kg, es[1][1], n), LAMBDA x : <<x, es[1][2]>>)
                                      \o FMap(Grown(vg, es[1][2], n), LAMBDA x : <<es[1][1], x>>))))
    [] OTHER -> <<>>

(***************************************************************************)
(* Embedding.  entries is a sequence of <<context, node>>.                 *)
(***************************************************************************)
HeaderNode(cls) == <<"r", <<
  <<"magic", <<"i", "i32", MagicBytes>>>>, <<"save_game_version", <<"i", "i32", Version3>>>>,
  <<"package_file_version_ue4", <<"i", "i32", LE(522, 4)>>>>, <<"package_file_version_ue5", <<"i", "i32", LE(1008, 4)>>>>,
  <<"engine_version_major", <<"i", "u16", LE(5, 2)>>>>, <<"engine_version_minor", <<"i", "u16", LE(1, 2)>>>>,
  <<"engine_version_patch", <<"i", "u16", LE(1, 2)>>>>, <<"engine_version_changelist", <<"i", "u32", LE(0, 4)>>>>,
  <<"engine_version_branch", <<"s", U("++UE5+Release-5.1")>>>>, <<"custom_version_format", <<"i", "i32", Version3>>>>,
  <<"custom_versions", <<"a", <<<<"t", <<<<"g", DefBytes(16, 1)>>, <<"i", "i32", LE(40, 4)>>>>>>,
                                <<"t", <<<<"g", DefBytes(16, 9)>>, <<"i", "i32", LE(7, 4)>>>>>>>>>>>>,
  <<"save_game_class_name", <<"s", cls>>>>>>>>
WorldClass == U("/Script/Pal.PalWorldSaveGame")
Prop(name, q) == <<U(name), q>>
StructP(name, st, ps) == Prop(name, <<"Struct", NoId, U(st), Zeros(16), <<"P", ps>>>>)
GuidP(name, k) == Prop(name, <<"Struct", NoId, uGuid, Zeros(16), <<"g", DefBytes(16, k)>>>>)
EnumP(name, ty, v) == Prop(name, <<"Enum", NoId, U(ty), v>>)
IntP(name, k) == Prop(name, <<"Int", NoId, <<"i", "i32", LE(k, 4)>>>>)
NameP(name, v) == Prop(name, <<"Name", NoId, <<"s", v>>>>)
RawP(node) == <<uRawData, <<"Blob", NoId, node>>>>
MapSS(name, kst, vst, es) == Prop(name, <<"Map", NoId, uStructProperty, uStructProperty, kst, vst, es>>)
MapES(name, es) == Prop(name, <<"Map", NoId, uEnumProperty, uStructProperty, <<>>, uStructProperty, es>>)
ArrS(name, tn, elems) == Prop(name, <<"ArrS", NoId, U(name), uStructProperty, U(tn), Zeros(16), elems>>)
P(ps) == <<"P", ps>>
World(ps) == <<HeaderNode(WorldClass),
               <<StructP("worldSaveData", "PalWorldSaveData", ps)>>, Zeros(4)>>
Each(es, F(_, _)) == Tup([i \in 1..Len(es) |-> F(i, es[i])])
N(e) == e[2]
C(e) == e[1]

DefWork == Default(WorkG(uDefense))
DefConnector == Default(ConnectorG)
MapObj(i, name, model, conn, bp, conc, mods) ==
  P(<<NameP("MapObjectId", name),
      StructP("Model", "PalMapObjectModelSaveData",
        <<RawP(model), Prop("EffectMap", <<"Map", NoId, uEnumProperty, uStructProperty, <<>>, uStructProperty, <<>>>>),
          StructP("Connector", "PalMapObjectConnectorSaveData", <<RawP(conn)>>),
          StructP("BuildProcess", "PalMapObjectBuildProcessSaveData", <<RawP(bp)>>)>>),
      StructP("ConcreteModel", "PalMapObjectConcreteModelSaveData", <<MapES("ModuleMap", mods), RawP(conc)>>),
      IntP("Index", i)>>)
uChest == U("ItemChest")
DefModel == Default(MapModelG)
DefBp == Default(BuildProcessG)
DefConc == Default(ConcreteG("PalMapObjectItemChestModel"))
DefMods == <<<<<<"s", uModChar>>, P(<<RawP(Default(MapModuleG(uModChar)))>>)>>>>
MapObjects(elems) == <<ArrS("MapObjectSaveData", "PalMapObjectSaveData", elems)>>
WorkElem(i, t, node, assigns) ==
  P(<<RawP(node), EnumP("WorkableType", "EPalWorkableType", t),
      Prop("WorkAssignMap", <<"Map", NoId, uIntProperty, uStructProperty, <<>>, uStructProperty, assigns>>)>>)
IntKey(i) == <<"i", "i32", LE(i, 4)>>
DefAssign == Default(WorkAssignG)
CampEntry(i, raw, wd, wc, mods) ==
  <<<<"g", DefBytes(16, 30 + i)>>,
    P(<<RawP(raw), StructP("WorkerDirector", "PalBaseCampWorkerDirectorSaveData", <<RawP(wd)>>),
        StructP("WorkCollection", "PalBaseCampWorkCollectionSaveData", <<RawP(wc)>>),
        MapES("ModuleMap", mods)>>)>>
DefCamp == Default(BaseCampG)
DefWd == Default(WorkerDirectorG)
DefWc == Default(WorkCollectionG)
Camps(es) == <<MapSS("BaseCampSaveData", uGuid, uStructProperty, es)>>
CellKey(i) == P(<<IntP("X", i), IntP("Y", i + 1), IntP("Z", 0)>>)
Foliage(models) == <<MapSS("FoliageGridSaveDataMap", uStructProperty, uStructProperty,
    <<<<CellKey(1), P(<<Prop("ModelMap", <<"Map", NoId, uNameProperty, uStructProperty, <<>>, uStructProperty, models>>)>>)>>>>)>>
FolModel(i, raw, insts) == <<<<"s", U("Model" \o ToString(i))>>,
    P(<<RawP(raw), MapSS("InstanceDataMap", uStructProperty, uStructProperty, insts)>>)>>
FolInst(i, raw) == <<P(<<GuidP("Guid", i)>>), P(<<RawP(raw)>>)>>
DefFolModel == Default(FoliageModelG)
DefFolInst == Default(FoliageInstanceG)
IdKey(i) == P(<<GuidP("ID", i)>>)

EmbedProps(kind, es) ==
  CASE kind = "group" -> <<MapSS("GroupSaveDataMap", uGuid, uStructProperty,
          Each(es, LAMBDA i, e : <<<<"g", DefBytes(16, i)>>,
             P(<<EnumP("GroupType", "EPalGroupType", C(e)), RawP(N(e))>>)>>))>>
    [] kind = "character" -> <<MapSS("CharacterSaveParameterMap", uStructProperty, uStructProperty,
          Each(es, LAMBDA i, e : <<P(<<GuidP("PlayerUId", i), GuidP("InstanceId", i + 5),
             Prop("DebugName", <<"Str", NoId, <<"s", <<>>>>>>)>>), P(<<RawP(N(e))>>)>>))>>
    [] kind = "item_container" -> <<MapSS("ItemContainerSaveData", uStructProperty, uStructProperty,
          Each(es, LAMBDA i, e : <<IdKey(i), P(<<IntP("SlotNum", i), RawP(N(e))>>)>>))>>
    [] kind = "item_slot" -> <<MapSS("ItemContainerSaveData", uStructProperty, uStructProperty,
          <<<<IdKey(1), P(<<ArrS("Slots", "PalItemSlotSaveData",
             Each(es, LAMBDA i, e : P(<<IntP("SlotIndex", i), RawP(N(e))>>)))>>)>>>>)>>
    [] kind = "character_slot" -> <<MapSS("CharacterContainerSaveData", uStructProperty, uStructProperty,
          <<<<IdKey(1), P(<<ArrS("Slots", "PalCharacterSlotSaveData",
             Each(es, LAMBDA i, e : P(<<IntP("SlotIndex", i), RawP(N(e))>>)))>>)>>>>)>>
    [] kind = "dynamic_item" -> <<ArrS("DynamicItemSaveData", "PalDynamicItemSaveData",
          Each(es, LAMBDA i, e : P(<<RawP(N(e))>>)))>>
    [] kind = "foliage_model" -> Foliage(Each(es, LAMBDA i, e : FolModel(i, N(e), <<>>)))
    [] kind = "foliage_instance" -> Foliage(<<FolModel(1, DefFolModel, Each(es, LAMBDA i, e : FolInst(i, N(e))))>>)
    [] kind = "base_camp" -> Camps(Each(es, LAMBDA i, e : CampEntry(i, N(e), DefWd, DefWc, <<>>)))
    [] kind = "worker_director" -> Camps(Each(es, LAMBDA i, e : CampEntry(i, DefCamp, N(e), DefWc, <<>>)))
    [] kind = "work_collection" -> Camps(Each(es, LAMBDA i, e : CampEntry(i, DefCamp, DefWd, N(e), <<>>)))
    [] kind = "camp_module" -> Camps(<<CampEntry(1, DefCamp, DefWd, DefWc,
          Each(es, LAMBDA i, e : <<<<"s", C(e)>>, P(<<RawP(N(e))>>)>>))>>)
    [] kind = "work" -> <<ArrS("WorkSaveData", "PalWorkSaveData",
          Each(es, LAMBDA i, e : WorkElem(i, C(e), N(e), <<>>)))>>
    [] kind = "work_assign" -> <<ArrS("WorkSaveData", "PalWorkSaveData",
          <<WorkElem(1, uDefense, DefWork, Each(es, LAMBDA i, e : <<IntKey(i), P(<<RawP(N(e))>>)>>))>>)>>
    [] kind = "map_model" -> MapObjects(Each(es, LAMBDA i, e : MapObj(i, uChest, N(e), DefConnector, DefBp, DefConc, <<>>)))
    [] kind = "connector" -> MapObjects(Each(es, LAMBDA i, e : MapObj(i, uChest, DefModel, N(e), DefBp, DefConc, <<>>)))
    [] kind = "build_process" -> MapObjects(Each(es, LAMBDA i, e : MapObj(i, uChest, DefModel, DefConnector, N(e), DefConc, <<>>)))
    [] kind = "concrete" -> MapObjects(Each(es, LAMBDA i, e : MapObj(i, C(e), DefModel, DefConnector, DefBp, N(e), DefMods)))
    [] kind = "map_module" -> MapObjects(<<MapObj(1, uChest, DefModel, DefConnector, DefBp, DefConc,
          Each(es, LAMBDA i, e : <<<<"s", C(e)>>, P(<<RawP(N(e))>>)>>))>>)
Embed(kind, es) == World(EmbedProps(kind, es))
===============================================================================
