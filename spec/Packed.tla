--------------------------------- MODULE Packed ---------------------------------
(***************************************************************************)
(* Compact coordinates and rotations.                                      *)
(*                                                                         *)
(* A component is a whole number, held as its two's complement bits, least *)
(* significant first, in the smallest width that holds it.  A position is  *)
(* stored in one of three forms:                                           *)
(*   scaled    the three numbers divided by the scale factor are the       *)
(*             coordinates; used when the smallest coordinate is below 2^52*)
(*   whole     the numbers are the coordinates themselves                  *)
(*   full      three doubles, when a scaled coordinate reaches 2^62 or is  *)
(*             not finite                                                  *)
(* A rotation is three 16 bit angles, each a flag byte and, if it is not   *)
(* zero, the angle; an angle a denotes a * 45 / 8192 degrees.              *)
(***************************************************************************)
EXTENDS Wire, Json
CONSTANTS FAMILY, OTHERS, PART
VARIABLES scale, form, comps
vars == <<scale, form, comps>>

(***************************** components ********************************)
Fill(n, pat) == [i \in 1..n |-> CASE pat = "zero" -> 0 [] pat = "one" -> 1 [] pat = "odd" -> i % 2 [] pat = "even" -> (i + 1) % 2
                                     [] pat = "top" -> (IF i = n THEN 1 ELSE 0) [] OTHER -> (IF i = 1 THEN 1 ELSE 0)]
Pats == {"zero", "one", "odd", "even", "top", "low"}
\* all numbers of exactly this width (sign bit differs from the one below it) with a patterned rest
OfWidth(w) == IF w = 1 THEN {<<0>>, <<1>>}
              ELSE {Tup(Fill(w - 2, p) \o (IF s = 0 THEN <<1, 0>> ELSE <<0, 1>>)) : p \in Pats, s \in {0, 1}}
Width(c) == Len(c)
MinusPow(c) == \A i \in 1..(Len(c) - 1) : c[i] = 0  \* 0 or -2^(w-1)
LowSet(c) == IF \E i \in 1..Len(c) : c[i] = 1 THEN CHOOSE i \in 1..Len(c) : c[i] = 1 /\ \A j \in 1..(i - 1) : c[j] = 0 ELSE 1
\* representable as a double: at most 53 significant bits
Significant(c) == Len(c) - LowSet(c) =< 53
\* below 2^52 in magnitude
Small(c) == Len(c) < 53 \/ (Len(c) = 53 /\ ~MinusPow(c))

Log2Up(s) == IF s = 1 THEN 0 ELSE IF s = 2 THEN 1 ELSE IF s <= 16 THEN 4 ELSE IF s <= 128 THEN 7 ELSE 10

\* the three numbers are what the format stores for the coordinates they denote
Storable == 
  CASE form = "scaled" -> /\ \A i \in 1..Len(comps) : Significant(comps[i]) /\ ~(Width(comps[i]) = 63 /\ MinusPow(comps[i]))
                          \* the nearest double to c / 10 is taken back to c if c has at most 52 significant bits
                          /\ scale = 10 => \A i \in 1..Len(comps) : Len(comps[i]) - LowSet(comps[i]) <= 51
                          /\ scale \notin {1, 2, 10} => \A i \in 1..Len(comps) : Width(comps[i]) <= 50
                          /\ Len(comps) = 3 => \E i \in 1..3 : Small(comps[i])
    [] form = "whole" -> \A i \in 1..Len(comps) : ~Small(comps[i]) /\ Significant(comps[i]) /\ Width(comps[i]) + Log2Up(scale) < 63
    [] OTHER -> TRUE

(******************************** storing ********************************)
Extend(c, n) == Tup([i \in 1..n |-> IF i <= Len(c) THEN c[i] ELSE c[Len(c)]])
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
BytesOf(bits) == Tup([k \in 1..(Len(bits) \div 8) |-> FoldLeft(LAMBDA a, j : a + Pow2[j] * bits[8 * (k - 1) + j], 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)])
Octets(w) == (w + 7) \div 8
StoreComps(cs, scaled) ==
  LET w == Max({Width(cs[i]) : i \in 1..3}) IN
  LE(w + (IF scaled THEN 64 ELSE 0), 4) \o FoldLeft(LAMBDA a, c : a \o BytesOf(Extend(c, 8 * Octets(w))), <<>>, cs)
Stored == IF form = "full" THEN LE(64, 4) \o comps[1] \o comps[2] \o comps[3] ELSE StoreComps(comps, form = "scaled")

(******************************** reading ********************************)
BitsOf(bs) == Tup([i \in 1..(8 * Len(bs)) |-> (bs[1 + ((i - 1) \div 8)] \div Pow2[1 + ((i - 1) % 8)]) % 2])
RECURSIVE Shrink(_)
Shrink(c) == IF Len(c) > 1 /\ c[Len(c)] = c[Len(c) - 1] THEN Shrink(SubSeq(c, 1, Len(c) - 1)) ELSE c
ReadBack(b) ==
  LET w == b[1] % 64  more == b[1] \div 64  o == Octets(w) IN
  IF w = 0 THEN <<"full", SubSeq(b, 5, 12), SubSeq(b, 13, 20), SubSeq(b, 21, 28)>>
  ELSE <<IF more = 1 THEN "scaled" ELSE "whole">> \o
       Tup([i \in 1..3 |-> Shrink(SubSeq(BitsOf(SubSeq(b, 5 + (i - 1) * o, 4 + i * o)), 1, w))])

(******************************* coverage ********************************)
Scales == CASE FAMILY = "whole" -> {1, 10, 100} [] FAMILY = "full" -> {1, 2, 10, 100} [] OTHER -> IF OTHERS = "two" THEN {1, 10, 100} ELSE {1, 2, 7, 10, 100, 1000}
Zero == <<0>>
MinusOne == <<1>>
Others == IF OTHERS = "two" THEN {<<0>>, <<1, 0, 1>>} ELSE IF OTHERS = "few" THEN {<<0>>, <<1>>, <<1, 0, 1>>} ELSE {<<0>>, <<1>>, <<1, 0>>, <<0, 1>>, <<1, 0, 1>>, Tup(Fill(20, "odd") \o <<1, 0>>), Tup(Fill(31, "one") \o <<1, 0>>), Tup(Fill(51, "zero") \o <<0, 1>>), Tup(Fill(50, "one") \o <<1, 0>>)}
Widths == {w \in 1..63 : w % 8 = PART}
All == UNION {OfWidth(w) : w \in Widths}
AllWhole == UNION {OfWidth(w) : w \in 53..62}
\* doubles: an exponent (0..2047), the mantissa pattern and the sign
Double(e, m, s) ==
  LET man == Tup(Fill(52, m))  bits == man \o Tup([i \in 1..11 |-> (e \div (IF i = 11 THEN 1024 ELSE IF i = 10 THEN 512 ELSE IF i = 9 THEN 256 ELSE Pow2[i])) % 2]) \o <<s>>
  IN BytesOf(bits)
\* exponents for which |x| * scale >= 2^62
Log2Down == CASE scale = 1 -> 0 [] scale = 2 -> 1 [] scale = 10 -> 3 [] OTHER -> 6
BigE == {1085 - Log2Down, 1086 - Log2Down, 1085, 1086, 1100, 1500, 2046}
AnyE == {0, 1, 1000, 1022, 1023, 1074, 1075, 1076, 1084, 1085, 2046}
NonFinite == {Double(2047, "zero", 0), Double(2047, "zero", 1), Double(2047, "top", 0)}
HugeD == {Double(e, m, s) : e \in BigE, m \in {"zero", "one", "odd"}, s \in {0, 1}} \union NonFinite
AnyD == {Double(e, m, s) : e \in AnyE, m \in {"zero", "one", "odd"}, s \in {0, 1}} \union NonFinite

Init == /\ scale \in Scales /\ form = FAMILY /\ comps = <<>>
\* the interesting component takes each of the three places
Special(x) == LET n == Cardinality({i \in 1..Len(comps) : comps[i] \notin Others}) IN x \notin Others => n = 0
Next == /\ Len(comps) < 3
        /\ UNCHANGED <<scale, form>>
        /\ CASE form = "scaled" -> \E x \in All \union Others : /\ Special(x) /\ comps' = Append(comps, x)
             [] form = "whole" -> \E x \in (IF Len(comps) = PART THEN AllWhole ELSE {}) \union {Tup(Fill(52, "zero") \o <<1, 0>>), Tup(Fill(52, "zero") \o <<1>>), Tup(Fill(53, "even") \o <<1, 0>>)} :
                     comps' = Append(comps, x)
             [] OTHER -> \E x \in (IF Len(comps) = PART THEN HugeD ELSE {Double(0, "zero", 0), Double(1084, "one", 1), Double(1000, "odd", 0), Double(2046, "zero", 1)}
                                     \union (IF Len(comps) = (PART + 1) % 3 /\ OTHERS # "two" THEN AnyD ELSE {})) :
                     comps' = Append(comps, x)
Within == Storable

\* what is stored reads back as the same numbers in the same form, in the smallest width
Faithful == (Len(comps) = 3 /\ Storable) =>
  /\ ReadBack(Stored) = <<form>> \o comps
  /\ form # "full" => \A i \in 1..3 : Width(comps[i]) <= Stored[1] % 64
  /\ form # "full" => \E i \in 1..3 : Width(comps[i]) = Stored[1] % 64
Hand(x) == PrintT("VEC " \o ToJson(x))
Emit == (Len(comps) = 3 /\ Storable) => Hand(<<"packed", scale, form, comps, Stored>>)

(****************************** rounding *********************************)
\* coordinates that are not a whole number of steps: q quarter steps (never half way)
NInit == scale \in {1, 2, 10, 100} /\ form = "near" /\ comps = <<>>
BinPow == {1, 2, 4, 8, 16, 64, 128, 256, 1024, 32768, 65536, 8388608, 16777216, 268435456}
Near == {q \in UNION {{x * s + d : d \in -5..5, s \in {-1, 1}} : x \in {4 * y : y \in {z \in BinPow : z < 100000000}}} \union (-9..9) : q % 4 # 2}
NNext == Len(comps) < 3 /\ UNCHANGED <<scale, form>> /\ \E q \in (IF Len(comps) = PART THEN Near ELSE {5, -7}) : comps' = Append(comps, q)
Nearest(q) == (q + 1) \div 4
RECURSIVE Bits(_)
\* two's complement, smallest width
Bits(n) == IF n = 0 THEN <<0>> ELSE IF n = -1 THEN <<1>> ELSE <<n % 2>> \o Bits((n - (n % 2)) \div 2)
NearStored == StoreComps(FMap(comps, LAMBDA q : Bits(Nearest(q))), TRUE)
NEmit == Len(comps) = 3 => Hand(<<"near", scale, comps, FMap(comps, Nearest), NearStored>>)

(****************************** rotations ********************************)
AngleBytes(a) == IF a = 0 THEN <<0>> ELSE <<1>> \o LE(a, 2)
RotBytes(r) == AngleBytes(r[1]) \o AngleBytes(r[2]) \o AngleBytes(r[3])
RdAngle(b, p) == IF b[p] = 0 THEN <<0, p + 1>> ELSE <<b[p + 1] + 256 * b[p + 2], p + 3>>
RdRot(b) == LET x == RdAngle(b, 1)  y == RdAngle(b, x[2])  z == RdAngle(b, y[2]) IN <<x[1], y[1], z[1]>>
\* comps here is the sequence of rotations handed over together: 256 values of one angle
RInit == /\ form = "rotation" /\ scale \in 1..256
         /\ comps = Tup([i \in 1..256 |-> LET a == 256 * (scale - 1) + i - 1 IN
              CASE PART = 0 -> <<a, 0, 0>> [] PART = 1 -> <<0, a, 0>> [] PART = 2 -> <<0, 0, a>> [] PART = 3 -> <<a, (a * 3 + 1) % 65536, 65535 - a>>
                [] PART = 4 -> <<(a + 32768) % 65536, 0, a>> [] OTHER -> <<0, a, (a * 5) % 65536>>])
RNext == FALSE /\ UNCHANGED vars
RFaithful == \A i \in 1..256 : RdRot(RotBytes(comps[i])) = comps[i]
REmit == Hand(<<"rotation", comps, FMap(comps, RotBytes)>>)
===============================================================================
