---------------------------------- MODULE Guid ----------------------------------
(***************************************************************************)
(* Identifiers.  Two identifiers are made (from bytes, from text or read   *)
(* from an archive) and then asked questions, in any order; the answers    *)
(* depend only on their sixteen stored bytes.                              *)
(***************************************************************************)
EXTENDS Wire, Json
CONSTANTS K, VALUES
VARIABLES vals, made, hist
vars == <<vals, made, hist>>

HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex(bs) == FoldLeft(LAMBDA acc, x : acc \o HexDigit[1 + (x \div 16)] \o HexDigit[1 + (x % 16)], "", bs)
\* the text form of sixteen stored bytes
Shown(b) == GuidShown(b)
TextOf(b) == LET s == Shown(b) IN
  Hex(SubSeq(s, 1, 4)) \o "-" \o Hex(SubSeq(s, 5, 6)) \o "-" \o Hex(SubSeq(s, 7, 8)) \o "-" \o Hex(SubSeq(s, 9, 10)) \o "-" \o Hex(SubSeq(s, 11, 16))

Count == Tup([i \in 1..16 |-> i])
Mixed == <<171, 205, 239, 1, 254, 220, 186, 152, 10, 160, 11, 176, 12, 192, 13, 208>>
OneAt(i, x) == [Zeros(16) EXCEPT ![i] = x]
FFAt(i, x) == [j \in 1..16 |-> IF j = i THEN x ELSE 255]
SomeValues == {<<Count, Count>>, <<Count, Reverse(Count)>>, <<Mixed, Mixed>>, <<Zeros(16), Zeros(16)>>, <<Zeros(16), OneAt(1, 1)>>,
               <<Mixed, [Mixed EXCEPT ![16] = 209]>>, <<Count, Shown(Count)>>}
Neighbours == {<<OneAt(i, x), OneAt(j, x)>> : i \in 1..16, j \in 1..16, x \in {1, 16, 171}}
              \union {<<Tup(FFAt(i, x)), Mixed>> : i \in 1..16, x \in {0, 15, 240, 127}}
              \union {<<OneAt(i, x), OneAt(i, y)>> : i \in 1..16, x \in {10, 128}, y \in {138, 255, 128}}
FewValues == {<<Count, Count>>, <<Mixed, [Mixed EXCEPT ![16] = 209]>>, <<Zeros(16), Zeros(16)>>}
ValueSet == CASE VALUES = "some" -> SomeValues [] VALUES = "few" -> FewValues [] OTHER -> Neighbours

Makings == {"bytes", "text", "upper", "guid", "optional", "reader", "instance"}
Objs == {1, 2}
\* what can be compared with an identifier: representations of either value
Reps == {"id", "uuid", "text", "upper", "bare", "bytes"}
Ask(o) == {<<q, o>> : q \in {"str", "uuid", "hash", "repr", "json", "write", "writetext", "writeuuid", "writeupper", "raw", "optional"}}
          \union {<<"eq", o, r, p>> : r \in Reps, p \in Objs} \union {<<"ne", o, r, p>> : r \in {"id", "uuid", "text"}, p \in Objs}
          \union {<<"req", o, r, p>> : r \in {"uuid", "text"}, p \in Objs}
          \union {<<"none", o>>, <<"dict", o>>}
Questions == Ask(1) \union {<<"str", 2>>, <<"uuid", 2>>, <<"hash", 2>>, <<"eq", 2, "id", 1>>, <<"eq", 2, "text", 1>>, <<"write", 2>>}
Digits(b) == \A x \in ToSet(b) : (x % 16) < 10 /\ (x \div 16) < 10
Equal(r, b, other) == /\ TextOf(b) = TextOf(other)
                      /\ \/ r \in {"id", "uuid", "text"}
                         \/ r = "upper" /\ Digits(b)
Answer(q) ==
  LET b == vals[q[2]] IN
  CASE q[1] \in {"str", "json"} -> TextOf(b)
    [] q[1] = "uuid" -> Shown(b)
    [] q[1] \in {"write", "writetext", "writeuuid", "writeupper", "raw"} -> b
    [] q[1] = "optional" -> <<1>> \o b
    [] q[1] \in {"eq", "req"} -> Equal(q[3], b, vals[q[4]])
    [] q[1] = "ne" -> ~Equal(q[3], b, vals[q[4]])
    [] q[1] = "repr" -> TextOf(b)
    [] q[1] \in {"none"} -> FALSE
    [] q[1] = "dict" -> vals[1] = vals[2]
    [] OTHER -> "?"

Init == /\ vals \in ValueSet
        /\ made \in IF VALUES = "few" /\ K > 2 THEN {<<"bytes", "text">>, <<"guid", "bytes">>} ELSE {<<m, "bytes">> : m \in Makings}
        /\ hist = <<>>
Next == /\ Len(hist) < K
        /\ UNCHANGED <<vals, made>>
        /\ \E q \in Questions : hist' = Append(hist, q)
\* every question once, for the neighbouring values
AllSeq == SetToSeq(Questions)
InitAll == /\ vals \in ValueSet /\ hist = AllSeq
           /\ made \in {<<m, "bytes">> : m \in Makings}
NextNone == FALSE /\ UNCHANGED vars

\* distinct values have distinct texts and the text determines the value
Injective == (TextOf(vals[1]) = TextOf(vals[2])) <=> (vals[1] = vals[2])
Involution == \A i \in Objs : Shown(Shown(vals[i])) = vals[i]
Hand(x) == PrintT("VEC " \o ToJson(x))
Emit == Len(hist) >= K => Hand(<<"guid", vals, made, FMap(hist, LAMBDA q : <<q, Answer(q)>>), FMap(vals, TextOf), FMap(vals, Shown)>>)
===============================================================================
