---------------------------------- MODULE Palsav ----------------------------------
(***************************************************************************)
(* The SAV container.  Data are terms:                                     *)
(*   <<"P", class>>             a payload of a class (not a zlib stream)   *)
(*   <<"Z", level, t>>          t compressed                               *)
(*   <<"cut", n, t>>            t without its last n bytes                 *)
(*   <<"tail", n, t>>           t followed by n more bytes                 *)
(*   <<"flip", where, t>>       t with one byte changed                    *)
(* and a container is the record of what its fields say.  Declared lengths *)
(* are <<term, offset>>: the length of that term plus an offset.  Distinct *)
(* terms have distinct lengths; the replay skips the cases where they      *)
(* happen not to.                                                          *)
(*                                                                         *)
(* Behaviours: a container made by the tool or by the game, damaged up to  *)
(* K times (FAMILY "faults"), or read and written again up to K times      *)
(* (FAMILY "cycle").                                                       *)
(***************************************************************************)
EXTENDS Wire, Json
CONSTANTS K, PAYLOADS, FAMILY
VARIABLES c, k, was
vars == <<c, k, was>>

PayloadSet ==
  CASE PAYLOADS = "one" -> {<<"P", "text">>}
    [] PAYLOADS = "some" -> {<<"P", x>> : x \in {"empty", "text", "random"}} \union {<<"Z", 6, <<"P", "text">>>>}
    [] PAYLOADS = "all" -> {<<"P", x>> : x \in {"empty", "one", "zero", "text", "magic", "random", "random64k", "zeros1m", "header",
                                               "len255", "len256", "len65535", "len65536", "big", "noise", "save"}}
                           \union {<<"Z", 6, <<"P", "text">>>>, <<"Z", 6, <<"Z", 6, <<"P", "random">>>>>>}

Single == 49
Double == 50
Body(ty, lv, p) == IF ty = Double THEN <<"Z", lv, <<"Z", lv, p>>>> ELSE <<"Z", lv, p>>
\* the container a save type demands; chunk = how many chunk headers precede it
Make(p, ty, lv, chunk) ==
  [chunk |-> chunk, ulen |-> <<p, 0>>, clen |-> <<(<<"Z", lv, p>>), 0>>, magic |-> "PlZ", type |-> ty,
   body |-> Body(ty, lv, p), head |-> -1]

(***************************************************************************)
(* Reading                                                                 *)
(***************************************************************************)
\* <<verdict, term>>: "ok", "any" (intact data followed by something), "no"
Inflate(t) ==
  CASE t[1] = "Z" -> <<"ok", t[3]>>
    [] t[1] = "tail" /\ t[3][1] = "Z" -> <<"any", t[3][3]>>
    [] OTHER -> <<"no">>
Matches(decl, t) == decl = <<t, 0>>
Read(x) ==
  LET a == Inflate(x.body)
      b == IF a[1] = "no" THEN <<"no">> ELSE Inflate(a[2])
      either(u, v) == IF u = "any" \/ v = "any" THEN "any" ELSE "ok"
  IN CASE x.head >= 0 -> <<"no">>
       [] x.chunk > 1 -> <<"no">>
       [] x.magic # "PlZ" -> <<"no">>
       [] x.type \notin {Single, Double} -> <<"no">>
       [] a[1] = "no" -> <<"no">>
       [] x.type = Single -> IF Matches(x.clen, x.body) /\ Matches(x.ulen, a[2]) THEN <<a[1], a[2]>> ELSE <<"no">>
       [] OTHER -> IF b[1] = "no" THEN <<"no">>
                   ELSE IF Matches(x.clen, a[2]) /\ Matches(x.ulen, b[2]) THEN <<either(a[1], b[1]), b[2]>> ELSE <<"no">>

(***************************************************************************)
(* Damage                                                                  *)
(***************************************************************************)
Offsets == {1, -1, 256, -256, 65536, 16777216, 12, -12}
Lens(x) == {<<x.ulen[1], d>> : d \in Offsets} \union {<<x.clen[1], d>> : d \in Offsets}
           \union {x.ulen, x.clen, <<x.body, 0>>, <<(<<"P", "empty">>), 0>>}
Magics == {"PlZ", "plz", "PlX", "QlZ", "PkZ", "ZlP", "CNK", "nul", "PLZ"}
Types == {0, 1, 2, 47, 48, 49, 50, 51, 128 + 49, 128 + 50, 255}
\* (one damage per stream, so that every wrapped term wraps an intact stream)
Wrap(t) == IF t[1] # "Z" THEN {} ELSE
           {<<"cut", n, t>> : n \in {1, 2, 4, 5, 1000000}} \union {<<"tail", n, t>> : n \in {1, 4, 12}}
           \union {<<"flip", w, t>> : w \in {"first", "second", "third", "middle", "adler4", "adler1"}}
Faults(x) ==
  {[x EXCEPT !.magic = m] : m \in Magics}
  \union {[x EXCEPT !.type = t] : t \in Types}
  \union {[x EXCEPT !.ulen = l] : l \in Lens(x)}
  \union {[x EXCEPT !.clen = l] : l \in Lens(x)}
  \union {[x EXCEPT !.body = b] : b \in Wrap(x.body)}
  \* damage to the data with the declared length kept in step
  \union {[x EXCEPT !.body = b, !.clen = <<b, 0>>] : b \in IF x.type = Single THEN Wrap(x.body) ELSE {}}
  \* damage to the once-compressed data
  \union {[x EXCEPT !.body = <<"Z", 6, b>>, !.clen = <<b, 0>>] :
             b \in IF x.type = Double /\ x.body[1] = "Z" THEN Wrap(x.body[3]) ELSE {}}
  \union {[x EXCEPT !.body = <<"Z", 6, b>>] :
             b \in IF x.type = Double /\ x.body[1] = "Z" THEN Wrap(x.body[3]) ELSE {}}
  \* one compression too many or too few
  \union {[x EXCEPT !.body = <<"Z", 6, x.body>>]}
  \union (IF x.body[1] = "Z" THEN {[x EXCEPT !.body = x.body[3]]} ELSE {})
  \union {[x EXCEPT !.chunk = x.chunk + 1]}
  \union {[x EXCEPT !.head = n] : n \in IF x.chunk > 0 THEN 0..(12 * (x.chunk + 1)) ELSE 0..12}

(***************************************************************************)
Levels == {0, 1, 6, 9, -1}      \* -1: whatever the tool does
Init == /\ k = 0
        /\ \E p \in PayloadSet, ty \in {Single, Double} :
             /\ was = <<p, ty>>
             /\ IF FAMILY = "cycle" THEN \E lv \in Levels, ch \in {0, 1} : (lv = -1 => ch = 0) /\ (p = <<"P", "noise">> => lv = -1) /\ c = Make(p, ty, lv, ch)
                ELSE \E ch \in {0, 1} : c = Make(p, ty, 6, ch)
\* read the container and write the payload with some save type
Again == LET r == Read(c) IN
         /\ r[1] = "ok"
         /\ \E ty \in {Single, Double} : c' = Make(r[2], ty, -1, 0) /\ was' = <<r[2], ty>>
Next == /\ k < IF was[1] = <<"P", "noise">> THEN 1 ELSE K
        /\ k' = k + 1
        /\ IF FAMILY = "cycle" THEN Again ELSE c' \in Faults(c) /\ was' = was

\* an undamaged container gives the payload back
Undamaged == (k = 0 \/ FAMILY = "cycle") => Read(c) = <<"ok", was[1]>> /\ c.type = was[2]
\* what is accepted is consistent
Consistent == LET r == Read(c) IN
  r[1] # "no" => /\ c.magic = "PlZ" /\ c.type \in {Single, Double} /\ c.ulen = <<r[2], 0>>
                 /\ c.clen[2] = 0
Hand(x) == PrintT("VEC " \o ToJson(x))
Emit == Hand(<<FAMILY, k, c, Read(c)>>)
===============================================================================
