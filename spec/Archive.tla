-------------------------------- MODULE Archive ---------------------------------
(***************************************************************************)
(* The archive: a writer to which typed values are appended and whose bytes*)
(* may be looked at any time, and a reader over (possibly shortened) bytes *)
(* with a position, typed reads, raw reads, skips and the end test.        *)
(*                                                                         *)
(* A value is <<type, content>>: numbers are their bytes, text its code    *)
(* units, an array <<element type, contents>>.                             *)
(***************************************************************************)
EXTENDS Wire, Json
CONSTANTS FAMILY, W, R, SEED
VARIABLES phase, out, wlog, data, pos, todo, rlog
vars == <<phase, out, wlog, data, pos, todo, rlog>>

Fixed == [i16 |-> 2, u16 |-> 2, i32 |-> 4, u32 |-> 4, i64 |-> 8, u64 |-> 8, float |-> 4, double |-> 8, byte |-> 1, u |-> 1, guid |-> 16,
          vector |-> 24, vector_dict |-> 24, quat |-> 32, quat_dict |-> 32, ftransform |-> 80, instance_id |-> 32, uuid |-> 16]
IsFixed(t) == t \in DOMAIN Fixed

RECURSIVE Enc(_, _)
Enc(t, v) ==
  CASE t = "bool" -> <<v>>
    [] t = "fstring" -> FStr(v)
    [] t = "optional_guid" -> IF v = <<>> THEN <<0>> ELSE <<1>> \o v
    [] t = "tarray" -> LE(Len(v[2]), 4) \o FoldLeft(LAMBDA a, x : a \o Enc(v[1], x), <<>>, v[2])
    [] t = "raw" -> v
    [] OTHER -> v

RECURSIVE Rd(_, _, _, _), RdMany(_, _, _, _, _)
\* e: the element type of an array
Rd(t, e, b, p) ==
  CASE t = "bool" -> LET r == Take(b, p, 1) IN IF OkP(r) THEN Ok(r[2][1], p + 1) ELSE Fail
    [] t = "fstring" -> RdFStr(b, p)
    [] t = "optional_guid" -> LET r == RdOptId(b, p) IN IF OkP(r) THEN Ok(IF r[2][1] = "n" THEN <<>> ELSE r[2][2], r[3]) ELSE Fail
    [] t = "tarray" -> LET r == RdCount(b, p) IN IF OkP(r) THEN RdMany(e, r[2], b, r[3], <<>>) ELSE Fail
    [] OTHER -> Take(b, p, Fixed[t])
RdMany(e, n, b, p, acc) ==
  IF n = 0 THEN Ok(<<e, acc>>, p)
  ELSE LET r == Rd(e, "", b, p) IN IF OkP(r) THEN RdMany(e, n - 1, b, r[3], Append(acc, r[2])) ELSE Fail

(****************************** the values *******************************)
Up(n, from) == Tup([i \in 1..n |-> (from + i - 1) % 256])
Ints(k) == {Zeros(k), Tup([i \in 1..k |-> 255]), LE(1, k), [Zeros(k) EXCEPT ![k] = 128], [Tup([i \in 1..k |-> 255]) EXCEPT ![k] = 127], Up(k, 1), Up(k, 249), [Zeros(k) EXCEPT ![1] = 128]}
Floats == {Zeros(4), <<0, 0, 0, 128>>, <<0, 0, 128, 63>>, <<0, 0, 128, 191>>, <<1, 0, 0, 0>>, <<255, 255, 127, 127>>, <<0, 0, 128, 127>>, <<0, 0, 128, 255>>, <<0, 0, 192, 127>>, <<205, 204, 204, 61>>, <<1, 2, 3, 4>>}
Doubles == {Zeros(8), Zeros(7) \o <<128>>, Zeros(6) \o <<240, 63>>, LE(1, 8), <<255, 255, 255, 255, 255, 255, 239, 127>>, Zeros(6) \o <<240, 127>>, Zeros(6) \o <<240, 255>>, Zeros(6) \o <<248, 127>>,
            <<154, 153, 153, 153, 153, 153, 185, 63>>, Up(8, 1)}
DSeq(n, shift) == LET ds == SetToSeq(Doubles) IN FoldLeft(LAMBDA a, i : a \o ds[1 + ((i * 3 + shift) % Len(ds))], <<>>, Tup([i \in 1..n |-> i]))
Texts == {<<>>, U("a"), U("None"), <<97, 0, 98>>, <<127>>, <<128>>, <<233, 97>>, <<55357, 56832>>, <<55296>>, <<57343, 65535>>, <<0>>, <<10, 13, 9>>, Tup([i \in 1..40 |-> 97]), Tup([i \in 1..40 |-> 12354])}
Guids == {Zeros(16), Up(16, 1), Up(16, 240), Tup([i \in 1..16 |-> 255])}
Plain(t) == CASE t \in {"i16", "u16"} -> Ints(2) [] t \in {"i32", "u32"} -> Ints(4) [] t \in {"i64", "u64"} -> Ints(8) [] t \in {"byte", "u"} -> Ints(1)
              [] t = "float" -> Floats [] t = "double" -> Doubles [] t = "bool" -> {0, 1} [] t = "fstring" -> Texts [] t \in {"guid", "uuid"} -> Guids
              [] t = "optional_guid" -> {<<>>} \union Guids [] t \in {"vector", "vector_dict"} -> {DSeq(3, i) : i \in 0..9} [] t \in {"quat", "quat_dict"} -> {DSeq(4, i) : i \in 0..9}
              [] t = "ftransform" -> {DSeq(10, i) : i \in 0..4} [] t = "instance_id" -> {Up(32, 7)} [] t = "raw" -> {<<>>, <<0>>, Up(5, 9), Up(40, 3)}
              [] OTHER -> {}
ElemTypes == {"byte", "i16", "u32", "i64", "float", "fstring", "guid", "bool", "vector", "optional_guid", "ftransform"}
First(S) == CHOOSE x \in S : TRUE
Arrays == {<<e, <<>>>> : e \in {"byte", "guid"}} \union {<<e, SetToSeq(Plain(e))>> : e \in ElemTypes} \union {<<e, <<First(Plain(e))>>>> : e \in ElemTypes}
Types == (DOMAIN Fixed) \union {"bool", "fstring", "optional_guid", "tarray"}
Values(t) == IF t = "tarray" THEN Arrays ELSE Plain(t)
AllValues == UNION {{<<t, v>> : v \in Values(t)} : t \in Types \union {"raw"}}
FewValues == {<<"u16", <<1, 2>>>>, <<"bool", 1>>, <<"fstring", U("ab")>>, <<"fstring", <<233>>>>, <<"guid", Up(16, 1)>>, <<"tarray", <<"u32", <<Up(4, 1), Up(4, 250)>>>>>>,
              <<"double", <<154, 153, 153, 153, 153, 153, 185, 63>>>>, <<"optional_guid", <<>>>>, <<"raw", <<5, 6, 7>>>>}
Offer == CASE FAMILY = "one" -> AllValues [] FAMILY = "few" -> FewValues
           [] OTHER -> LET ts == Types \union {"raw"} IN LET t == RandomElement(ts) IN {<<t, RandomElement(Values(t))>>}

(****************************** the writer *******************************)
Init == /\ phase = "write" /\ out = <<>> /\ wlog = <<>> /\ data = <<>> /\ pos = 1 /\ todo = <<>> /\ rlog = <<>>
Wrote == Len(todo)
Write == /\ phase = "write" /\ Wrote < W
         /\ \E x \in Offer :
              LET b == Enc(x[1], x[2]) IN
              /\ out' = out \o b
              /\ wlog' = Append(wlog, <<"put", x[1], x[2], Len(b)>>)
              /\ todo' = Append(todo, x)
         /\ UNCHANGED <<phase, data, pos, rlog>>
\* looking at the bytes, or starting a fresh writer from this one, changes nothing
Look == /\ phase = "write" /\ FAMILY # "one"
        /\ IF FAMILY = "few" THEN \A i \in 1..Len(wlog) : wlog[i][1] = "put" ELSE IF wlog = <<>> THEN TRUE ELSE wlog[Len(wlog)][1] = "put"
        /\ \E q \in (IF FAMILY = "few" THEN {"peek"} ELSE {"peek", "copy"}) : wlog' = Append(wlog, <<q, out>>)
        /\ UNCHANGED <<phase, out, data, pos, todo, rlog>>
Cuts == IF FAMILY = "one" THEN 0..Len(out) ELSE IF FAMILY = "few" THEN {Len(out), Len(out) - 1, Len(out) - 3} \intersect (0..Len(out))
        ELSE IF RandomElement(1..3) = 1 THEN {RandomElement(0..Len(out))} ELSE {Len(out)}
Open == /\ phase = "write" /\ Wrote = W
        /\ \E n \in Cuts : data' = SubSeq(out, 1, n)
        /\ phase' = "read"
        /\ UNCHANGED <<out, wlog, pos, todo, rlog>>

(****************************** the reader *******************************)
Left == Len(data) - pos + 1
Done(entry, ok, p) == /\ rlog' = Append(rlog, entry)
                      /\ pos' = IF ok THEN p ELSE pos
                      /\ phase' = IF ok THEN "read" ELSE "failed"
Typed(t, e) == LET r == Rd(t, e, data, pos) IN
               Done(<<"get", t, e, IF OkP(r) THEN <<"ok", r[2]>> ELSE <<"fail">>>>, OkP(r), IF OkP(r) THEN r[3] ELSE pos)
Elem(x) == IF x[1] = "tarray" THEN x[2][1] ELSE ""
\* the next value as it was written (raw bytes are read raw)
Next1 == /\ todo # <<>>
         /\ LET x == todo[1] IN
            IF x[1] = "raw" THEN LET n == IF Len(x[2]) <= Left THEN Len(x[2]) ELSE Left IN Done(<<"read", Len(x[2]), SubSeq(data, pos, pos + n - 1)>>, TRUE, pos + n)
            ELSE Typed(x[1], Elem(x))
         /\ todo' = SubSeq(todo, 2, Len(todo))
\* the next value is passed over without being looked at
Pass == /\ todo # <<>>
        /\ LET n == Len(Enc(todo[1][1], todo[1][2])) IN
           /\ n <= Left
           /\ \E how \in {"skip", "read", "list"} : Done(IF how = "skip" THEN <<"skip", n>> ELSE <<how, n, SubSeq(data, pos, pos + n - 1)>>, TRUE, pos + n)
        /\ todo' = SubSeq(todo, 2, Len(todo))
\* some bytes, or none, are passed over, wherever a value may begin or end
Part == /\ FAMILY # "one"
        /\ IF rlog = <<>> THEN TRUE ELSE rlog[Len(rlog)][1] \notin {"skip", "read", "list"}
        /\ \E n \in (IF FAMILY = "few" THEN {0} ELSE {0, RandomElement(0..Left)}), how \in {"skip", "read", "list"} :
             /\ Done(IF how = "skip" THEN <<"skip", n>> ELSE <<how, n, SubSeq(data, pos, pos + n - 1)>>, TRUE, pos + n)
             /\ IF n = 0 THEN UNCHANGED todo ELSE todo' = <<>>
\* a number from wherever the position is
Anywhere == /\ FAMILY = "random" /\ todo = <<>>
       /\ \E t \in {"byte", "u16", "i32", "u64", "guid", "u", "i16", "u32", "i64"} : Fixed[t] <= Left /\ Typed(t, "")
       /\ UNCHANGED todo
Rest == /\ FAMILY # "one" /\ Done(<<"rest", SubSeq(data, pos, Len(data))>>, TRUE, Len(data) + 1) /\ todo' = <<>>
Eof == /\ IF rlog = <<>> THEN TRUE ELSE rlog[Len(rlog)][1] # "eof"
       /\ Done(<<"eof", Left = 0>>, TRUE, pos) /\ UNCHANGED todo
TooFar == /\ CASE FAMILY = "one" -> todo = <<>> [] OTHER -> Len(rlog) = R - 1
          /\ \/ Done(<<"list", Left + 1, <<"fail">>>>, FALSE, pos)
             \/ \E t \in (IF FAMILY = "few" THEN {"u16", "u64", "guid", "fstring", "bool", "vector_dict", "tarray"} ELSE Types) : LET r == Rd(t, "byte", data, pos) IN /\ Left < 16 /\ ~OkP(r) /\ Done(<<"get", t, "byte", <<"fail">>>>, FALSE, pos)
          /\ UNCHANGED todo
Read == /\ phase = "read" /\ Len(rlog) < R
        /\ Next1 \/ Pass \/ Part \/ Anywhere \/ Rest \/ Eof \/ TooFar
        /\ UNCHANGED <<out, wlog, data>>
Close == /\ (phase = "read" /\ Len(rlog) = R) \/ phase = "failed"
         /\ phase' = "done"
         /\ UNCHANGED <<out, wlog, data, pos, todo, rlog>>
Next == Write \/ Look \/ Open \/ Read \/ Close

(***************************** properties ********************************)
\* what has been written reads back, value by value, using up exactly its bytes
RECURSIVE AllBack(_, _)
AllBack(xs, p) == IF xs = <<>> THEN p = Len(out) + 1
                  ELSE LET x == xs[1] IN
                       IF x[1] = "raw" THEN AllBack(SubSeq(xs, 2, Len(xs)), p + Len(x[2]))
                       ELSE LET r == Rd(x[1], Elem(x), out, p) IN OkP(r) /\ r[2] = x[2] /\ AllBack(SubSeq(xs, 2, Len(xs)), r[3])
ReadsBack == phase = "write" => AllBack(todo, 1)
InData == pos \in 1..(Len(data) + 1)
Hand(x) == PrintT("VEC " \o ToJson(x))
Emit == phase = "done" => Hand(<<"archive", wlog, data, rlog>>)
===============================================================================
