---------------------------------- MODULE Gvas ----------------------------------
(***************************************************************************)
(* Documents, their stored form and their export.                          *)
(*                                                                         *)
(* A document is  <<header node, property list, trailer bytes>>.           *)
(*                                                                         *)
(* Nodes (tag first, self-describing):                                     *)
(*   <<"i", prim, bytes>>     integer     <<"f", prim, bytes>>  float       *)
(*   <<"g", bytes16>>         identifier  <<"s", units>>        text        *)
(*   <<"b8", 0|1>> <<"b32", 0|1>>         flag of one / four bytes          *)
(*   <<"r", <<<<key, node>>, ...>>>>      record (key "" = merged in place) *)
(*   <<"a", nodes>>           counted array                                 *)
(*   <<"m", nodes>>           elements up to the end of the data            *)
(*   <<"o", node>> <<"o">>    optional part at the end of the data          *)
(*   <<"t", nodes>>           fixed sequence (a JSON list)                  *)
(*   <<"y", bytes>>           raw bytes, fixed number                       *)
(*   <<"z", bytes>>           raw bytes up to the end of the data           *)
(*   <<"k", json>>            not stored, a constant of the export          *)
(*   <<"P", props>>           property list, ended by "None"                *)
(*   <<"rot", p, y, r>>       compact rotation, three 16 bit angles         *)
(*   <<"pv", w, sc, x, y, z>> compact position, w bits per component        *)
(*   <<"pvd", x, y, z>>       the same in full precision                    *)
(*                                                                         *)
(* Properties (name, property) with property one of                        *)
(*   <<"Int"|"Int64"|"Fixed64"|"Float"|"Str"|"Name", id, node>>            *)
(*   <<"Enum", id, type units, value units>>    <<"Bool", id, 0|1>>         *)
(*   <<"Struct", id, struct type units, struct id, node>>                   *)
(*   <<"ArrV", id, element type, nodes>>        <<"ArrB", id, bytes>>       *)
(*   <<"ArrS", id, name, type, struct type, id of the struct, nodes>>       *)
(*   <<"Map", id, key type, value type, key struct type, value struct type, *)
(*            <<<<key node, value node>>, ...>>>>                           *)
(*   <<"Blob", id, node>>     a byte array holding the encoding of node     *)
(*   <<"Dec", id, json>>      (export only) a decoded byte array            *)
(***************************************************************************)
EXTENDS Wire

NoId == <<"n">>

PrimSize == [u8 |-> 1, i8 |-> 1, i16 |-> 2, u16 |-> 2, i32 |-> 4, u32 |-> 4,
             i64 |-> 8, u64 |-> 8, f32 |-> 4, f64 |-> 8]

PropTypeName == [Int |-> "IntProperty", Int64 |-> "Int64Property",
   Fixed64 |-> "FixedPoint64Property", Float |-> "FloatProperty",
   Str |-> "StrProperty", Name |-> "NameProperty", Enum |-> "EnumProperty",
   Bool |-> "BoolProperty", Struct |-> "StructProperty", ArrV |-> "ArrayProperty",
   ArrB |-> "ArrayProperty", ArrS |-> "ArrayProperty", Blob |-> "ArrayProperty",
   Dec |-> "ArrayProperty", Map |-> "MapProperty"]
PropTypeU == [t \in DOMAIN PropTypeName |-> U(PropTypeName[t])]
NamedPrim == [Int |-> <<"p", "i32">>, Int64 |-> <<"p", "i64">>, Fixed64 |-> <<"p", "i32">>,
              Float |-> <<"fl", "f32">>, Str |-> <<"s">>, Name |-> <<"s">>]
SimpleTypes == DOMAIN NamedPrim
NoneU == U("None")
NoneBytes == FStr(NoneU)

(***************************************************************************)
(* Grammar of the values with a native layout.                             *)
(***************************************************************************)
F64 == <<"fl", "f64">>
F32 == <<"fl", "f32">>
VectorG == <<"r", <<<<"x", F64>>, <<"y", F64>>, <<"z", F64>>>>>>
QuatG == <<"r", <<<<"x", F64>>, <<"y", F64>>, <<"z", F64>>, <<"w", F64>>>>>>
ColorG == <<"r", <<<<"r", F32>>, <<"g", F32>>, <<"b", F32>>, <<"a", F32>>>>>>
TransformG == <<"r", <<<<"rotation", QuatG>>, <<"translation", VectorG>>, <<"scale3d", VectorG>>>>>>
uVector == U("Vector")  uQuat == U("Quat")  uDateTime == U("DateTime")
uGuid == U("Guid")  uLinearColor == U("LinearColor")
StructG(st) == IF st = uVector THEN VectorG
               ELSE IF st = uDateTime THEN <<"p", "u64">>
               ELSE IF st = uGuid THEN <<"g">>
               ELSE IF st = uQuat THEN QuatG
               ELSE IF st = uLinearColor THEN ColorG
               ELSE <<"P">>

uStructProperty == U("StructProperty")  uEnumProperty == U("EnumProperty")
uNameProperty == U("NameProperty")  uIntProperty == U("IntProperty")
uBoolProperty == U("BoolProperty")  uByteProperty == U("ByteProperty")
\* element grammar of map keys and values, <<"bad">> for unsupported types
MapElemG(t, st) == IF t = uStructProperty THEN StructG(st)
                   ELSE IF t = uEnumProperty \/ t = uNameProperty THEN <<"s">>
                   ELSE IF t = uIntProperty THEN <<"p", "i32">>
                   ELSE IF t = uBoolProperty THEN <<"b8">>
                   ELSE <<"bad">>
ArrElemG(t) == IF t = uEnumProperty \/ t = uNameProperty THEN <<"s">>
               ELSE IF t = uGuid THEN <<"g">>
               ELSE <<"bad">>

(***************************************************************************)
(* Stored form.                                                            *)
(***************************************************************************)
EncRot1(a) == IF a = <<0, 0>> THEN <<0>> ELSE <<1>> \o a

RECURSIVE Enc(_), EncProps(_), EncProp(_)
EncAll(ns) == FoldLeft(LAMBDA acc, n : acc \o Enc(n), <<>>, ns)
Enc(n) ==
  LET t == n[1] IN
  CASE t \in {"i", "f"} -> n[3]
    [] t = "g" -> n[2]
    [] t = "s" -> FStr(n[2])
    [] t = "b8" -> <<n[2]>>
    [] t = "b32" -> <<n[2], 0, 0, 0>>
    [] t = "r" -> FoldLeft(LAMBDA acc, f : acc \o Enc(f[2]), <<>>, n[2])
    [] t = "a" -> LE(Len(n[2]), 4) \o EncAll(n[2])
    [] t \in {"m", "t"} -> EncAll(n[2])
    [] t = "o" -> IF Len(n) = 1 THEN <<>> ELSE Enc(n[2])
    [] t \in {"y", "z"} -> n[2]
    [] t = "k" -> <<>>
    [] t = "P" -> EncProps(n[2])
    [] t = "rot" -> EncRot1(n[2]) \o EncRot1(n[3]) \o EncRot1(n[4])
    [] t = "pv" -> LE(n[2] + 64 * n[3], 4) \o n[4] \o n[5] \o n[6]
    [] t = "pvd" -> <<64, 0, 0, 0>> \o n[2] \o n[3] \o n[4]
EncProps(ps) == FoldLeft(LAMBDA acc, q : acc \o FStr(q[1]) \o EncProp(q[2]), <<>>, ps) \o NoneBytes
EncProp(q) ==
  LET t == q[1]
      ty == FStr(PropTypeU[t])
      id == EncOptId(q[2])
  IN CASE t \in SimpleTypes -> LET b == Enc(q[3]) IN ty \o LE(Len(b), 8) \o id \o b
       [] t = "Enum" -> LET b == FStr(q[4]) IN ty \o LE(Len(b), 8) \o FStr(q[3]) \o id \o b
       [] t = "Bool" -> ty \o Zeros(8) \o <<q[3]>> \o id
       [] t = "Struct" -> LET b == Enc(q[5]) IN ty \o LE(Len(b), 8) \o FStr(q[3]) \o q[4] \o id \o b
       [] t = "ArrV" -> LET b == LE(Len(q[4]), 4) \o EncAll(q[4])
                        IN ty \o LE(Len(b), 8) \o FStr(q[3]) \o id \o b
       [] t = "ArrB" -> LET b == LE(Len(q[3]), 4) \o q[3]
                        IN ty \o LE(Len(b), 8) \o FStr(uByteProperty) \o id \o b
       [] t = "Blob" -> EncProp(<<"ArrB", q[2], Enc(q[3])>>)
       [] t = "ArrS" -> LET inner == EncAll(q[7])
                            b == LE(Len(q[7]), 4) \o FStr(q[3]) \o FStr(q[4]) \o LE(Len(inner), 8)
                                   \o FStr(q[5]) \o q[6] \o <<0>> \o inner
                        IN ty \o LE(Len(b), 8) \o FStr(uStructProperty) \o id \o b
       [] t = "Map" -> LET b == Zeros(4) \o LE(Len(q[7]), 4)
                                  \o FoldLeft(LAMBDA acc, e : acc \o Enc(e[1]) \o Enc(e[2]), <<>>, q[7])
                       IN ty \o LE(Len(b), 8) \o FStr(q[3]) \o FStr(q[4]) \o id \o b
EncDoc(d) == Enc(d[1]) \o EncProps(d[2]) \o d[3]

(***************************************************************************)
(* Reading.  hints maps paths to struct types; a path is a literal.        *)
(***************************************************************************)
HeaderG == <<"r", <<
  <<"magic", <<"p", "i32">>>>, <<"save_game_version", <<"p", "i32">>>>,
  <<"package_file_version_ue4", <<"p", "i32">>>>, <<"package_file_version_ue5", <<"p", "i32">>>>,
  <<"engine_version_major", <<"p", "u16">>>>, <<"engine_version_minor", <<"p", "u16">>>>,
  <<"engine_version_patch", <<"p", "u16">>>>, <<"engine_version_changelist", <<"p", "u32">>>>,
  <<"engine_version_branch", <<"s">>>>, <<"custom_version_format", <<"p", "i32">>>>,
  <<"custom_versions", <<"a", <<"t", <<<<"g">>, <<"p", "i32">>>>>>>>>>,
  <<"save_game_class_name", <<"s">>>>>>>>
MagicBytes == <<71, 86, 65, 83>>
Version3 == <<3, 0, 0, 0>>
HeaderAccepted(h) == /\ h[2][1][2][3] = MagicBytes
                     /\ h[2][2][2][3] = Version3
                     /\ h[2][10][2][3] = Version3

RdRot1(b, p) ==
  LET f == Take(b, p, 1) IN
  IF ~OkP(f) THEN Fail
  ELSE IF f[2][1] = 0 THEN Ok(<<0, 0>>, p + 1)
  ELSE Take(b, p + 1, 2)

RECURSIVE Dec(_, _, _, _, _), DecN(_, _, _, _, _, _, _), DecToEnd(_, _, _, _, _, _),
          DecFields(_, _, _, _, _, _), DecProps(_, _, _, _, _), DecMap(_, _, _, _, _, _, _, _)
\* n elements of grammar g
DecN(g, h, path, b, p, n, acc) ==
  IF n = 0 THEN Ok(acc, p)
  ELSE LET r == Dec(g, h, path, b, p) IN
       IF ~OkP(r) THEN Fail ELSE DecN(g, h, path, b, r[3], n - 1, Append(acc, r[2]))
DecToEnd(g, h, path, b, p, acc) ==
  IF p > Len(b) THEN Ok(acc, p)
  ELSE LET r == Dec(g, h, path, b, p) IN
       IF ~OkP(r) THEN Fail ELSE DecToEnd(g, h, path, b, r[3], Append(acc, r[2]))
DecFields(fs, h, path, b, p, acc) ==
  IF fs = <<>> THEN Ok(acc, p)
  ELSE LET r == Dec(fs[1][2], h, path, b, p) IN
       IF ~OkP(r) THEN Fail
       ELSE DecFields(Tail(fs), h, path, b, r[3], Append(acc, <<fs[1][1], r[2]>>))
Wrap1(r, tag) == IF OkP(r) THEN Ok(<<tag, r[2]>>, r[3]) ELSE Fail

Dec(g, h, path, b, p) ==
  LET t == g[1] IN
  CASE t = "p" -> LET r == Take(b, p, PrimSize[g[2]]) IN
                  IF OkP(r) THEN Ok(<<"i", g[2], r[2]>>, r[3]) ELSE Fail
    [] t = "fl" -> LET r == Take(b, p, PrimSize[g[2]]) IN
                  IF OkP(r) THEN Ok(<<"f", g[2], r[2]>>, r[3]) ELSE Fail
    [] t = "g" -> Wrap1(Take(b, p, 16), "g")
    [] t = "s" -> Wrap1(RdFStr(b, p), "s")
    [] t = "b8" -> LET r == Take(b, p, 1) IN
                  IF OkP(r) THEN Ok(<<"b8", IF r[2][1] > 0 THEN 1 ELSE 0>>, r[3]) ELSE Fail
    [] t = "b32" -> LET r == Take(b, p, 4) IN
                  IF OkP(r) THEN Ok(<<"b32", IF r[2] # Zeros(4) THEN 1 ELSE 0>>, r[3]) ELSE Fail
    [] t = "r" -> Wrap1(DecFields(g[2], h, path, b, p, <<>>), "r")
    [] t = "t" -> LET r == DecFields(Tup([i \in 1..Len(g[2]) |-> <<"", g[2][i]>>]), h, path, b, p, <<>>) IN
                  IF OkP(r) THEN Ok(<<"t", Tup([i \in 1..Len(r[2]) |-> r[2][i][2]])>>, r[3]) ELSE Fail
    [] t = "a" -> LET c == RdCount(b, p) IN
                  IF ~OkP(c) THEN Fail ELSE Wrap1(DecN(g[2], h, path, b, c[3], c[2], <<>>), "a")
    [] t = "m" -> Wrap1(DecToEnd(g[2], h, path, b, p, <<>>), "m")
    [] t = "o" -> IF p > Len(b) THEN Ok(<<"o">>, p) ELSE Wrap1(Dec(g[2], h, path, b, p), "o")
    [] t = "raw" -> Wrap1(Take(b, p, g[2]), "y")
    [] t = "upto" -> LET e == IF p + g[2] - 1 <= Len(b) THEN p + g[2] - 1 ELSE Len(b)
                     IN Ok(<<"y", SubSeq(b, p, e)>>, e + 1)
    [] t = "rest" -> Ok(<<"z", SubSeq(b, p, Len(b))>>, Len(b) + 1)
    [] t = "k" -> Ok(g, p)
    [] t = "alt" -> \* a byte selecting one of several layouts
          LET r == Take(b, p, 1) IN
          IF ~OkP(r) THEN Fail
          ELSE LET hits == SelectSeq(g[2], LAMBDA c : c[1] = r[2][1])
                   body == IF hits # <<>> THEN hits[1][2] ELSE g[3]
                   d == Dec(body, h, path, b, p + 1)
               IN IF ~OkP(d) THEN Fail
                  ELSE Ok(<<"r", <<<<"type", <<"i", "u8", r[2]>>>>, <<"", d[2]>>>>>>, d[3])
    [] t = "rot" -> LET x == RdRot1(b, p) IN
          IF ~OkP(x) THEN Fail ELSE
          LET y == RdRot1(b, x[3]) IN
          IF ~OkP(y) THEN Fail ELSE
          LET z == RdRot1(b, y[3]) IN
          IF ~OkP(z) THEN Fail ELSE Ok(<<"rot", x[2], y[2], z[2]>>, z[3])
    [] t = "pv" -> LET c == Take(b, p, 4) IN
          IF ~OkP(c) \/ c[2][2] # 0 \/ c[2][3] # 0 \/ c[2][4] # 0 \/ c[2][1] > 127 THEN Fail
          ELSE LET w == c[2][1] % 64
                   sc == c[2][1] \div 64
                   k == (w + 7) \div 8
               IN IF w = 0
                  THEN IF sc = 0 \/ p + 27 > Len(b) THEN Fail
                       ELSE Ok(<<"pvd", SubSeq(b, p + 4, p + 11), SubSeq(b, p + 12, p + 19),
                                 SubSeq(b, p + 20, p + 27)>>, p + 28)
                  ELSE IF p + 3 + 3 * k > Len(b) THEN Fail
                       ELSE Ok(<<"pv", w, sc, SubSeq(b, p + 4, p + 3 + k),
                                 SubSeq(b, p + 4 + k, p + 3 + 2 * k),
                                 SubSeq(b, p + 4 + 2 * k, p + 3 + 3 * k)>>, p + 4 + 3 * k)
    [] t = "P" -> Wrap1(DecProps(h, path, b, p, <<>>), "P")
    [] t = "bad" -> Fail

Hint(h, path, default) == IF path \in DOMAIN h THEN h[path] ELSE default
DecMap(kg, vg, h, path, b, p, n, acc) ==
  IF n = 0 THEN Ok(acc, p)
  ELSE LET k == Dec(kg, h, path \o ".Key", b, p) IN
       IF ~OkP(k) THEN Fail
       ELSE LET v == Dec(vg, h, path \o ".Value", b, k[3]) IN
            IF ~OkP(v) THEN Fail
            ELSE DecMap(kg, vg, h, path, b, v[3], n - 1, Append(acc, <<k[2], v[2]>>))

\* one property body (type, declared size), at path
DecProp(ty, size, h, path, b, p) ==
  LET simple == {s \in SimpleTypes : PropTypeU[s] = ty} IN
  IF simple # {}
  THEN LET s == CHOOSE x \in simple : TRUE
           i == RdOptId(b, p)
           v == IF OkP(i) THEN Dec(NamedPrim[s], h, path, b, i[3]) ELSE Fail
       IN IF OkP(v) THEN Ok(<<s, i[2], v[2]>>, v[3]) ELSE Fail
  ELSE IF ty = PropTypeU["Enum"]
  THEN LET e == RdFStr(b, p)
           i == IF OkP(e) THEN RdOptId(b, e[3]) ELSE Fail
           v == IF OkP(i) THEN RdFStr(b, i[3]) ELSE Fail
       IN IF OkP(v) THEN Ok(<<"Enum", i[2], e[2], v[2]>>, v[3]) ELSE Fail
  ELSE IF ty = PropTypeU["Bool"]
  THEN LET v == Take(b, p, 1)
           i == IF OkP(v) THEN RdOptId(b, p + 1) ELSE Fail
       IN IF OkP(i) THEN Ok(<<"Bool", i[2], IF v[2][1] > 0 THEN 1 ELSE 0>>, i[3]) ELSE Fail
  ELSE IF ty = PropTypeU["Struct"]
  THEN LET st == RdFStr(b, p)
           sid == IF OkP(st) THEN Take(b, st[3], 16) ELSE Fail
           i == IF OkP(sid) THEN RdOptId(b, sid[3]) ELSE Fail
           v == IF OkP(i) THEN Dec(StructG(st[2]), h, path, b, i[3]) ELSE Fail
       IN IF OkP(v) THEN Ok(<<"Struct", i[2], st[2], sid[2], v[2]>>, v[3]) ELSE Fail
  ELSE IF ty = PropTypeU["ArrV"]
  THEN LET at == RdFStr(b, p)
           i == IF OkP(at) THEN RdOptId(b, at[3]) ELSE Fail
           c == IF OkP(i) THEN RdCount(b, i[3]) ELSE Fail
       IN IF ~OkP(c) THEN Fail
          ELSE IF at[2] = uByteProperty
               THEN IF size # LE(c[2] + 4, 8) THEN Fail
                    ELSE LET d == Take(b, c[3], c[2]) IN
                         IF OkP(d) THEN Ok(<<"ArrB", i[2], d[2]>>, d[3]) ELSE Fail
          ELSE IF at[2] = uStructProperty
               THEN LET nm == RdFStr(b, c[3])
                        pt == IF OkP(nm) THEN RdFStr(b, nm[3]) ELSE Fail
                        sz == IF OkP(pt) THEN Take(b, pt[3], 8) ELSE Fail
                        tn == IF OkP(sz) THEN RdFStr(b, sz[3]) ELSE Fail
                        ai == IF OkP(tn) THEN Take(b, tn[3], 17) ELSE Fail
                        vs == IF OkP(ai) THEN DecN(StructG(tn[2]), h, path \o "." \o StrOf(nm[2]),
                                                   b, ai[3], c[2], <<>>) ELSE Fail
                    IN IF OkP(vs)
                       THEN Ok(<<"ArrS", i[2], nm[2], pt[2], tn[2], SubSeq(ai[2], 1, 16), vs[2]>>, vs[3])
                       ELSE Fail
          ELSE LET vs == DecN(ArrElemG(at[2]), h, path, b, c[3], c[2], <<>>) IN
               IF OkP(vs) THEN Ok(<<"ArrV", i[2], at[2], vs[2]>>, vs[3]) ELSE Fail
  ELSE IF ty = PropTypeU["Map"]
  THEN LET kt == RdFStr(b, p)
           vt == IF OkP(kt) THEN RdFStr(b, kt[3]) ELSE Fail
           i == IF OkP(vt) THEN RdOptId(b, vt[3]) ELSE Fail
           z == IF OkP(i) THEN Take(b, i[3], 4) ELSE Fail
           c == IF OkP(z) THEN RdCount(b, z[3]) ELSE Fail
       IN IF ~OkP(c) THEN Fail
          ELSE LET kst == IF kt[2] = uStructProperty THEN Hint(h, path \o ".Key", uGuid) ELSE <<>>
                   vst == IF vt[2] = uStructProperty THEN Hint(h, path \o ".Value", uStructProperty) ELSE <<>>
                   es == DecMap(MapElemG(kt[2], kst), MapElemG(vt[2], vst), h, path, b, c[3], c[2], <<>>)
               IN IF OkP(es) THEN Ok(<<"Map", i[2], kt[2], vt[2], kst, vst, es[2]>>, es[3]) ELSE Fail
  ELSE Fail

DecProps(h, path, b, p, acc) ==
  LET nm == RdFStr(b, p) IN
  IF ~OkP(nm) THEN Fail
  ELSE IF nm[2] = NoneU THEN Ok(acc, nm[3])
  ELSE LET ty == RdFStr(b, nm[3])
           sz == IF OkP(ty) THEN Take(b, ty[3], 8) ELSE Fail
           v == IF OkP(sz) THEN DecProp(ty[2], sz[2], h, path \o "." \o StrOf(nm[2]), b, sz[3]) ELSE Fail
       IN IF OkP(v) THEN DecProps(h, path, b, v[3], Append(acc, <<nm[2], v[2]>>)) ELSE Fail

\* a whole payload: <<1, document>> or Fail
DecDoc(h, b) ==
  LET hd == Dec(HeaderG, h, "", b, 1) IN
  IF ~OkP(hd) THEN Fail
  ELSE IF ~HeaderAccepted(hd[2]) THEN Fail
  ELSE LET ps == DecProps(h, "", b, hd[3], <<>>) IN
       IF ~OkP(ps) THEN Fail ELSE <<1, <<hd[2], ps[2], SubSeq(b, ps[3], Len(b))>>>>

(***************************************************************************)
(* A document with its structures stored as plain byte arrays.             *)
(***************************************************************************)
RECURSIVE LowerNode(_), LowerProps(_), LowerProp(_)
LowerNode(n) == CASE n[1] = "P" -> <<"P", LowerProps(n[2])>>
                  [] n[1] = "r" -> <<"r", FMap(n[2], LAMBDA f : <<f[1], LowerNode(f[2])>>)>>
                  [] OTHER -> n
LowerNodes(ns) == FMap(ns, LowerNode)
LowerProp(q) ==
  CASE q[1] = "Blob" -> <<"ArrB", q[2], Enc(q[3])>>
    [] q[1] = "Struct" -> <<"Struct", q[2], q[3], q[4], LowerNode(q[5])>>
    [] q[1] = "ArrS" -> <<"ArrS", q[2], q[3], q[4], q[5], q[6], LowerNodes(q[7])>>
    [] q[1] = "Map" -> <<"Map", q[2], q[3], q[4], q[5], q[6],
                         FMap(q[7], LAMBDA e : <<LowerNode(e[1]), LowerNode(e[2])>>)>>
    [] OTHER -> q
LowerProps(ps) == FMap(ps, LAMBDA q : <<q[1], LowerProp(q[2])>>)
LowerDoc(d) == <<d[1], LowerProps(d[2]), d[3]>>
===============================================================================
