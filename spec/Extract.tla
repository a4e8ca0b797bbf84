---------------------------------- MODULE Extract ----------------------------------
(***************************************************************************)
(* The class extraction script.  An export holds blueprints 1..N, each     *)
(* with a super class (a native class or another blueprint) and possibly a *)
(* concrete model class (native or a blueprint), and a table of map        *)
(* objects.  References: <<"nat", name>>, <<"bp", i>>, <<"gone">> (a       *)
(* blueprint that is not in the export), <<"no">>.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, FAMILY
VARIABLES bps,      \* i -> [super, concrete]
          lacks,    \* i -> what is missing of the blueprint in the export: "", "default" (its default object) or "class" (its class)
          style     \* how names are spelled in the table, the file names, the objects and the references
vars == <<bps, lacks, style>>

(***************************************************************************)
(* References: <<"nat", name>> a native class, <<"like", j>> and           *)
(* <<"likeC", j>> the native class that happens to be called what          *)
(* blueprint j is (with _C).  Listings: one of these, <<"unknown">>,       *)
(* <<"gone">>, or <<"left out">>: what the class of such an object is, the *)
(* export does not say.                                                    *)
(***************************************************************************)
IsNative(ref) == ref[1] \in {"nat", "like", "likeC"}
\* the native class at the end of the super chain, "gone" if it leaves the export
RECURSIVE NativeOf(_, _)
NativeOf(b, ref) == IF IsNative(ref) THEN ref
                    ELSE IF ref[1] = "bp" /\ lacks[ref[2]] # "class" THEN NativeOf(b, b[ref[2]].super) ELSE <<"gone">>
\* the class listed for an object of blueprint i
Listed(b, i) ==
  IF lacks[i] = "default" THEN <<"left out">>
  ELSE IF b[i].concrete # <<"no">> THEN NativeOf(b, b[i].concrete)
  ELSE IF lacks[i] = "class" THEN <<"left out">>
  ELSE LET p == b[i].super IN
       IF IsNative(p) THEN p
       ELSE IF p[1] = "gone" THEN <<"unknown">>
       ELSE IF lacks[p[2]] = "default" \/ b[p[2]].concrete = <<"no">> THEN <<"unknown">>
       ELSE LET c == NativeOf(b, b[p[2]].concrete) IN IF c = <<"gone">> THEN <<"unknown">> ELSE c

Natives == {"PalMapObjectChestModel", "PalBase_C"}
Styles == {"asis", "lower", "upper", "swap"}
StyleSet == {<<"asis", "asis", "asis", "asis">>, <<"lower", "upper", "swap", "asis">>, <<"upper", "asis", "lower", "swap">>, <<"swap", "lower", "asis", "upper">>}
Refs(S) == {<<"bp", j>> : j \in S}
Init ==
  /\ IF FAMILY = "parts" THEN lacks \in {f \in [1..3 -> {"", "default", "class"}] : \E i \in 1..3 : f[i] # ""}
     ELSE lacks = [i \in 1..60 |-> ""]
  /\ CASE FAMILY = "all" ->
         /\ bps \in [1..N -> [super : {<<"nat", "S">>, <<"gone">>} \union Refs(1..N),
                              concrete : {<<"no">>, <<"gone">>, <<"nat", "PalMapObjectChestModel">>} \union Refs(1..N)]]
         /\ \A i \in 1..N : bps[i].super[1] = "bp" => bps[i].super[2] < i
         /\ style = <<"asis", "asis", "asis", "asis">>
    [] FAMILY = "names" ->
         /\ style \in {<<a, b, c, d>> : a \in Styles, b \in Styles, c \in Styles, d \in Styles}
         /\ bps \in {[i \in 1..4 |-> CASE i = 1 -> [super |-> <<"nat", "Native_C">>, concrete |-> <<"nat", "PalBase_C">>]
                                        [] i = 2 -> [super |-> <<"bp", 1>>, concrete |-> c2]
                                        [] i = 3 -> [super |-> <<"bp", 2>>, concrete |-> <<"bp", 2>>]
                                        [] i = 4 -> [super |-> s4, concrete |-> <<"no">>]] :
                       c2 \in {<<"no">>, <<"bp", 3>>, <<"nat", "class">>}, s4 \in {<<"bp", 1>>, <<"bp", 2>>, <<"bp", 3>>, <<"nat", "PalX">>}}
    [] FAMILY = "parts" ->
         /\ bps \in [1..3 -> [super : {<<"nat", "S">>} \union Refs(1..2), concrete : {<<"no">>, <<"nat", "PalMapObjectChestModel">>} \union Refs({1, 3})]]
         /\ \A i \in 1..3 : bps[i].super[1] = "bp" => bps[i].super[2] < i
         /\ style = <<"asis", "asis", "asis", "asis">>
    [] FAMILY = "deep" ->
         /\ style \in StyleSet
         /\ \E len \in {5, 12, 60}, at \in {"end", "middle"}, c \in {<<"no">>, <<"bp", 1>>} :
              bps = [i \in 1..len |-> [super |-> IF i = 1 THEN <<"nat", "Root">> ELSE <<"bp", i - 1>>,
                                       concrete |-> IF i = len THEN c
                                                    ELSE IF i = len - 1 THEN (IF at = "end" THEN <<"bp", len - 2>> ELSE <<"bp", len \div 2>>)
                                                    ELSE IF i % 3 = 0 THEN <<"bp", len>> ELSE <<"no">>]]
    [] FAMILY = "alike" ->   \* native classes called like the blueprints that lead elsewhere
         /\ style \in StyleSet
         /\ \E how \in {"like", "likeC"}, perm \in {f \in [1..4 -> 1..4] : \A i, j \in 1..4 : f[i] = f[j] => i = j} :
              bps = [i \in 1..4 |-> [super |-> IF i = 1 THEN <<"nat", "Root">> ELSE IF i = 2 THEN <<how, 3>> ELSE <<"bp", perm[i] % i>>,
                                     concrete |-> CASE perm[i] = 1 -> <<"no">> [] perm[i] = 2 -> <<how, i>> [] perm[i] = 3 -> <<how, 1 + (i % 4)>>
                                                    [] OTHER -> <<"bp", 1 + ((i + 1) % 4)>>]]
              /\ \A i \in 1..4 : bps[i].super[1] = "bp" => bps[i].super[2] \in 1..(i - 1)
Next == FALSE /\ UNCHANGED vars

\* what is listed is a native class of the export or the unknown default
NativeRefs == {bps[i].super : i \in {j \in DOMAIN bps : IsNative(bps[j].super)}}
              \union {bps[i].concrete : i \in {j \in DOMAIN bps : IsNative(bps[j].concrete)}}
OnlyNatives == \A i \in DOMAIN bps : Listed(bps, i) \in NativeRefs \union {<<"unknown">>, <<"gone">>, <<"left out">>}
Hand(x) == PrintT("VEC " \o ToJson(x))
Emit == Hand(<<"extract", FAMILY, style, bps, [i \in DOMAIN bps |-> Listed(bps, i)], [i \in DOMAIN bps |-> lacks[i]]>>)
===============================================================================
