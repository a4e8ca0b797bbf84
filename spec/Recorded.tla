-------------------------------- MODULE Recorded --------------------------------
(***************************************************************************)
(* Saves the game wrote, read by the specification.  piece.json holds      *)
(* either a whole recorded payload or one recorded property of the world   *)
(* (its type and the first bytes of its body, which may end early).  Every *)
(* entry found becomes a document of its own, and so do runs of entries:   *)
(* the specification must reproduce the recorded bytes, and the real code  *)
(* must agree with it on what they mean.                                   *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS WANT,        \* entries to look at
          SPAN      \* entries side by side
VARIABLES at, span
vars == <<at, span>>

Piece == JsonDeserialize("piece.json")
B == Piece.body
Path == ".worldSaveData." \o Piece.name
Whole0 == DecDoc(PalHints, B)

\* as many entries as are wanted and complete
RECURSIVE MapUpTo(_, _, _, _, _, _), ArrUpTo(_, _, _, _, _, _)
MapUpTo(kg, vg, path, p, n, acc) ==
  IF n = 0 THEN acc
  ELSE LET k == Dec(kg, PalHints, path \o ".Key", B, p) IN
       IF ~OkP(k) THEN acc
       ELSE LET v == Dec(vg, PalHints, path \o ".Value", B, k[3]) IN
            IF ~OkP(v) THEN acc
            ELSE MapUpTo(kg, vg, path, v[3], n - 1, Append(acc, <<<<k[2], v[2]>>, SubSeq(B, p, v[3] - 1)>>))
ArrUpTo(g, path, p, n, acc, unused) ==
  IF n = 0 THEN acc
  ELSE LET v == Dec(g, PalHints, path, B, p) IN
       IF ~OkP(v) THEN acc ELSE ArrUpTo(g, path, v[3], n - 1, Append(acc, <<v[2], SubSeq(B, p, v[3] - 1)>>), unused)
Smaller(a, b) == IF a < b THEN a ELSE b
MapEntriesOf(dummy) ==
  LET kt == RdFStr(B, 1)
      vt == RdFStr(B, kt[3])
      i == RdOptId(B, vt[3])
      c == RdCount(B, i[3] + 4)
      kst == IF kt[2] = uStructProperty THEN Hint(PalHints, Path \o ".Key", uGuid) ELSE <<>>
      vst == IF vt[2] = uStructProperty THEN Hint(PalHints, Path \o ".Value", uStructProperty) ELSE <<>>
  IN [shell |-> <<"Map", i[2], kt[2], vt[2], kst, vst, <<>>>>, count |-> c[2],
      entries |-> MapUpTo(MapElemG(kt[2], kst), MapElemG(vt[2], vst), Path, c[3], Smaller(WANT, c[2]), <<>>)]
ArrEntriesOf(dummy) ==
  LET tp == RdFStr(B, 1)
      i == RdOptId(B, tp[3])
      c == RdCount(B, i[3])
      nm == RdFStr(B, c[3])
      pt == RdFStr(B, nm[3])
      sz == Take(B, pt[3], 8)
      tn == RdFStr(B, sz[3])
      ai == Take(B, tn[3], 17)
  IN [shell |-> <<"ArrS", i[2], nm[2], pt[2], tn[2], SubSeq(ai[2], 1, 16), <<>>>>, count |-> c[2],
      entries |-> ArrUpTo(StructG(tn[2]), Path \o "." \o StrOf(nm[2]), ai[3], Smaller(WANT, c[2]), <<>>, 0)]
Found == IF Piece.kind = "map" THEN MapEntriesOf(0) ELSE IF Piece.kind = "array" THEN ArrEntriesOf(0)
         ELSE [shell |-> <<>>, count |-> 0, entries |-> <<>>]
DocOfRun(a, n) == World(<<Prop(Piece.name, [Found.shell EXCEPT ![7] = Tup([j \in 1..n |-> Found.entries[a + j - 1][1]])])>>)

Init == \/ /\ Piece.kind = "whole" /\ at = 0 /\ span = 0
        \/ /\ Piece.kind # "whole" /\ span = 1 /\ at \in 1..Len(Found.entries)
Next == /\ Piece.kind # "whole" /\ span = 1 /\ span' = SPAN
        /\ at + SPAN - 1 <= Len(Found.entries) /\ at % SPAN = 1 /\ UNCHANGED at

\* the recorded bytes are what the specification writes
EntryBytes(x) == IF Piece.kind = "map" THEN Enc(x[1]) \o Enc(x[2]) ELSE Enc(x)
Reproduced == IF Piece.kind = "whole" THEN OkP(Whole0) /\ EncDoc(Whole0[2]) = B
              ELSE EntryBytes(Found.entries[at][1]) = Found.entries[at][2]
SomeFound == IF Piece.kind = "whole" THEN TRUE ELSE Found.entries # <<>> \/ Found.count = 0
Hand(x) == PrintT("VEC " \o ToJson(x))
Emit == LET d == IF Piece.kind = "whole" THEN Whole0[2] ELSE DocOfRun(at, span) IN
        Hand(<<"recorded " \o Piece.name, 0, EncDoc(d), Export(d, CustomPaths), <<>>>>)
===============================================================================
