---------------------------------- MODULE Bulk ----------------------------------
(***************************************************************************)
(* Lists far longer than can be enumerated.  Every list of every structure *)
(* and of the generic data holds 3n elements: n times the same three.      *)
(* Law, checked for small n:                                               *)
(*   stored(n) = prefix(n) \o block^n \o suffix, where prefix(n), read as  *)
(*   one little-endian number, is prefix(0) + n * (prefix(1) - prefix(0)), *)
(*   and export(n) is the export with the one list repeated n times.       *)
(* What is handed over is the law's data; the replay takes n as large as   *)
(* it likes.                                                               *)
(***************************************************************************)
EXTENDS Docs
CONSTANT CHECKAT
Block(g) == <<Def(g, 5)[1], Def(g, 12)[1], Def(g, 19)[1]>>
Copies(s, n) == Tup([i \in 1..(n * Len(s)) |-> s[1 + ((i - 1) % Len(s))]])
RECURSIVE Bulked(_, _, _), BulkedProps(_, _), BulkedProp(_, _)
BulkedFirst(g, s, n) == IF s = <<>> THEN <<>> ELSE SetEach(s, 1, Bulked(g, s[1], n))
Bulked(g, v, n) ==
  LET t == g[1] IN
  CASE t = "r" -> FoldLeft(LAMBDA acc, j : LET ms == Bulked(g[2][j][2], v[2][j][2], n) IN
                     acc \o Tup([m \in 1..Len(ms) |-> <<"r", [v[2] EXCEPT ![j] = <<v[2][j][1], ms[m]>>]>>]),
                     <<>>, Tup([j \in 1..Len(v[2]) |-> j]))
    [] t = "t" -> FoldLeft(LAMBDA acc, j : acc \o Lift("t", SetEach(v[2], j, Bulked(g[2][j], v[2][j], n))),
                           <<>>, Tup([j \in 1..Len(v[2]) |-> j]))
    [] t \in {"a", "m"} -> <<<<t, Copies(Block(g[2]), n)>>>> \o Lift(t, BulkedFirst(g[2], v[2], n))
    [] t = "o" -> IF Len(v) = 1 THEN <<>> ELSE Lift("o", Bulked(g[2], v[2], n))
    [] t = "alt" -> LET tag == v[2][1][2][3][1]
                        hits == SelectSeq(g[2], LAMBDA c : c[1] = tag)
                        ms == Bulked(IF hits # <<>> THEN hits[1][2] ELSE g[3], v[2][2][2], n)
                    IN Tup([m \in 1..Len(ms) |-> <<"r", <<v[2][1], <<"", ms[m]>>>>>>])
    [] t = "P" -> Lift("P", BulkedProps(v[2], n))
    [] OTHER -> <<>>
BulkedProps(ps, n) ==
  FoldLeft(LAMBDA acc, i : LET ms == BulkedProp(ps[i][2], n) IN
      acc \o Tup([j \in 1..Len(ms) |-> [ps EXCEPT ![i] = <<ps[i][1], ms[j]>>]]), <<>>, Tup([i \in 1..Len(ps) |-> i]))
BulkedProp(q, n) ==
  LET t == q[1] IN
  CASE t = "Struct" -> SetEach(q, 5, Bulked(StructG(q[3]), q[5], n))
    [] t = "ArrV" -> SetEach(q, 4, <<Copies(Block(ArrElemG(q[3])), n)>> \o BulkedFirst(ArrElemG(q[3]), q[4], n))
    [] t = "ArrB" -> SetEach(q, 3, <<Copies(<<200, 0, 131>>, n)>>)
    [] t = "ArrS" -> SetEach(q, 7, <<Copies(Block(StructG(q[5])), n)>> \o BulkedFirst(StructG(q[5]), q[7], n))
    [] t = "Map" ->
         LET kg == MapElemG(q[3], q[5])
             vg == MapElemG(q[4], q[6])
             es == q[7]
         IN SetEach(q, 7, <<Copies(<<<<Def(kg, 3)[1], Def(vg, 4)[1]>>, <<Def(kg, 8)[1], Def(vg, 9)[1]>>, <<Def(kg, 15)[1], Def(vg, 2)[1]>>>>, n)>>
              \o (IF es = <<>> THEN <<>> ELSE SetEach(es, 1, FMap(Bulked(vg, es[1][2], n), LAMBDA x : <<es[1][1], x>>))))
    [] OTHER -> <<>>
\* the states with one of their lists of length 3n
BulkStates(s, n) ==
  Concat(MapSeq(EntryRefs(s), LAMBDA r :
      LET e == s[2][r[1]][2][r[2]]
          g == EditG(s[2][r[1]][1], e[1], e[2])
          ms == IF g[1] \in {"none", "bad"} THEN <<>> ELSE Bulked(g, e[2], n)
      IN Tup([m \in 1..Len(ms) |-> [s EXCEPT ![2][r[1]][2][r[2]] = <<e[1], ms[m]>>]])))
  \o (IF s[3] = <<>> THEN <<>> ELSE LET ms == BulkedProps(s[3], n) IN Tup([m \in 1..Len(ms) |-> [s EXCEPT ![3] = ms[m]]]))

\* st is a state of Docs, k which of its lists
BulkInit == \E s \in ToSet(Cells) : st = s /\ k \in 1..Len(BulkStates(s, 1))
BulkNext == FALSE /\ UNCHANGED vars
StateAt(n) == BulkStates(st, n)[k]
BytesAt(n) == EncDoc(DocOf(StateAt(n)))
ExportAt(n) == Export(LowerDoc(DocOf(StateAt(n))), SelOf(st))

From(b, i) == SubSeq(b, i, Len(b))
Common(a, b) == CHOOSE c \in 0..Len(a) : /\ From(a, Len(a) - c + 1) = From(b, Len(b) - c + 1)
                                         /\ c = Len(a) \/ a[Len(a) - c] # b[Len(b) - c]
\* p0 + n * (p1 - p0), as little-endian numbers
RECURSIVE Carry(_, _, _, _, _)
Carry(p0, p1, n, i, c) == IF i > Len(p0) THEN <<>>
                          ELSE LET x == p0[i] + n * (p1[i] - p0[i]) + c IN <<x % 256>> \o Carry(p0, p1, n, i + 1, (x - (x % 256)) \div 256)
Affine(p0, p1, n) == LET first == CHOOSE i \in 1..(Len(p0) + 1) : (i > Len(p0) \/ p0[i] # p1[i]) /\ \A j \in 1..(i - 1) : p0[j] = p1[j]
                     IN SubSeq(p0, 1, first - 1) \o Carry(From(p0, first), From(p1, first), n, 1, 0)
\* the hole: the end of the prefix, as far right as can be
HoleEnd(b0, b1, b2, bn, w) ==
  LET c == Common(b0, b1)
      ok == {h \in (Len(b0) - c)..Len(b0) : h + 2 * w <= Len(b2) /\ SubSeq(b2, h + 1, h + w) = SubSeq(b2, h + w + 1, h + 2 * w)
                                            /\ SubSeq(b1, h + 1, h + w) = SubSeq(b2, h + 1, h + w) /\ From(b2, h + 2 * w + 1) = From(b0, h + 1)}
      lawful == {h \in ok : bn = Affine(SubSeq(b0, 1, h), SubSeq(b1, 1, h), CHECKAT) \o Copies(SubSeq(b1, h + 1, h + w), CHECKAT) \o From(b0, h + 1)}
  IN IF lawful = {} THEN -1 ELSE CHOOSE h \in lawful : \A x \in lawful : x <= h
RECURSIVE HoleJ(_, _), FillJ(_, _)
HoleJ(a, b) ==
  IF a = b THEN a
  ELSE CASE a[1] \in {"o", "O"} -> <<a[1], Tup([i \in 1..Len(a[2]) |-> <<a[2][i][1], HoleJ(a[2][i][2], b[2][i][2])>>])>>
         [] a[1] = "a" /\ Len(a[2]) = Len(b[2]) -> <<"a", Tup([i \in 1..Len(a[2]) |-> HoleJ(a[2][i], b[2][i])])>>
         [] a[1] = "a" -> <<"rep", a[2]>>
         [] a[1] = "y" -> <<"yrep", a[2]>>
FillJ(j, n) ==
  CASE j[1] \in {"o", "O"} -> <<j[1], FMap(j[2], LAMBDA m : <<m[1], FillJ(m[2], n)>>)>>
    [] j[1] = "a" -> <<"a", FMap(j[2], LAMBDA x : FillJ(x, n))>>
    [] j[1] = "rep" -> <<"a", Copies(j[2], n)>>
    [] j[1] = "yrep" -> <<"y", Copies(j[2], n)>>
    [] OTHER -> j
Law ==
  LET b0 == BytesAt(0)
      b1 == BytesAt(1)
      b2 == BytesAt(2)
      w == Len(b1) - Len(b0)
      h == HoleEnd(b0, b1, b2, BytesAt(CHECKAT), w)
      p0 == SubSeq(b0, 1, h)
      p1 == SubSeq(b1, 1, h)
      u == SubSeq(b1, h + 1, h + w)
      suffix == From(b0, h + 1)
      j == HoleJ(ExportAt(1), ExportAt(2))
  IN /\ h >= 0
     /\ ExportAt(CHECKAT) = FillJ(j, CHECKAT)
     /\ ExportAt(3) = FillJ(j, 3)
     /\ Hand(<<SUITE, k, p0, p1, u, suffix, j, OwnHints>>)
===============================================================================
