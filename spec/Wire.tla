---------------------------------- MODULE Wire ----------------------------------
(***************************************************************************)
(* The byte-level vocabulary of the save format: little-endian numbers,    *)
(* text, identifiers.  Integers are never represented as TLC integers      *)
(* (which are 32 bit) but as the tuple of their little-endian bytes; text  *)
(* is the tuple of its UTF-16 code units.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

\* a sequence whose elements are all evaluated (TLC keeps [i \in S |-> e] symbolic)
Tup(s) == SubSeq(s, 1, Len(s))

\* F applied to every element (the fold hands evaluated elements over)
FMap(s, F(_)) == FoldLeft(LAMBDA acc, x : Append(acc, F(x)), <<>>, s)

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
              31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c)]
\* the code units of a literal
U(s) == Tup([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])
CharOf == [i \in 32..126 |-> SubSeq(Printable, i - 31, i - 31)]
\* the literal of a text; characters that cannot occur in a literal map to "?"
StrOf(u) == FoldLeft(LAMBDA acc, x : acc \o (IF x \in 32..126 THEN CharOf[x] ELSE "?"), "", u)
LowerU(u) == Tup([i \in 1..Len(u) |-> IF u[i] \in 65..90 THEN u[i] + 32 ELSE u[i]])
UpperU(u) == Tup([i \in 1..Len(u) |-> IF u[i] \in 97..122 THEN u[i] - 32 ELSE u[i]])

IsByte(x) == x \in 0..255

Pow256 == <<1, 256, 65536, 16777216>>
\* the k little-endian bytes of the natural number n < 2^31
LE(n, k) == Tup([i \in 1..k |-> IF i > 4 THEN 0 ELSE (n \div Pow256[i]) % 256])
\* the k little-endian bytes of -m, 0 < m < 2^31 (two's complement)
NegLE(m, k) == LET c == LE(m - 1, k) IN Tup([i \in 1..k |-> 255 - c[i]])
Zeros(k) == Tup([i \in 1..k |-> 0])

\* Text as stored: nothing for the empty text, single bytes for ASCII, UTF-16 otherwise.
IsAscii(u) == \A i \in 1..Len(u) : u[i] < 128
Utf16(u) == Tup([i \in 1..2 * Len(u) |->
                LET x == u[(i + 1) \div 2] IN IF i % 2 = 1 THEN x % 256 ELSE x \div 256])
FStr(u) == IF Len(u) = 0 THEN <<0, 0, 0, 0>>
           ELSE IF IsAscii(u) THEN LE(Len(u) + 1, 4) \o u \o <<0>>
           ELSE NegLE(Len(u) + 1, 4) \o Utf16(u) \o <<0, 0>>

(***************************************************************************)
(* Reading: every read returns <<1, value, next position>> or Fail.        *)
(***************************************************************************)
Fail == <<0>>
Ok(v, p) == <<1, v, p>>
OkP(r) == r[1] = 1

Take(b, p, n) == IF p + n - 1 <= Len(b) THEN Ok(SubSeq(b, p, p + n - 1), p + n) ELSE Fail

\* counts and lengths: -1 stands for a value that no input in reach can satisfy
Nat4(x) == IF x[4] >= 128 THEN -1 ELSE x[1] + 256 * x[2] + 65536 * x[3] + 16777216 * x[4]
\* the magnitude of a negative 4 byte number (0 if it is out of reach)
Mag4(x) == LET c == Tup([i \in 1..4 |-> 255 - x[i]]) IN
           IF c[4] >= 127 THEN 0 ELSE 1 + Nat4(c)

RdCount(b, p) == LET r == Take(b, p, 4) IN
                 IF ~OkP(r) THEN Fail
                 ELSE LET n == Nat4(r[2]) IN IF n < 0 \/ n > 1000000 THEN Fail ELSE Ok(n, p + 4)

RdFStr(b, p) ==
  LET r == Take(b, p, 4) IN
  IF ~OkP(r) THEN Fail
  ELSE IF r[2] = <<0, 0, 0, 0>> THEN Ok(<<>>, p + 4)
  ELSE IF r[2][4] < 128
       THEN LET n == Nat4(r[2])
                d == IF p + 3 + n <= Len(b) THEN Take(b, p + 4, n) ELSE Fail
            IN IF ~OkP(d) THEN Fail
               ELSE IF \E i \in 1..(n - 1) : d[2][i] >= 128 THEN Fail
               ELSE Ok(SubSeq(d[2], 1, n - 1), p + 4 + n)
       ELSE LET m == Mag4(r[2])
            IN IF m = 0 \/ m > 10000000 \/ p + 3 + 2 * m > Len(b) THEN Fail
               ELSE Ok(Tup([i \in 1..(m - 1) |-> b[p + 4 + 2 * (i - 1)] + 256 * b[p + 5 + 2 * (i - 1)]]),
                       p + 4 + 2 * m)

RdOptId(b, p) ==
  LET r == Take(b, p, 1) IN
  IF ~OkP(r) THEN Fail
  ELSE IF r[2][1] = 0 THEN Ok(<<"n">>, p + 1)
  ELSE LET g == Take(b, p + 1, 16) IN IF OkP(g) THEN Ok(<<"g", g[2]>>, p + 17) ELSE Fail
EncOptId(id) == IF id[1] = "n" THEN <<0>> ELSE <<1>> \o id[2]

\* an identifier as displayed: which stored byte supplies each displayed byte
GuidPerm == <<4, 3, 2, 1, 8, 7, 6, 5, 12, 11, 10, 9, 16, 15, 14, 13>>
GuidShown(b) == Tup([i \in 1..16 |-> b[GuidPerm[i]]])
===============================================================================
