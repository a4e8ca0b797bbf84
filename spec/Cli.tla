---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The converter's command line.  The state is a directory (names to       *)
(* contents); every step is one run of the program with some arguments and *)
(* some answers on its input.                                              *)
(*                                                                         *)
(* Contents: <<"sav", document, save type>>, <<"json", document, nulls?>>, *)
(*   <<"junk", kind>> (neither), <<"dir">>.                                *)
(* Documents: option, world, local, player, base, store, nan (holds        *)
(*   infinities), nanned (nan after a passage through nulls).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS K,        \* runs
          FAMILY    \* what is varied, see Init
VARIABLES fs, start, hist
vars == <<fs, start, hist>>

EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Chop(s, x) == SubSeq(s, 1, Len(s) - Len(x))
Single == 49
Double == 50
SaveType(doc) == IF doc \in {"world", "local", "nan", "nanned"} THEN Double ELSE Single
Nanned(doc) == IF doc = "nan" THEN "nanned" ELSE doc
DocSet == {"option", "world", "local", "player", "base", "store", "nan"}

Exists(f, n) == n \in DOMAIN f
\* in a directory that does not exist
Homeless(f, n) == n = "" \/ \E d \in {"gone/", "sub/"} : /\ Len(n) > Len(d) /\ SubSeq(n, 1, Len(d)) = d
                                                      /\ Chop(d, "/") \notin DOMAIN f

(***************************************************************************)
(* One run.  o: in, to, from, force, minify, nulls, out ("" if not given), *)
(* bogus; answers: sequence of lines, then the end of the input.           *)
(***************************************************************************)
Direction(o) ==
  IF o.to /\ o.from THEN "both"
  ELSE IF o.to THEN "json" ELSE IF o.from THEN "sav"
  ELSE IF EndsWith(o.in, ".sav") THEN "json"
  ELSE IF EndsWith(o.in, ".json") THEN "sav" ELSE "none"
OutputOf(o) ==
  IF o.out # "" THEN o.out
  ELSE IF Direction(o) = "json" THEN o.in \o ".json"
  ELSE IF EndsWith(o.in, ".json") THEN Chop(o.in, ".json") ELSE o.in \o ".sav"
RECURSIVE Confirmed(_)
Confirmed(answers) == IF answers = <<>> THEN FALSE
                      ELSE IF answers[1] \in {"y", "Y"} THEN TRUE
                      ELSE IF answers[1] \in {"n", "N"} THEN FALSE
                      ELSE Confirmed(Tail(answers))
Convert(dir, content, nulls) ==
  CASE dir = "json" /\ content[1] = "sav" -> <<"json", content[2], nulls>>
    [] dir = "sav" /\ content[1] = "json" ->
         LET d == IF content[3] THEN Nanned(content[2]) ELSE content[2] IN <<"sav", d, SaveType(d)>>
    [] OTHER -> <<"bad">>
\* "any": not determined
Run(f, o, answers) ==
  LET dir == Direction(o)
      failed == [fs |-> f, status |-> "nonzero"]
      out == OutputOf(o)
      res == Convert(dir, f[o.in], o.nulls)
  IN IF o.bogus \/ dir = "both" THEN failed
     ELSE IF ~Exists(f, o.in) THEN failed
     ELSE IF f[o.in] = <<"dir">> THEN failed
     ELSE IF dir = "none" THEN [fs |-> f, status |-> "any"]
     ELSE IF Exists(f, out) /\ ~o.force /\ ~Confirmed(answers) THEN failed
     ELSE IF res = <<"bad">> THEN failed
     ELSE IF Homeless(f, out) \/ (Exists(f, out) /\ f[out] = <<"dir">>) THEN failed
     ELSE [fs |-> (out :> res) @@ f, status |-> "zero"]

Opt(in, to, from, force, minify, nulls, out, bogus) ==
  [in |-> in, to |-> to, from |-> from, force |-> force, minify |-> minify, nulls |-> nulls, out |-> out, bogus |-> bogus]
Args(o) == (IF o.to THEN <<"--to-json">> ELSE <<>>) \o (IF o.from THEN <<"--from-json">> ELSE <<>>)
           \o <<o.in>> \o (IF o.force THEN <<(IF o.minify THEN "-f" ELSE "--force")>> ELSE <<>>)
           \o (IF o.minify THEN <<"--minify-json">> ELSE <<>>) \o (IF o.nulls THEN <<"--convert-nan-to-null">> ELSE <<>>)
           \o (IF o.out # "" THEN <<(IF o.force THEN "-o" ELSE "--output"), o.out>> ELSE <<>>)
           \o (IF o.bogus THEN <<"--no-such-option">> ELSE <<>>)

\* the same run asked of the converter's functions from Python; "" if it is not theirs to decide
Call(o) == [dir |-> IF o.bogus \/ Direction(o) \in {"both", "none"} THEN "" ELSE Direction(o), in |-> o.in, out |-> OutputOf(o),
            force |-> o.force, minify |-> o.minify, nulls |-> o.nulls]

AnswerSets == {<<>>, <<"y">>, <<"Y">>, <<"n">>, <<"N", "y">>, <<"n", "y">>, <<"", "n">>, <<"x">>, <<"nope", "", "N">>}
Junks == {<<"junk", j>> : j \in {"empty", "text", "cut", "flipped", "oldtype", "brokenjson", "notadocument", "badvalue", "zeros", "cutjson", "foreign", "raw"}}
Contents == {<<"sav", d, t>> : d \in {"option", "world"}, t \in {Single, Double}} \union {<<"sav", d, SaveType(d)>> : d \in DocSet}
            \union {<<"json", d, n>> : d \in DocSet, n \in {FALSE, TRUE}} \union Junks \union {<<"dir">>}
InNames == {"x.sav", "x.json", "x.sav.json", "x", "x.dat", "x.json.sav", "x.json.json", "d.json/x.sav", "d.sav/x.json", "a b.sav",
            ".json", ".sav", "xsav", "xjson", "x.json.bak", "d.json/x", "x@.sav", "%.sav.json", "x@%"}
\* @ and % stand for a letter and a byte that standard output cannot show
\* bystanders
Keep == ("keep.txt" :> <<"junk", "text">>) @@ ("keep.json" :> <<"json", "base", FALSE>>) @@ ("keep.sav" :> <<"sav", "player", Single>>)
Put(f, n, c) == (n :> c) @@ f
F == FALSE
T == TRUE
\* one run: an initial directory and a run
Prompts(f, o) == /\ ~o.force /\ Direction(o) \in {"json", "sav"} /\ Exists(f, o.in) /\ f[o.in] # <<"dir">> /\ Exists(f, OutputOf(o))
AnswersFor(f, o) == IF ~Prompts(f, o) THEN {<<>>} ELSE IF FAMILY \in {"output", "sequence"} THEN AnswerSets ELSE {<<"Y">>, <<"", "n">>, <<>>}
Did(f, o, a) == LET r == Run(f, o, a) IN
  /\ fs' = r.fs /\ UNCHANGED start
  /\ hist' = Append(hist, [args |-> Args(o), call |-> Call(o), answers |-> a, minify |-> o.minify, status |-> r.status,
                           changed |-> IF r.status = "zero" THEN OutputOf(o) ELSE "", fs |-> r.fs])

(***************************************************************************)
(* Families of single runs.                                                *)
(***************************************************************************)
Runs(f, in) ==
  CASE FAMILY = "direction" ->      \* every name, content and direction
         {Opt(in, to, from, F, mi, F, "", F) : to \in {F, T}, from \in {F, T}, mi \in {F, T}}
    [] FAMILY = "output" ->         \* every way of naming the output
         {Opt(in, to, from, force, F, F, out, F) : to \in {F, T}, from \in {F, T}, force \in {F, T},
             out \in {"", "o.out", "keep.txt", "keep.json", "keep.sav", in, "gone/o.json", "sub", "sub/o.sav", "o.sav.json", "x.sav", "o@%"}}
    [] FAMILY = "options" ->
         {Opt(in, F, F, force, mi, nu, out, bo) : force \in {F, T}, mi \in {F, T}, nu \in {F, T}, out \in {"", "keep.sav"}, bo \in {F, T}}
    [] FAMILY = "sequence" ->
         {Opt(in, to, from, force, mi, nu, out, F) : to \in {F, T}, from \in {F, T}, force \in {F, T}, mi \in {F, T}, nu \in {F, T},
             out \in {"", "o.out", "x.sav", "x.json", "keep.sav", in}}
Names == CASE FAMILY = "direction" -> InNames
           [] FAMILY = "output" -> {"x.sav", "x.json", "x"}
           [] FAMILY = "options" -> {"x.sav", "x.json"}
           [] FAMILY = "sequence" -> {"x.sav", "x.json"}
InitContents == CASE FAMILY = "direction" -> Contents \union {<<"none">>}
                  [] FAMILY = "output" -> {<<"sav", "world", Double>>, <<"json", "local", FALSE>>, <<"junk", "cut">>, <<"junk", "badvalue">>, <<"junk", "brokenjson">>, <<"none">>}
                  [] FAMILY = "options" -> Contents \union {<<"none">>}
                  [] FAMILY = "sequence" -> {<<"sav", "nan", Double>>, <<"json", "world", FALSE>>, <<"junk", "cut">>, <<"sav", "option", Single>>}
\* what the output is likely to be called
DefaultOut(n) == IF EndsWith(n, ".json") THEN Chop(n, ".json") ELSE n \o ".json"
Before(n, c) == LET f == IF c = <<"none">> THEN Keep ELSE Put(Keep, n, c) IN
  {f, Put(f, "sub", <<"dir">>)} \union (IF DefaultOut(n) = "" THEN {} ELSE {Put(f, DefaultOut(n), <<"junk", "text">>)})
                              \union (IF FAMILY = "direction" THEN {Put(f, n \o ".sav", <<"junk", "text">>)} ELSE {})
\* the file meant when there are no names to choose among
Init == /\ hist = <<>>
        /\ \E n \in Names, c \in InitContents : start \in {<<n, f>> : f \in Before(n, c)}
        /\ fs = start[2]
Next == IF FAMILY = "sequence"
        THEN \/ /\ Len(hist) < K - 1
                /\ \E in \in {RandomElement(DOMAIN fs)} : \E o \in {RandomElement(Runs(fs, in))} :
                      \E a \in {RandomElement(AnswersFor(fs, o))} : Did(fs, o, a)
             \/ /\ Len(hist) = K - 1
                /\ Did(fs, Opt("nothing.sav", F, F, F, F, F, "", F), <<>>)
        ELSE /\ Len(hist) < K
             /\ \E o \in Runs(fs, start[1]) : \E a \in AnswersFor(fs, o) : Did(fs, o, a)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Theorems.                                                               *)
(***************************************************************************)
LastRun(h) == h[Len(h)]
\* nothing is lost or made but the one output, and existing files only with leave
NoDamage == [][LET h == LastRun(hist') IN
               /\ \A n \in DOMAIN fs : n \in DOMAIN fs' /\ (fs'[n] # fs[n] => n = h.changed)
               /\ \A n \in DOMAIN fs' : n \in DOMAIN fs \/ n = h.changed
               /\ \A n \in DOMAIN fs : fs'[n] # fs[n] =>
                    (\E i \in 1..Len(h.args) : h.args[i] \in {"-f", "--force"}) \/ (\E i \in 1..Len(h.answers) : h.answers[i] \in {"y", "Y"})
               /\ h.status = "nonzero" => fs' = fs]_vars
Hand(x) == PrintT("VEC " \o ToJson(x))
Pairs(f) == {<<n, f[n]>> : n \in DOMAIN f}
Emit == Len(hist) = K => Hand(<<"cli", FAMILY, SetToSeq(Pairs(start[2])),
          [i \in 1..K |-> [hist[i] EXCEPT !.fs = SetToSeq(Pairs(hist[i].fs))]]>>)
===============================================================================
