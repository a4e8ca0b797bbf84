---------------------------------- MODULE Session ----------------------------------
(***************************************************************************)
(* One process working on several documents.  Every document exists in two *)
(* versions (0 and 1, one edit apart).  What an operation gives depends    *)
(* only on the version the document is in, never on what happened to it or *)
(* to the others before: `out` says what the last operation must give.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS D,      \* number of documents
          K,      \* number of operations
          RANDOM, SCRIPTED
VARIABLES slot,   \* per document: what is in memory, <<"none">> or <<how it came, version, written before?>>
          text,   \* per document: the version of the last export (or -1), made after writing?
          hist    \* the operations so far with what they must give
vars == <<slot, text, hist>>
Docs == 1..D

Init == /\ slot = [d \in Docs |-> <<"none">>]
        /\ text = [d \in Docs |-> <<-1, FALSE>>]
        /\ hist = <<>>
Did(op, d, out) == hist' = Append(hist, <<op, d, out>>)
Held(d) == slot[d][1] # "none"

Read(d, v) == /\ slot' = [slot EXCEPT ![d] = <<"read", v, FALSE>>]
              /\ UNCHANGED text
              /\ Did(IF v = 0 THEN "read0" ELSE "read1", d, v)
\* the plain export of what is in memory
Dump(d) == /\ Held(d)
           /\ text' = [text EXCEPT ![d] = <<slot[d][2], slot[d][3]>>]
           /\ UNCHANGED slot
           /\ Did(IF slot[d][3] THEN "dumpwritten" ELSE "dump", d, slot[d][2])
Load(d) == /\ text[d][1] >= 0
           /\ slot' = [slot EXCEPT ![d] = <<"json", text[d][1], text[d][2]>>]
           /\ UNCHANGED text
           /\ Did("load", d, text[d][1])
Write(d) == /\ Held(d)
            /\ slot' = [slot EXCEPT ![d][3] = TRUE]
            /\ UNCHANGED text
            /\ Did("write", d, slot[d][2])
\* the document in memory is edited into its other version
Edit(d) == /\ Held(d) /\ ~slot[d][3]
           /\ slot' = [slot EXCEPT ![d][2] = 1 - slot[d][2]]
           /\ UNCHANGED text
           /\ Did("edit", d, 1 - slot[d][2])
\* operations that leave everything as it is
Aside(d) == /\ UNCHANGED <<slot, text>>
            /\ \E op \in {"readcut", "writebroken", "selected", "nulls", "files"} : Did(op, d, 0)
Step(d) == \/ \E v \in {0, 1} : Read(d, v)
           \/ Dump(d) \/ Load(d) \/ Write(d) \/ Edit(d) \/ Aside(d)
\* a random behaviour ends with an operation that does nothing, so that it is handed over once
End == Len(hist) = K - 1 /\ UNCHANGED <<slot, text>> /\ Did("end", 1, 0)
\* one long behaviour for every document the harness has: documents 1 and 2 start alike, and
\* 3 is the same the other way round
Script == <<<<"read0", 1>>, <<"edit", 1>>, <<"read0", 2>>, <<"dump", 2>>, <<"write", 2>>, <<"dump", 1>>, <<"write", 1>>,
            <<"read0", 3>>, <<"dump", 3>>, <<"edit", 3>>, <<"write", 3>>, <<"read0", 1>>, <<"dump", 1>>, <<"load", 2>>, <<"edit", 2>>,
            <<"write", 2>>, <<"read1", 2>>, <<"dump", 2>>, <<"write", 2>>, <<"write", 1>>, <<"dumpwritten", 1>>, <<"load", 1>>, <<"write", 1>>>>
\* (in the script, the last export is loaded)
StepNamed(op, d) == CASE op = "read0" -> Read(d, 0) [] op = "read1" -> Read(d, 1) [] op \in {"dump", "dumpwritten"} -> Dump(d)
                      [] op = "load" -> Load(d) [] op = "write" -> Write(d) [] op = "edit" -> Edit(d)
Next == IF SCRIPTED THEN Len(hist) < K /\ StepNamed(Script[Len(hist) + 1][1], Script[Len(hist) + 1][2])
        ELSE IF RANDOM THEN (Len(hist) < K - 1 /\ \E d \in Docs : Step(d)) \/ End
        ELSE Len(hist) < K /\ \E d \in Docs : Step(d)
Spec == Init /\ [][Next]_vars

\* what an operation gave is what the document gives alone: its version is that of the
\* last operation that set it
SettingOps == {"read0", "read1", "load", "edit"}
LastSet(d) == LET is == {i \in 1..Len(hist) : hist[i][2] = d /\ hist[i][1] \in SettingOps}
              IN IF is = {} THEN -1 ELSE hist[CHOOSE i \in is : \A j \in is : j <= i][3]
Alone == \A d \in Docs : Held(d) => slot[d][2] = LastSet(d)
\* an operation on one document leaves the others alone
Isolated == [][\A d \in Docs : d # hist'[Len(hist')][2] => slot'[d] = slot[d] /\ text'[d] = text[d]]_vars
Hand(x) == PrintT("VEC " \o ToJson(x))
Full == Len(hist) = K => Hand(<<"session", hist>>)
===============================================================================
