---------------------------------- MODULE Threads ---------------------------------
(***************************************************************************)
(* Two threads of one process, each converting a document of its own       *)
(* through all the operations.  An operation is not atomic: it runs in     *)
(* PARTS parts, and the threads take turns between parts (`sched` is who   *)
(* ran how many parts before the other went on) or, in the other mode,     *)
(* alternate after every few steps of the code.  Nothing is shared, so     *)
(* what an operation gives is what it gives when the thread is alone.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS PARTS,   \* parts of an operation
          BURSTS,  \* how many times a thread is given the turn at most
          MODE     \* "bursts" or "robin"
VARIABLES at,      \* per thread: parts done
          held,    \* per thread: which document what it holds comes from (0: nothing yet)
          turn,    \* whose turn it is
          sched,   \* the schedule so far
          out      \* what the operations gave, in the order in which they ended
vars == <<at, held, turn, sched, out>>
Workers == {1, 2}
Work == <<"unpack", "read", "dump", "load", "write", "pack">>
All == Len(Work) * PARTS
Other(t) == 3 - t
\* the operations of a thread that end when it goes from a to b parts
Ended(t, a, b) == LET first == a \div PARTS + 1  last == b \div PARTS
                  IN [i \in 1..(IF last >= first THEN last - first + 1 ELSE 0) |-> <<t, Work[first + i - 1], t>>]

Init == /\ at = [t \in Workers |-> 0]
        /\ held = [t \in Workers |-> 0]
        /\ turn = 1
        /\ sched = <<>>
        /\ out = <<>>
Go(t, n) == /\ at' = [at EXCEPT ![t] = at[t] + n]
            /\ held' = [held EXCEPT ![t] = IF at'[t] >= PARTS THEN t ELSE 0]
            /\ out' = out \o Ended(t, at[t], at[t] + n)
\* a thread runs some parts, then the other has its turn (if it has anything left to do)
Burst(n) == /\ Go(turn, n)
            /\ sched' = Append(sched, <<turn, n>>)
            /\ turn' = IF at[Other(turn)] < All THEN Other(turn) ELSE turn
\* the last two turns go to the end
Bursts == /\ \E t \in Workers : at[t] < All
          /\ \E n \in 1..(All - at[turn]) : Burst(n) /\ IF Len(sched) + 2 >= BURSTS THEN n = All - at[turn] ELSE TRUE
\* so many steps of the first, so many of the second, the first going ahead by some
Quanta == {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<8, 8>>, <<34, 34>>, <<89, 89>>, <<233, 233>>, <<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>,
           <<2, 5>>, <<5, 2>>, <<13, 8>>, <<8, 13>>}
Ahead == {0, 1, 2, 3, 5, 9}
Robin == /\ sched = <<>>
         /\ \E q \in Quanta, a \in Ahead : sched' = <<<<0, q[1], q[2], a>>>>
         /\ at' = [t \in Workers |-> All]
         /\ held' = [t \in Workers |-> t]
         /\ out' = Ended(1, 0, All) \o Ended(2, 0, All)
         /\ UNCHANGED turn
Next == IF MODE = "robin" THEN Robin ELSE Bursts
Spec == Init /\ [][Next]_vars

Finished == \A t \in Workers : at[t] = All
\* every operation gives what it gives alone: its own thread's document, in order
Alone == \A t \in Workers : LET mine == SelectSeq(out, LAMBDA o : o[1] = t)
                            IN /\ Len(mine) = at[t] \div PARTS
                               /\ \A i \in 1..Len(mine) : mine[i] = <<t, Work[i], t>>
\* the turn of one thread leaves what the other holds alone
Isolated == [][MODE = "bursts" => at'[Other(turn)] = at[Other(turn)] /\ held'[Other(turn)] = held[Other(turn)]]_vars
Full == Finished => PrintT("VEC " \o ToJson(<<"threads", PARTS, sched>>))
===============================================================================
