------------------------------- MODULE RaceMC -------------------------------
(***************************************************************************)
(* Two processes generating live type hints at once, step by step, in any  *)
(* interleaving, each of them dying at any point or not.                   *)
(*                                                                         *)
(* UNIQUE = "1": every write uses a temporary file of its own.  With a     *)
(* shared one the invariants do not hold (checked as well).                *)
(*                                                                         *)
(* There is no lock: the class that one process adds to the interface may  *)
(* be lost when the other one writes its own (NoLostUpdate does not hold,  *)
(* checked as well).  What is guaranteed is that nothing is ever torn, that*)
(* what is listed is complete, that what was listed remains, and that the  *)
(* class of the last process to finish is listed.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, IOUtils
Unique == IOEnv.UNIQUE = "1"
Procs == 1..2
Classes == {"A", "B"}
NoFile == "none"
Torn == "torn"
Old == "old"                                   \* what was there before; process p writes By[p]
By == <<"first", "second">>

VARIABLES pyi, file, aside, pc, job, seen, last
vars == <<pyi, file, aside, pc, job, seen, last>>
Temp(p, target) == IF Unique THEN <<p, target>> ELSE <<0, target>>
Put(f, k, x) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN x ELSE f[q]]
Drop(f, k) == [q \in DOMAIN f \ {k} |-> f[q]]

Init == /\ \E past \in {<<>>, <<"A">>} :
             pyi = past /\ file = [c \in Classes |-> IF c \in ToSet(past) THEN Old ELSE NoFile]
        /\ job \in [Procs -> Classes]
        /\ aside = <<>> /\ pc = [p \in Procs |-> "load"] /\ seen = [p \in Procs |-> <<>>] /\ last = 0

Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Read(p) == /\ pc[p] = "load" /\ seen' = [seen EXCEPT ![p] = pyi]
           /\ Goto(p, IF \E c \in ToSet(pyi) : file[c] = NoFile THEN "failed" ELSE "open class")
           /\ UNCHANGED <<pyi, file, aside, job, last>>
(* Opening a temporary file empties it; then it is filled, and takes the place of the other. *)
Open(p, l, target, next) ==
  /\ pc[p] = l /\ aside' = Put(aside, Temp(p, target), <<"torn">>) /\ Goto(p, next) /\ UNCHANGED <<pyi, file, job, seen, last>>
Fill(p, l, target, x, next) ==
  /\ pc[p] = l /\ aside' = Put(aside, Temp(p, target), x) /\ Goto(p, next) /\ UNCHANGED <<pyi, file, job, seen, last>>
Replace(p, l, target, next) ==
  /\ pc[p] = l /\ UNCHANGED <<job, seen>>
  /\ IF Temp(p, target) \notin DOMAIN aside THEN Goto(p, "failed") /\ UNCHANGED <<pyi, file, aside, last>>
     ELSE LET x == aside[Temp(p, target)] IN
          /\ aside' = Drop(aside, Temp(p, target)) /\ Goto(p, next)
          /\ IF target = "pyi" THEN pyi' = x /\ last' = p /\ UNCHANGED file
             ELSE file' = [file EXCEPT ![target] = x[1]] /\ UNCHANGED <<pyi, last>>
Die(p) == pc[p] \notin {"end", "failed", "dead"} /\ Goto(p, "dead") /\ UNCHANGED <<pyi, file, aside, job, seen, last>>

Step(p) ==
  \/ Read(p) \/ Die(p)
  \/ Open(p, "open class", job[p], "fill class")
  \/ Fill(p, "fill class", job[p], <<By[p]>>, "replace class")
  \/ Replace(p, "replace class", job[p], IF job[p] \in ToSet(seen[p]) THEN "end" ELSE "open pyi")
  \/ Open(p, "open pyi", "pyi", "fill pyi")
  \/ Fill(p, "fill pyi", "pyi", Append(seen[p], job[p]), "replace pyi")
  \/ Replace(p, "replace pyi", "pyi", "end")
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars

NeverTorn == pyi # <<"torn">> /\ \A c \in Classes : file[c] # Torn
ListedAreComplete == \A c \in ToSet(pyi) \cap Classes : file[c] \in {By[1], By[2], Old}
NeverFails == \A p \in Procs : pc[p] # "failed"
Remains == [][ToSet(pyi) \cap {"torn"} = {} => \A c \in Classes : file[c] = Old /\ c \in ToSet(pyi) => c \in ToSet(pyi')]_vars
LastIsListed == last # 0 => job[last] \in ToSet(pyi)
NoLostUpdate == \A p \in Procs : pc[p] = "end" => job[p] \in ToSet(pyi)
=============================================================================
