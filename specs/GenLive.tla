------------------------------ MODULE GenLive ------------------------------
(***************************************************************************)
(* Behaviours of Live: every history of N events over a small alphabet     *)
(* (breadth first), or random ones over a larger one (-simulate).  Every   *)
(* complete history is printed, to be replayed in the real code.           *)
(* WIDE = "1": more classes, instances, contents and processes.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, IOUtils, Json
N == atoi(IOEnv.N)
Wide == IOEnv.WIDE = "1"
Mode == <<"overwrite", "validate", "overwrite", "validate">>
Instances == IF Wide THEN 1..4 ELSE 1..2
Classes == IF Wide THEN {"A", "AB", "B_A", "Config", "a"} ELSE {"A", "AB"}
Wrong == IF Wide THEN {"1A", "a b", "class", ""} ELSE {"1A"}
(* <<type, documentation>>; the harness has values for every one *)
Contents == IF Wide THEN (1..7) \X (1..2) ELSE {<<1, 1>>, <<1, 2>>, <<2, 1>>}
Vias == IF Wide THEN {"data", "data", "yaml"} ELSE {"data"}
Forks == IF Wide THEN {TRUE, FALSE} ELSE {FALSE}
L == INSTANCE Live WITH MustMatch <- LAMBDA a, b : a[1] = b[1], MustDiffer <- LAMBDA a, b : a[1] # b[1]

VARIABLES hist, st
Gens == {[ev |-> "gen", inst |-> i, mode |-> Mode[i], cls |-> c, valid |-> c \in Classes, content |-> x,
          via |-> v, fork |-> f]
           : i \in Instances, c \in Classes, x \in Contents, v \in Vias, f \in Forks}
        \cup {[ev |-> "gen", inst |-> i, mode |-> Mode[i], cls |-> c, valid |-> FALSE, content |-> <<1, 1>>,
               via |-> "data", fork |-> FALSE] : i \in {1}, c \in Wrong}
Others == {[ev |-> "reset"], [ev |-> "losepyi"]} \cup {[ev |-> "lose", cls |-> c] : c \in DOMAIN st.store}
Init == hist = <<>> /\ st = L!Empty
Do(e) == \E o \in L!Step(st, e, IF e.ev = "gen" THEN e.content ELSE <<0, 0>>) : st' = o.st /\ hist' = Append(hist, e)
(* mostly generations, in the random ones *)
Next == /\ Len(hist) < N
        /\ IF Wide THEN IF RandomElement(1..12) <= 10 THEN Do(RandomElement(Gens)) ELSE Do(RandomElement(Others))
           ELSE \E e \in Gens \cup Others : Do(e)
Spec == Init /\ [][Next]_<<hist, st>>
Emit == Len(hist) = N => PrintT("HIST" \o ToJson(hist))
=============================================================================
