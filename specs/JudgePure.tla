----------------------------- MODULE JudgePure -----------------------------
(* Inspecting a value is not an action on it: the state of the caller's objects stutters. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLE l
Clauses(r) == (IF r.err = "" THEN {} ELSE {"unexpected-error"}) \cup
              (IF r.before = r.after THEN {} ELSE {"input-modified"})
Init == l = 1
Next == /\ l <= Len(Recs)
        /\ LET bad == Clauses(Recs[l]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[l].id, bad>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
