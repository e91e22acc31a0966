------------------------------ MODULE JudgeDocs ------------------------------
(* Trace specification of the documentation within the data. *)
EXTENDS Docs, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)

Clauses(r) ==
  IF r.err # "" THEN {"unexpected-error"}
  ELSE (IF Meaning(r.mod) = Infer(r.value, r.strat) THEN {} ELSE {"documentation-changes-the-type"})
       \cup WellFormed(r.mod, r.cls) \cup DocClauses(r.mod, r.value, r.strat)
       \cup (IF r.exec THEN {} ELSE {"not-importable"})

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Recs)
        /\ LET bad == Clauses(Recs[l]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[l].id, bad>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
