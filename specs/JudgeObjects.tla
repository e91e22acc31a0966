---------------------------- MODULE JudgeObjects ----------------------------
(* Trace specification of objects of any class found in the data. *)
EXTENDS PyModule, Json, IOUtils
O == INSTANCE Objects
Recs == ndJsonDeserialize(IOEnv.RECS)

Clauses(r) ==
  IF r.err # "" THEN {"unexpected-error"}
  ELSE LET v == O!Known(r.value) IN
       (IF Meaning(r.mod) = Infer(v, r.strat) THEN {} ELSE {"wrong-description"})
       \cup WellFormed(r.mod, r.cls) \cup Layout(r.mod, r.strat.min)
       \cup (IF r.exec THEN {} ELSE {"not-importable"})
       \cup (IF r.before = r.after THEN {} ELSE {"altered"})

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Recs)
        /\ LET bad == Clauses(Recs[l]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[l].id, bad>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
