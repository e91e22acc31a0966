--------------------------- MODULE JudgeCallables ---------------------------
(* Trace specification of the callables found in the data. *)
EXTENDS PyModule, Json, IOUtils
C == INSTANCE Callables
Recs == ndJsonDeserialize(IOEnv.RECS)

Protos(mod) == {mod.defs[i].sig : i \in {j \in 1..Len(mod.defs) : mod.defs[j].form = "proto"}}
Clauses(r) ==
  IF r.err # "" THEN {"unexpected-error"}
  ELSE LET v == C!Fill(r.value) IN
       (IF Meaning(r.mod) = Infer(v, r.strat) THEN {} ELSE {"wrong-description"})
       \cup (WellFormed(r.mod, r.cls) \ {"undefined-name"})
       \cup (IF \E i \in 1..Len(r.mod.defs) : \E n \in Refs(r.mod, i) \cap DOMAIN Home : n \notin ImportedAs(r.mod) /\ n \notin DefNames(r.mod)
               THEN {"undefined-name"} ELSE {})
       \cup (IF Cardinality(Protos(r.mod)) = Cardinality({i \in 1..Len(r.mod.defs) : r.mod.defs[i].form = "proto"}) \/ r.apart
               THEN {} ELSE {"described-twice"})

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Recs)
        /\ LET bad == Clauses(Recs[l]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[l].id, bad>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
