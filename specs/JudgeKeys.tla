------------------------------ MODULE JudgeKeys ------------------------------
(***************************************************************************)
(* Trace specification of the modules once imported: r.run is the type     *)
(* that Python itself understands, [k, n, as, fs], without knowing about   *)
(* the text of the module.                                                 *)
(***************************************************************************)
EXTENDS PyModule, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)

TNone == TApp("Optional", <<TName("object")>>)
RECURSIVE Live(_), LiveUnion(_)
Live(e) ==
  CASE e.k = "name" -> TName(e.n)
    [] e.k = "fwd" -> TFwd(e.n)
    [] e.k = "ell" -> TEll
    [] e.k = "union" -> LiveUnion({Live(e.as[i]) : i \in 1..Len(e.as)})
    [] e.k = "td" -> TTD({TFld(e.fs[i].key, e.fs[i].req, e.fs[i].ro, Live(e.fs[i].t)) : i \in 1..Len(e.fs)})
    [] OTHER -> TApp(e.n, [i \in 1..Len(e.as) |-> Live(e.as[i])])
(* Optional[object], next to other types *)
LiveUnion(S) == IF {TName("object"), TName("None")} \subseteq S THEN TUnion((S \ {TName("object"), TName("None")}) \cup {TNone})
                ELSE TUnion(S)

Clauses(r) ==
  IF r.err # "" THEN {"not-importable"}
  ELSE LET t == Infer(r.value, r.strat) IN
       (IF Live(r.run) = t THEN {} ELSE {"means-other-type-once-imported"})
       \cup (IF Meaning(r.mod) = t THEN {} ELSE {"wrong-description"})
       \cup (WellFormed(r.mod, r.cls) \ {"import-shadowed"})

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Recs)
        /\ LET bad == Clauses(Recs[l]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[l].id, bad>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
