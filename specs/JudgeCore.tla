----------------------------- MODULE JudgeCore -----------------------------
(***************************************************************************)
(* Trace specification of the inference: every record is one call of the   *)
(* real LazyTypeHint.from_data(value).to_string() and must be explained by *)
(* Types/PyModule.  One state per record; verdicts are total and name the  *)
(* clauses that fail.  Which clauses are judged is chosen by Focus.        *)
(***************************************************************************)
EXTENDS PyModule, Json, IOUtils

O == INSTANCE Objects
C == INSTANCE Callables
Recs == ndJsonDeserialize(IOEnv.RECS)
Focus == IOEnv.FOCUS

(* The value of a record: objects and callables are told by what Python says of them. *)
Value(r) == CASE r.kind = "objects" -> O!Known(r.value) [] r.kind = "callables" -> C!Fill(r.value) [] OTHER -> r.value
Sound(r)  == IF Has(Trunc(Value(r), r.strat), Meaning(r.mod)) THEN {} ELSE {"value-is-not-an-instance-of-its-type"}
TightV(r) == IF Tight(Trunc(Value(r), r.strat), Meaning(r.mod)) THEN {} ELSE {"type-is-not-exact"}
Equal(r)  == IF Meaning(r.mod) = Infer(Value(r), r.strat) THEN {} ELSE {"type-differs-from-the-specified-one"}
(* Columns that cannot be written leave the definition of their contents unused. *)
RECURSIVE Unwritable(_)
Unwritable(v) == (v.k = "frame" /\ \E i \in 1..Len(v.ks) : v.ks[i].t = "tuple") \/ \E i \in 1..Len(v.xs) : Unwritable(v.xs[i])
(* The annotations of the callables may use any name. *)
Unknown(r) == IF \E i \in 1..Len(r.mod.defs) : \E n \in Refs(r.mod, i) \cap DOMAIN Home : n \notin ImportedAs(r.mod) \cup DefNames(r.mod)
                THEN {"undefined-name"} ELSE {}
Formed(r) ==
  (IF r.exec \/ r.kind = "callables" THEN {} ELSE {"module-cannot-be-imported"}) \cup
  CASE r.kind = "frames" /\ Unwritable(r.value) -> WellFormed(r.mod, r.cls) \ {"dead-definition"}
    [] r.kind = "callables" -> (WellFormed(r.mod, r.cls) \ {"undefined-name"}) \cup Unknown(r)
    [] OTHER -> WellFormed(r.mod, r.cls)
Placed(r) == Layout(r.mod, r.strat.min) \ IF r.kind = "frames" /\ Unwritable(r.value) THEN {"alias-too-low"} ELSE {}

(* Records that carry a second module generated for an input that must be given the same meaning *)
Same(r) == IF Len(r.alt) = 0 THEN {} ELSE
           IF \A i \in 1..Len(r.alt) : Meaning(r.alt[i]) = Meaning(r.mod) THEN {} ELSE {"meaning-changed"}

Clauses(r) ==
  IF r.err # "" THEN {"unexpected-error"}
  ELSE CASE Focus = "sound"  -> Sound(r)
         [] Focus = "tight"  -> TightV(r)
         [] Focus = "equal"  -> Equal(r)
         [] Focus = "formed" -> Formed(r)
         [] Focus = "formed-equal" -> Formed(r) \cup Equal(r)
         [] Focus = "layout" -> Placed(r) \cup Same(r)
         [] Focus = "same-equal" -> Same(r) \cup Equal(r)
         [] Focus = "same"   -> Same(r)
         [] Focus = "all"    -> Sound(r) \cup TightV(r) \cup Equal(r) \cup Formed(r) \cup Placed(r) \cup Same(r)

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Recs)
        /\ LET bad == Clauses(Recs[l]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[l].id, bad>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
