----------------------------- MODULE JudgeFrames -----------------------------
(* Trace specification of the tables found in the data. *)
EXTENDS PyModule, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)

Masks == {"npt.NDArray[np.bool_]", "npt.NDArray[np.str_]", "List[Union[Scalar, Tuple[Hashable, ...]]]"}
Rest == {"'pd.Series[bool]'", "pd.DataFrame", "pd.Index"}
RECURSIVE Commas(_)
Commas(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o Commas(Tail(ss))
Names(d) == "Literal[" \o Commas([i \in 1..Len(d.overs) |-> d.overs[i].key]) \o "]"

(* What a table can be asked for, apart from each of its columns. *)
Asked(mod, S) ==
  UNION {LET d == mod.defs[i] IN
         IF d.form # "frame" THEN {}
         ELSE LET n == Len(d.keys)
                  one == IF n = 0 THEN {} ELSE ToSet(d.keys[n].elts)
              IN IF /\ n > 0 /\ ~d.keys[n].over
                    /\ \A j \in 1..n : d.keys[j].ret = "Union[pd.Series, pd.DataFrame]" /\ ToSet(d.keys[j].elts) = one
                    /\ IF S.pandas = "Full type hint"
                         THEN n = 1 /\ one \in {Masks \cup {Names(d)}, Masks \cup {Names(d), "Hashable"}}
                         ELSE n = 2 /\ one = Masks \cup Rest \cup {"str"}
                   THEN {} ELSE {"wrong-keys"}
         : i \in 1..Len(mod.defs)}

RECURSIVE Columns(_)
Columns(v) == (IF v.k = "frame" THEN ToSet(v.ks) ELSE {}) \cup UNION {Columns(v.xs[i]) : i \in 1..Len(v.xs)}
Unwritable(v) == \E k \in Columns(v) : k.t = "tuple"
AnyHashable(mod) == \E i \in 1..Len(mod.defs) : \E j \in 1..Len(mod.defs[i].keys) : "Hashable" \in ToSet(mod.defs[i].keys[j].elts)

Clauses(r) ==
  IF r.err # "" THEN {"unexpected-error"}
  ELSE (IF Meaning(r.mod) = Infer(r.value, r.strat) THEN {} ELSE {"wrong-description"})
       \cup ((WellFormed(r.mod, r.cls) \cup Layout(r.mod, r.strat.min)) \ IF Unwritable(r.value) THEN {"dead-definition", "alias-too-low"} ELSE {}) \cup Asked(r.mod, r.strat)
       \cup (IF AnyHashable(r.mod) /\ ~Unwritable(r.value) THEN {"wrong-keys"} ELSE {})
       \cup (IF r.exec THEN {} ELSE {"not-importable"})
       \cup (IF r.before = r.after THEN {} ELSE {"data-altered"})

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Recs)
        /\ LET bad == Clauses(Recs[l]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[l].id, bad>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
