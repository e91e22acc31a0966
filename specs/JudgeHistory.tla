---------------------------- MODULE JudgeHistory ----------------------------
(***************************************************************************)
(* Rendering is a function.  The abstract generator owns, per value and    *)
(* strategies, one text with imports and one without; a history of         *)
(* renderings (several trees, several processes with different hash seeds, *)
(* any interleaving of the options) may only ever show those.  Values with *)
(* sets iterate in an order that depends on the process and on the objects: for those the     *)
(* text is owned by the tree and only the meaning is shared.            *)
(***************************************************************************)
EXTENDS PyModule, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES r, e, seen, meant, defs
vars == <<r, e, seen, meant, defs>>

Key(rec, ev) == <<ev.imports, IF rec.ordered THEN <<0, 0>> ELSE <<ev.proc, ev.tree>>>>
DKey(rec, ev) == IF rec.ordered THEN <<0, 0>> ELSE <<ev.proc, ev.tree>>
Fresh == /\ seen = <<>> /\ meant = <<>> /\ defs = <<>>
Init == r = 1 /\ e = 1 /\ Fresh

(* seen, defs are partial functions represented as sequences of pairs *)
Lookup(f, k) == {f[i][2] : i \in {j \in 1..Len(f) : f[j][1] = k}}

Bad(rec, ev) ==
  LET old == Lookup(seen, Key(rec, ev))
      dd  == Lookup(defs, DKey(rec, ev))
  IN (IF old \subseteq {ev.text} THEN {} ELSE {"text-changed"}) \cup
     (IF dd \subseteq {ev.mod.defs} THEN {} ELSE {"definitions-changed"}) \cup
     (IF ~ev.imports /\ Len(ev.mod.imports) > 0 THEN {"imports-included"} ELSE {}) \cup
     (IF Len(meant) = 0 \/ meant[1] = Meaning(ev.mod) THEN {} ELSE {"meaning-changed"})

Render ==
  /\ r <= Len(Recs) /\ Recs[r].err = "" /\ e <= Len(Recs[r].events)
  /\ LET rec == Recs[r] ev == Recs[r].events[e] bad == Bad(rec, ev) IN
       /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", rec.id, bad>>)
       /\ seen' = Append(seen, <<Key(rec, ev), ev.text>>)
       /\ defs' = Append(defs, <<DKey(rec, ev), ev.mod.defs>>)
       /\ meant' = IF Len(meant) = 0 THEN <<Meaning(ev.mod)>> ELSE meant
  /\ e' = e + 1 /\ UNCHANGED r
NextRecord ==
  /\ r <= Len(Recs) /\ (Recs[r].err # "" \/ e > Len(Recs[r].events))
  /\ IF Recs[r].err = "" THEN TRUE ELSE PrintT(<<"BAD", Recs[r].id, {"unexpected-error"}>>)
  /\ r' = r + 1 /\ e' = 1 /\ seen' = <<>> /\ defs' = <<>> /\ meant' = <<>>
Next == Render \/ NextRecord
Spec == Init /\ [][Next]_vars
Steps == FoldSeq(LAMBDA rec, acc : acc + 1 + IF rec.err = "" THEN Len(rec.events) ELSE 0, 0, Recs)
Consumed == TLCGet("stats").diameter - 1 = Steps
=============================================================================
