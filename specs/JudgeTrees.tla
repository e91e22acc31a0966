----------------------------- MODULE JudgeTrees -----------------------------
(***************************************************************************)
(* Records of two values (and the first one made again): how their trees   *)
(* compare, and the nodes of the first, as built (nodes), once rendered    *)
(* (after) and once renamed (more).                                        *)
(***************************************************************************)
EXTENDS Trees, Json, IOUtils

O == INSTANCE Objects
C == INSTANCE Callables
Recs == ndJsonDeserialize(IOEnv.RECS)
Known(kind, v) == CASE kind = "objects" -> O!Known(v) [] kind = "callables" -> C!Fill(v) [] OTHER -> v

RECURSIVE Unwritable(_)
Unwritable(v) == (v.k = "frame" /\ \E i \in 1..Len(v.ks) : v.ks[i].t = "tuple") \/ \E i \in 1..Len(v.xs) : Unwritable(v.xs[i])

Compared(r, e) ==
  LET same == SameTree(Known(r.kind, r.value), Known(r.kind, r.other), r.strat) IN
  IF e[1] # e[2] \/ e[1] # e[3] \/ e[1] # e[6] \/ ~e[5] THEN {"comparison-is-not-coherent"}
  ELSE IF ~e[4] THEN {"made-again-it-differs"}
  ELSE IF e[1] /\ ~same THEN {"different-trees-are-equal"}
  ELSE IF same /\ ~e[1] THEN {"equal-trees-differ"} ELSE {}

Clauses(r) ==
  IF r.err # "" THEN {"unexpected-error"}
  ELSE UNION {Compared(r, r.eq[i]) : i \in 1..Len(r.eq)}
    \cup (IF r.hash[3] /\ (r.eq[1][1] => r.hash[2]) THEN {} ELSE {"equal-trees-have-other-hash"})
    \cup Linked(r.nodes)
    \cup (IF r.after = r.nodes /\ r.more = r.nodes THEN {} ELSE {"nodes-altered"})
    \* columns that cannot be written have nodes but no type
    \cup (IF Unwritable(r.value) \/ r.nodes[1].height = Height(Infer(Known(r.kind, r.value), r.strat)) THEN {} ELSE {"wrong-height"})
    \cup (IF r.str THEN {} ELSE {"str-is-another-text"})
    \cup (IF Meaning(r.renamed) = Meaning(r.mod) THEN {} ELSE {"renaming-alters-the-type"})

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Recs)
        /\ LET bad == Clauses(Recs[l]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[l].id, bad>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
