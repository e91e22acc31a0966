------------------------------ MODULE JudgeApi ------------------------------
(* Trace specification of what is asked for and of the files written. *)
EXTENDS Api, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)

Seen(obs) == [dirs |-> ToSet(obs.dirs) \cup {<<>>},
              files |-> [p \in {obs.files[i].path : i \in 1..Len(obs.files)} |->
                           obs.files[CHOOSE i \in 1..Len(obs.files) : obs.files[i].path = p].content]]

RECURSIVE Writes(_, _)
Writes(st, evs) ==
  IF evs = <<>> THEN {}
  ELSE IF Head(evs).ev = "alter" THEN Writes(Alter(st, Head(evs).path, Head(evs).text), Tail(evs))
  ELSE LET e == Head(evs) w == Write(st, e.path, e.create, e.text) IN
       (IF e.out = w.out THEN {} ELSE IF w.out = "ok" THEN {"not-written"} ELSE {"written-where-it-may-not"})
       \cup (IF e.before = e.text THEN {} ELSE {"rendering-changed"})
       \cup (IF Seen(e.obs) = w.st THEN {}
             ELSE IF w.out = "error" THEN {"failed-with-effects"}
             ELSE IF Seen(e.obs).dirs # w.st.dirs \/ DOMAIN Seen(e.obs).files # DOMAIN w.st.files THEN {"other-files-written"}
             ELSE {"other-content-written"})
       \cup Writes(w.st, Tail(evs))

Asked(r) ==
  LET ok == Valid(r) live == r.via \in {"live", "live-yaml"} IN
  (IF r.out = "ok" /\ ~ok THEN {"invalid-request-accepted"} ELSE {}) \cup
  (IF r.out # "ok" /\ ok THEN {"valid-request-rejected"} ELSE {}) \cup
  (IF r.effects # <<>> /\ ~(ok /\ live) THEN {"effects"} ELSE {}) \cup
  (IF r.out = "ok" /\ live /\ r.effects = <<>> THEN {"nothing-written"} ELSE {})

Clauses(r) == IF r.kind = "writes" THEN Writes(Nothing, r.events) ELSE Asked(r)

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Recs)
        /\ LET bad == Clauses(Recs[l]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[l].id, bad>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
