----------------------------- MODULE JudgeCrash -----------------------------
(***************************************************************************)
(* Trace specification of the crashes.  A record is a history, a last      *)
(* event, and every state of the disk in which that event could have been  *)
(* interrupted: what was observed there, and what came out of each event   *)
(* performed afterwards by another process.  Every crash point must be one *)
(* of the states that Live!Interrupted allows, and work as such.           *)
(***************************************************************************)
EXTENDS JudgeLive

RECURSIVE After(_, _)
After(evs, s) == IF evs = <<>> THEN s
                 ELSE LET fit == {o \in L!Step(s, Head(evs), Content(Head(evs))) : o.out = Head(evs).out}
                      IN IF fit = {} THEN s ELSE After(Tail(evs), (CHOOSE o \in fit : TRUE).st)

Visible(s) == [s EXCEPT !.store = [c \in L!Listed(s) \cap DOMAIN s.store |-> s.store[c]]]
Candidates(rec, s0) == {Visible(s) : s \in L!Interrupted(s0, rec.last, Content(rec.last))}

(* The event performed after the crash does what it would have done in that state. *)
Continues(ev, then, s) ==
  LET fit == {o \in L!Step(s, ev, Content(ev)) : o.out = then.out} IN
  fit # {} /\ Shows(then.obs, (CHOOSE o \in fit : TRUE).st) = {} /\ Leftovers(ev, then.obs) = {}

PointBad(rec, s0, p) ==
  LET shown == {s \in Candidates(rec, s0) : Shows(p.obs, s) = {}}
      events == <<rec.last>> \o rec.after
  IN IF shown = {} THEN {"crash-state-is-neither-old-nor-new"} \cup
                        UNION {Shows(p.obs, s) \cap {"interface-torn", "class-torn", "class-missing"} : s \in Candidates(rec, s0)}
     ELSE IF \E s \in shown : \A i \in 1..Len(p.then) : Continues(events[i], p.then[i], s) THEN {}
     ELSE {"crash-cannot-be-recovered-from"}

CrashBad(rec) == LET s0 == After(rec.history, L!Empty) IN
                 UNION {PointBad(rec, s0, rec.points[i]) : i \in 1..Len(rec.points)}

CNext == /\ r <= Len(Recs)
         /\ LET bad == CrashBad(Recs[r]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[r].id, bad>>)
         /\ r' = r + 1 /\ TLCSet(1, r) /\ UNCHANGED <<e, st>>
CSpec == Init /\ [][CNext]_vars
=============================================================================
