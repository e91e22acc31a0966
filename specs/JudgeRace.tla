------------------------------ MODULE JudgeRace ------------------------------
(***************************************************************************)
(* Trace specification of two processes at once (see RaceMC).  A record is *)
(* a history, a pair of events, and the different runs of the pair: what   *)
(* came out of each of them and what was on the disk at three moments, the *)
(* last one being the end.                                                 *)
(***************************************************************************)
EXTENDS JudgeLive

RECURSIVE After(_, _)
After(evs, s) == IF evs = <<>> THEN s
                 ELSE LET fit == {o \in L!Step(s, Head(evs), Content(Head(evs))) : o.out = Head(evs).out}
                      IN IF fit = {} THEN s ELSE After(Tail(evs), (CHOOSE o \in fit : TRUE).st)

Writes(rec, P) == {<<rec.pair[p].cls, Content(rec.pair[p])>> : p \in P}
(* Texts that a class may have: what it had, unless it must be one of the ones written. *)
Texts(c, s0, W, must) ==
  LET new == {w[2] : w \in {v \in W : v[1] = c}} IN
  IF c \in DOMAIN s0.store /\ ~(must /\ new # {}) THEN new \cup {s0.store[c]} ELSE new
(* One state for each choice of classes and texts *)
States(order, s0, W, must) ==
  {[listed |-> order, store |-> f] : f \in {g \in [ToSet(order) -> UNION {Texts(c, s0, W, must) : c \in ToSet(order)}] :
                                              \A c \in ToSet(order) : g[c] \in Texts(c, s0, W, must)}}
Orders(s0, W) == LET new == {w[1] : w \in W} \ L!Listed(s0)
                 IN {s0.listed} \cup {Append(s0.listed, c) : c \in new}
                      \cup {s0.listed \o <<c, d>> : c \in new, d \in new}
NoRepeats(s) == Cardinality(ToSet(s)) = Len(s)
Found(obs, states) == \E s \in states : Shows(obs, s) = {}

RunBad(rec, s0, run) ==
  LET P == {p \in 1..2 : run.outs[p] = "ok"}
      all == Writes(rec, 1..2)
      done == Writes(rec, P)
      new == {w[1] : w \in done} \ L!Listed(s0)
      any == UNION {States(o, s0, all, FALSE) : o \in {q \in Orders(s0, all) : NoRepeats(q)}}
      end == UNION {States(o, s0, done, TRUE) : o \in {q \in Orders(s0, done) :
                                                        NoRepeats(q) /\ (new = {} \/ new \cap ToSet(q) # {})}}
      \* what the other process may have left when this one looked at it
      views(p) == LET w == rec.pair[3 - p] IN {s0} \cup {o.st : o \in L!Step(s0, w, Content(w))}
      outs(p) == {o.out : o \in UNION {L!Step(s, rec.pair[p], Content(rec.pair[p])) : s \in views(p)}}
  IN (IF \A i \in 1..2 : Found(run.obs[i], any) THEN {}
      ELSE {"unusable-while-both-work"})
     \cup (IF Found(run.obs[3], end) THEN {} ELSE {"unusable-in-the-end"})
     \cup (IF \A p \in 1..2 : run.outs[p] \in outs(p) THEN {} ELSE {"failed"})

RaceBad(rec) == LET s0 == After(rec.history, L!Empty) IN
                UNION {RunBad(rec, s0, rec.runs[i]) : i \in 1..Len(rec.runs)}
RNext == /\ r <= Len(Recs)
         /\ LET bad == RaceBad(Recs[r]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[r].id, bad>>)
         /\ r' = r + 1 /\ TLCSet(1, r) /\ UNCHANGED <<e, st>>
RSpec == Init /\ [][RNext]_vars
=============================================================================
