----------------------------- MODULE JudgeLive -----------------------------
(***************************************************************************)
(* Trace specification of LazyTypeHintLive: a record is a history of       *)
(* events performed by the real code, with what could be observed on the   *)
(* disk after each.  The state of Live is carried along; every event must  *)
(* be one of its steps and the disk must show exactly that state.          *)
(***************************************************************************)
EXTENDS PyModule, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)

Obj == INSTANCE Objects
Call == INSTANCE Callables
Value(ev) == IF "kind" \notin DOMAIN ev THEN ev.value
             ELSE CASE ev.kind = "objects" -> Obj!Known(ev.value)
                    [] ev.kind = "callables" -> Call!Fill(ev.value)
                    [] OTHER -> ev.value
Docless(mod) == [i \in 1..Len(mod.defs) |->
                   [mod.defs[i] EXCEPT !.doc = "", !.hasdoc = FALSE,
                                       !.fields = [j \in 1..Len(@) |-> [@[j] EXCEPT !.doc = "", !.hasdoc = FALSE]]]]
L == INSTANCE Live WITH MustMatch <- LAMBDA a, b : a.docless = b.docless,
                        MustDiffer <- LAMBDA a, b : a.type # b.type
(* The content an event asks for *)
Content(ev) == IF ev.ev = "gen" /\ ev.valid
                 THEN [type |-> Infer(Value(ev), ev.strat), docless |-> Docless(ev.expect), mod |-> ev.expect]
                 ELSE [type |-> TAny, docless |-> <<>>, mod |-> [imports |-> <<>>, defs |-> <<>>, junk |-> <<>>]]

ClassIn(obs, c) == obs.classes[CHOOSE i \in 1..Len(obs.classes) : obs.classes[i].name = c]
Lits(m) == {i \in 1..Len(m.overs) : ~m.overs[i].base}
Bases(m) == {i \in 1..Len(m.overs) : m.overs[i].base}

Offered(m) == LET lits == SelectSeq(m.overs, LAMBDA o : ~o.base) IN [i \in 1..Len(lits) |-> lits[i].lit]

(* The interface offers exactly the classes listed, in that order *)
Interface(obs, listed) ==
  LET C == ToSet(listed) IN
  IF ~obs.exists THEN IF C = {} THEN {} ELSE {"interface-missing"}
  ELSE IF ~obs.parses THEN {"interface-torn"}
  ELSE
    (IF \A i \in 1..Len(obs.methods) : Offered(obs.methods[i]) = listed
     THEN {} ELSE {"overloads-differ-from-the-classes"}) \cup
    (IF \A i \in 1..Len(obs.methods) :
          LET m == obs.methods[i] IN
          /\ \A j \in Lits(m) : m.overs[j].ret = m.overs[j].lit
          /\ \A j \in 1..Len(m.overs) : m.overs[j].rest = m.overs[Len(m.overs)].rest
     THEN {} ELSE {"wrong-overload"}) \cup
    (IF \A i \in 1..Len(obs.methods) :
          LET m == obs.methods[i] IN
          /\ Bases(m) = {Len(m.overs)} /\ m.overs[Len(m.overs)].ret = "ObjectT"
          /\ \A j \in 1..Len(m.overs) : (C # {} => m.overs[j].over)
     THEN {} ELSE {"generic-signature-lost"}) \cup
    (IF ToSet(obs.imports) = C /\ Len(obs.imports) = Cardinality(C)
          /\ \A i \in 1..Len(obs.classes) : obs.classes[i].orig = obs.classes[i].name
     THEN {} ELSE {"imports-differ-from-the-classes"})

(* The files of the classes hold the contents of the state *)
Contents(obs, st) ==
  UNION {LET found == {i \in 1..Len(obs.classes) : obs.classes[i].name = c} IN
         IF found = {} THEN {"class-missing"}
         ELSE LET k == ClassIn(obs, c) IN
              IF c \notin DOMAIN st.store THEN IF k.file THEN {"class-reappeared"} ELSE {}
              ELSE IF ~k.file THEN {"class-missing"}
              ELSE (IF Len(k.mod.junk) = 0 THEN {} ELSE {"class-torn"}) \cup
                   (IF k.mod = st.store[c].mod THEN {} ELSE {"class-differs"}) \cup
                   (IF Meaning(k.mod) = st.store[c].type THEN {} ELSE {"class-describes-another-type"})
         : c \in L!Listed(st)}
Shows(obs, st) == LET bad == Interface(obs, st.listed) IN
                  IF bad # {} THEN bad ELSE IF obs.exists THEN Contents(obs, st) ELSE {}
Leftovers(ev, obs) == IF ev.ev = "reset" /\ Len(obs.left) > 0 THEN {"leftovers-after-reset"} ELSE {}

VARIABLES r, e, st
vars == <<r, e, st>>
Init == r = 1 /\ e = 1 /\ st = L!Empty

Event ==
  /\ r <= Len(Recs) /\ e <= Len(Recs[r].events)
  /\ LET ev == Recs[r].events[e]
         steps == L!Step(st, ev, Content(ev))
         fit == {s \in steps : s.out = ev.out}
         next == IF fit = {} THEN (CHOOSE s \in steps : TRUE).st ELSE (CHOOSE s \in fit : TRUE).st
         bad == IF fit = {} THEN {IF ev.out = "ok" THEN "accepted" ELSE "rejected"}
                ELSE Shows(ev.obs, next) \cup Leftovers(ev, ev.obs)
                     \cup (IF ev.same THEN {} ELSE {"other-data-returned"})
     IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[r].id, bad>>)
        \* after a discrepancy the rest of the history says nothing
        /\ st' = IF bad = {} THEN next ELSE L!Empty
        /\ e' = IF bad = {} THEN e + 1 ELSE Len(Recs[r].events) + 1
  /\ UNCHANGED r
NextRecord == /\ r <= Len(Recs) /\ e > Len(Recs[r].events)
              /\ r' = r + 1 /\ e' = 1 /\ st' = L!Empty /\ TLCSet(1, r)
Next == Event \/ NextRecord
Spec == Init /\ [][Next]_vars
Consumed == TLCGet(1) = Len(Recs)
=============================================================================
