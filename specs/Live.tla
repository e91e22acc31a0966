-------------------------------- MODULE Live --------------------------------
(***************************************************************************)
(* LazyTypeHintLive as a state machine over the files it maintains.        *)
(*                                                                         *)
(* A state is [listed, store]: the classes that the interface (the .pyi)   *)
(* offers, in order of appearance, and the content of the type hints of    *)
(* each class.  Contents are opaque here; MustMatch(old, new) tells that   *)
(* the type hints are the same (documentation aside) and MustDiffer that   *)
(* they describe different types.  Neither may hold: validation compares   *)
(* text, and the same type can be written in several ways.                 *)
(*                                                                         *)
(* EVENTS                                                                  *)
(*   gen     an instance in some mode ("overwrite", "validate") is asked   *)
(*           to describe some data under a class name (valid or not)       *)
(*   reset   all the type hints are removed                                *)
(*   lose    somebody deletes the file of a class                          *)
(*   losepyi somebody deletes the interface                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS MustMatch(_, _), MustDiffer(_, _)

Empty == [listed |-> <<>>, store |-> <<>>]
Listed(st) == ToSet(st.listed)
Lost(st) == Listed(st) \ DOMAIN st.store
Without(f, c) == [d \in DOMAIN f \ {c} |-> f[d]]

Put(st, c, x) == [listed |-> IF c \in Listed(st) THEN st.listed ELSE Append(st.listed, c),
                  store  |-> (c :> x) @@ st.store]
Ok(st)  == [out |-> "ok", st |-> st]
Err(st) == [out |-> "error", st |-> st]

(* Errors change nothing. *)
Gen(st, mode, valid, c, x) ==
  IF ~valid \/ Lost(st) # {} THEN {Err(st)}
  ELSE IF mode = "overwrite" \/ c \notin Listed(st) THEN {Ok(Put(st, c, x))}
  ELSE IF MustDiffer(st.store[c], x) THEN {Err(st)}
  ELSE IF MustMatch(st.store[c], x) THEN {Ok(Put(st, c, x))}
  ELSE {Err(st), Ok(Put(st, c, x))}

Step(st, ev, x) ==
  CASE ev.ev = "gen"     -> Gen(st, ev.mode, ev.valid, ev.cls, x)
    [] ev.ev = "reset"   -> {Ok(Empty)}
    [] ev.ev = "lose"    -> {Ok([st EXCEPT !.store = Without(@, ev.cls)])}
    [] ev.ev = "losepyi" -> {Ok([st EXCEPT !.listed = <<>>])}

(* What may be found if the process dies in the middle of an event: nothing happened, everything happened,  *)
(* or the type hints of the class were written (they are complete, but the interface is still the old one). *)
Interrupted(st, ev, x) ==
  {st} \cup {o.st : o \in Step(st, ev, x)}
       \cup (IF ev.ev = "gen" /\ \E o \in Step(st, ev, x) : o.out = "ok"
               THEN {[st EXCEPT !.store = (ev.cls :> x) @@ @]} ELSE {})
=============================================================================
