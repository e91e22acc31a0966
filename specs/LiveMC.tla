------------------------------- MODULE LiveMC -------------------------------
(***************************************************************************)
(* The protocol with which the files are written, step by step, with a     *)
(* crash possible before any step, and several processes one after another.*)
(*                                                                         *)
(* Discipline (constants):                                                 *)
(*   Atomic      TRUE: write aside and replace; FALSE: write in place      *)
(*   ClassFirst  TRUE: the file of the class before the interface          *)
(*   PyiFirst    TRUE: reset removes the interface before the classes      *)
(* The invariants hold only with the three of them; LiveMC is also run     *)
(* with each of them off, expecting the violation.                         *)
(* What the steps implement is Live!Step and Live!Interrupted (Refines).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, IOUtils
Classes == {"A", "AB"}
Contents == {<<1, 1>>, <<1, 2>>, <<2, 1>>}      \* <<type, documentation>>
Atomic == IOEnv.ATOMIC = "1"
ClassFirst == IOEnv.CLASSFIRST = "1"
PyiFirst == IOEnv.PYIFIRST = "1"
Torn == <<0, 0>>
NoFile == <<-1, -1>>
L == INSTANCE Live WITH MustMatch <- LAMBDA a, b : a[1] = b[1], MustDiffer <- LAMBDA a, b : a[1] # b[1]

VARIABLES pyi,      \* "none", "torn" or the sequence of classes listed
          file,     \* class -> content, Torn or NoFile
          aside,    \* the temporary file: <<>> or what it holds
          todo,     \* steps left of the event in progress
          ev,       \* the event in progress
          abs,      \* the abstract state before the event
          x         \* the content being written
vars == <<pyi, file, aside, todo, ev, abs, x>>
Idle == [ev |-> "idle"]
Init == /\ pyi = <<>> /\ file = [c \in Classes |-> NoFile] /\ aside = <<>> /\ todo = <<>> /\ ev = Idle
        /\ abs = L!Empty /\ x = NoFile

PyiList == IF pyi \in {<<"none">>, <<"torn">>} THEN <<>> ELSE pyi
Abs == [listed |-> PyiList, store |-> [c \in {d \in Classes : file[d] # NoFile} |-> file[c]]]

Write(target) == IF Atomic THEN <<<<"aside-torn", target>>, <<"aside", target>>, <<"replace", target>>>>
                 ELSE <<<<"tear", target>>, <<"fill", target>>>>
Plan(e) ==
  IF e.ev = "reset"
    THEN IF PyiFirst THEN <<<<"rm", "pyi">>, <<"rm", "A">>, <<"rm", "AB">>>>
         ELSE <<<<"rm", "A">>, <<"rm", "AB">>, <<"rm", "pyi">>>>
  ELSE LET new == e.cls \notin ToSet(PyiList) IN
       IF ClassFirst \/ ~new THEN Write(e.cls) \o IF new THEN Write("pyi") ELSE <<>>
       ELSE Write("pyi") \o Write(e.cls)

Start ==
  /\ ev = Idle /\ abs' = Abs
  /\ \/ \E mode \in {"overwrite", "validate"}, c \in Classes, y \in Contents :
          LET e == [ev |-> "gen", mode |-> mode, valid |-> TRUE, cls |-> c] IN
          /\ ev' = e /\ x' = y
          /\ todo' = IF \E o \in L!Step(Abs, e, y) : o.out = "ok" THEN Plan(e) ELSE <<>>
     \/ LET e == [ev |-> "reset"] IN ev' = e /\ x' = NoFile /\ todo' = Plan(e)
  /\ UNCHANGED <<pyi, file, aside>>

Set(target, torn) ==
  IF target = "pyi"
    THEN /\ pyi' = IF torn THEN <<"torn">> ELSE Append(abs.listed, ev.cls)
         /\ UNCHANGED file
    ELSE file' = [file EXCEPT ![target] = IF torn THEN Torn ELSE x] /\ UNCHANGED pyi

Do ==
  /\ ev # Idle /\ todo # <<>>
  /\ LET s == Head(todo) IN
     CASE s[1] = "aside-torn" -> aside' = <<"torn">> /\ UNCHANGED <<pyi, file>>
       [] s[1] = "aside"      -> aside' = <<"complete">> /\ UNCHANGED <<pyi, file>>
       [] s[1] = "replace"    -> aside' = <<>> /\ Set(s[2], aside # <<"complete">>)
       [] s[1] = "tear"       -> Set(s[2], TRUE) /\ UNCHANGED aside
       [] s[1] = "fill"       -> Set(s[2], FALSE) /\ UNCHANGED aside
       [] s[1] = "rm"         -> /\ IF s[2] = "pyi" THEN pyi' = <<>> /\ UNCHANGED file
                                    ELSE file' = [file EXCEPT ![s[2]] = NoFile] /\ UNCHANGED pyi
                                 /\ UNCHANGED aside
  /\ todo' = Tail(todo) /\ UNCHANGED <<ev, abs, x>>
Finish == ev # Idle /\ todo = <<>> /\ ev' = Idle /\ x' = NoFile /\ UNCHANGED <<pyi, file, aside, todo, abs>>
Crash == ev # Idle /\ ev' = Idle /\ todo' = <<>> /\ x' = NoFile /\ UNCHANGED <<pyi, file, aside, abs>>
Next == Start \/ Do \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars

NeverTorn == pyi # <<"torn">> /\ \A c \in Classes : file[c] # Torn
ListedAreComplete == \A c \in ToSet(PyiList) : c \in Classes => file[c] \in Contents
(* Classes that are not listed are not observable. *)
Visible(st) == [listed |-> st.listed, store |-> [c \in L!Listed(st) \cap DOMAIN st.store |-> st.store[c]]]
Refines == ev # Idle => Visible(Abs) \in {Visible(s) : s \in L!Interrupted(abs, ev, x)}
Completed == ev # Idle /\ todo = <<>> => Visible(Abs) \in {Visible(o.st) : o \in L!Step(abs, ev, x)}
=============================================================================
