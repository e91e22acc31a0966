-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* What can be asked for, and what is written where.                       *)
(*                                                                         *)
(* Files: a state is [dirs, files], paths being sequences of names.  Tree. *)
(* to_file writes the whole text, makes the directories only if allowed,   *)
(* and fails without any effect otherwise.                                 *)
(*                                                                         *)
(* Requests: class names, strategies, kinds of files and positions of the  *)
(* comments are either valid or rejected, again without any effect.        *)
(***************************************************************************)
EXTENDS Text, FiniteSets

Nothing == [dirs |-> {<<>>}, files |-> <<>>]     \* <<>>: no files
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Within(p) == {SubSeq(p, 1, n) : n \in 0..Len(p)}
Exists(st, p) == p \in st.dirs \cup DOMAIN st.files
Put(f, p, text) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN text ELSE f[q]]

CanWrite(st, p, create) ==
  /\ p \notin st.dirs
  /\ Within(Parent(p)) \cap DOMAIN st.files = {}
  /\ Parent(p) \in st.dirs \/ create
Write(st, p, create, text) ==
  IF CanWrite(st, p, create)
    THEN [out |-> "ok", st |-> [dirs |-> st.dirs \cup Within(Parent(p)), files |-> Put(st.files, p, text)]]
    ELSE [out |-> "error", st |-> st]
(* Somebody else changes a file that is there: whatever it holds then is replaced all the same *)
Alter(st, p, text) == IF p \in DOMAIN st.files THEN [st EXCEPT !.files = Put(@, p, text)] ELSE st

-----------------------------------------------------------------------------
Letters == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
Digits == "0123456789"
Keywords == {"False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del",
             "elif", "else", "except", "finally", "for", "from", "global", "if", "import", "in", "is", "lambda",
             "nonlocal", "not", "or", "pass", "raise", "return", "try", "while", "with", "yield"}
ValidName(s) ==
  /\ s # "" /\ Index(Letters, First(s)) > 0
  /\ \A i \in 1..Len(s) : Index(Letters, At(s, i)) > 0 \/ Index(Digits, At(s, i)) > 0
  /\ s \notin Keywords

ValidStrategies(S) ==
  /\ S.list \in {"list", "Sequence"}
  /\ S.tuple \in {"fixed", "any size"}
  /\ S.dict \in {"TypedDict", "Mapping", "dict"}
  /\ S.pandas \in {"Full type hint", "Type hint only for autocomplete", "Do not type hint columns"}
  /\ S.min >= 0
  /\ S.thr >= 1 /\ S.thr <= 100
  /\ S.nolimit \/ S.limit >= 1

(* r: [via, cls, strat, ext, exists, positions]; no positions: comments are not read *)
ValidFile(r) ==
  /\ r.exists
  /\ r.positions = <<>> \/ /\ r.ext \in {".yaml", ".yml"}
                           /\ ~{"above", "below"} \subseteq ToSet(r.positions)
Valid(r) == /\ ValidStrategies(r.strat) /\ ValidName(r.cls)
            /\ r.via \in {"yaml", "live-yaml"} => ValidFile(r)
=============================================================================
