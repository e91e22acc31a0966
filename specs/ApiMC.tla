------------------------------- MODULE ApiMC -------------------------------
(* The files as a state machine: histories of calls to to_file, printed for their replay. *)
EXTENDS Api, Json, IOUtils
Limit == atoi(IOEnv.N)
Paths == {<<"f">>, <<"g">>, <<"d", "f">>, <<"d", "e", "f">>, <<"f", "g">>, <<"d">>, <<"d", "f", "h", "i">>}
VARIABLES st, hist
vars == <<st, hist>>
Init == st = Nothing /\ hist = <<>>
Next == /\ Len(hist) < Limit
        /\ \/ \E p \in Paths, create \in BOOLEAN, x \in 1..2 :
                LET w == Write(st, p, create, x) IN
                /\ st' = w.st
                /\ hist' = Append(hist, [ev |-> "write", path |-> p, create |-> create, content |-> x])
           \/ \E p \in DOMAIN st.files :
                /\ st.files[p] # 3
                /\ st' = Alter(st, p, 3)
                /\ hist' = Append(hist, [ev |-> "alter", path |-> p, create |-> FALSE, content |-> st.files[p]])
Spec == Init /\ [][Next]_vars

TypeOK == /\ <<>> \in st.dirs
          /\ \A p \in st.dirs \cup DOMAIN st.files : Within(p) \ {p} \subseteq st.dirs   \* everything is within a directory
          /\ st.dirs \cap DOMAIN st.files = {}
(* Nothing is ever removed, and the last content wins. *)
Grows == [][st.dirs \subseteq st'.dirs /\ DOMAIN st.files \subseteq DOMAIN st'.files]_vars
Printed == hist # <<>> /\ Len(hist) = Limit => PrintT("HIST" \o ToJson(hist))
=============================================================================
