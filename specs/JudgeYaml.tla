----------------------------- MODULE JudgeYaml -----------------------------
(***************************************************************************)
(* Trace specification of the YAML files: every record is a file given to  *)
(* the real from_yaml_file of both tools, with what came out.              *)
(***************************************************************************)
EXTENDS ModPaths, Yaml, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
Focus == IOEnv.FOCUS

-----------------------------------------------------------------------------
(* Where the fields of a key are: <<definition, position>>. Only the class syntax has a place for documentation. *)
FieldsAt(mod, path) ==
  LET nodes == Nodes(mod, Root(mod), SubSeq(path, 1, Len(path) - 1)) IN
  UNION {IF n.k # "def" \/ mod.defs[n.i].form # "td" THEN {}
         ELSE {<<n.i, j>> : j \in {h \in 1..Len(mod.defs[n.i].fields) :
                                      mod.defs[n.i].fields[h].key = path[Len(path)]}} : n \in nodes}

-----------------------------------------------------------------------------
KeyLines(file) == {i \in 1..Len(file) : file[i].kind = "key"}
(* What is described alike may share a class, which is then documented with the comments of one of them. *)
Docs(r) ==
  LET file == r.file
      at == TLCEval([i \in KeyLines(file) |-> FieldsAt(r.mod, file[i].path)])
  IN
  UNION {LET same == {j \in KeyLines(file) : file[j].path = file[i].path \/ at[j] \cap at[i] # {}}
             said == {Doc(file, j, r.positions) : j \in same}
             allowed == {Paragraphs(d) : d \in said}
             shown == {r.mod.defs[x[1]].fields[x[2]] : x \in at[i]}
             seen == {IF f.hasdoc THEN Paragraphs(f.doc) ELSE <<>> : f \in shown}
             reads == \A j \in same : file[j].cand
         IN IF ~reads THEN {}
            ELSE IF seen \subseteq allowed THEN {}
            ELSE IF <<>> \in seen \ allowed THEN {"comment-lost"}
            ELSE IF said = {""} THEN {"comment-of-something-else"}
            ELSE {"comment-altered"}
         : i \in KeyLines(file)}

Transparent(r) ==
  (IF Meaning(r.mod) = Infer(r.value, r.strat) THEN {} ELSE {"comments-change-the-type"}) \cup
  (IF r.file_same THEN {} ELSE {"file-modified"}) \cup
  (IF r.temps = <<>> THEN {} ELSE {"temporary-file-left"}) \cup
  (IF r.live_same THEN {} ELSE {"other-data-returned"}) \cup
  (IF r.paths THEN {} ELSE {"loader-given-another-kind-of-path"}) \cup
  WellFormed(r.mod, r.cls)

Clauses(r) ==
  IF r.err # "" THEN {"unexpected-error"}
  ELSE Transparent(r) \cup IF Focus = "docs" THEN Docs(r) ELSE {}

VARIABLE l
Init == l = 1
Next == /\ l <= Len(Recs)
        /\ LET bad == Clauses(Recs[l]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", Recs[l].id, bad>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
