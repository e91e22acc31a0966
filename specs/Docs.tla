-------------------------------- MODULE Docs --------------------------------
(***************************************************************************)
(* Documentation within the data: the text under the key S.doc of a        *)
(* dictionary documents the TypedDict that describes it.  Values that are  *)
(* texts have a field txt.                                                 *)
(***************************************************************************)
EXTENDS ModPaths, Text

(* Dictionaries found in a value, and where. *)
RECURSIVE DictsAt(_, _, _)
DictsAt(v, S, path) ==
  LET step(i) == IF IsTD(v, S) THEN v.ks[i].s ELSE "[]" IN
  (IF IsTD(v, S) THEN {<<path, v>>} ELSE {})
    \cup UNION {DictsAt(v.xs[i], S, Append(path, step(i))) : i \in 1..Len(v.xs)}

HasDoc(v, S) == S.doc # "" /\ \E i \in 1..Len(v.ks) : v.ks[i].s = S.doc /\ "txt" \in DOMAIN v.xs[i]
TextOf(v, S) == v.xs[CHOOSE i \in 1..Len(v.ks) : v.ks[i].s = S.doc].txt

RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s # "" /\ IsSpace(Ending(s)) THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
FinalDot(s) == LET t == TrimEnd(s) IN IF Ending(t) = "." THEN t ELSE t \o "."
Said(v, S) == Paragraphs(FinalDot(TextOf(v, S)))

(* Dictionaries that definition i describes *)
Described(mod, i, dicts) ==
  LET root == Root(mod) T == ResDef(mod, i) IN
  {d[2] : d \in {e \in dicts : (\E n \in Nodes(mod, root, e[1]) : n.k = "def" /\ n.i = i) /\ Has(e[2], T)}}

Width == 90
TooWide(line) == Len(line) > Width /\ Len(Words(line)) > 1
RECURSIVE TrimStart(_)
TrimStart(s) == IF s # "" /\ IsSpace(First(s)) THEN TrimStart(SubSeq(s, 2, Len(s))) ELSE s

DocClauses(mod, value, S) ==
  LET dicts == DictsAt(Trunc(value, S), S, <<>>) IN
  UNION {LET d == mod.defs[i]
             who == Described(mod, i, dicts)
             with == {v \in who : HasDoc(v, S)}
         IN (IF d.form \notin {"td", "ftd"} THEN IF d.hasdoc THEN {"documentation-from-nowhere"} ELSE {}
             ELSE IF d.hasdoc
                    THEN IF with = {} THEN {"documentation-from-nowhere"}
                         ELSE IF Paragraphs(d.doc) \in {Said(v, S) : v \in with} THEN {} ELSE {"documentation-altered"}
                    ELSE IF with = {} THEN {} ELSE {"documentation-lost"})
            \cup (IF \E j \in 1..Len(d.fields) : d.fields[j].hasdoc THEN {"documentation-from-nowhere"} ELSE {})
            \cup (IF d.hasdoc /\ \E l \in ToSet(Lines(d.doc)) : TooWide(TrimStart(l)) THEN {"too-wide"} ELSE {})
         : i \in 1..Len(mod.defs)}
=============================================================================
