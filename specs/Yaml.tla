-------------------------------- MODULE Yaml --------------------------------
(***************************************************************************)
(* Which comments of a YAML file document which key, and what they say.    *)
(*                                                                         *)
(* A file is a sequence of lines [kind, col, text, path, cand]:            *)
(*   kind "key"      a key (path: the way to it from the root, "[]" being  *)
(*                   any element of a list), at column col, text being the *)
(*                   comment by its side ("" if none).  cand tells if it is*)
(*                   a key whose comments are read                         *)
(*   kind "comment"  a comment alone in its line, its '#' at column col    *)
(*   kind "other"    anything else: values, blank lines                    *)
(* Positions are a sequence over "side", "above", "below".                 *)
(***************************************************************************)
EXTENDS Text

IsComment(l, col) == l.kind = "comment" /\ l.col = col
RECURSIVE Run(_, _, _, _)
(* Comments aligned with column col found from line i on, in the direction step; in order of appearance. *)
Run(file, i, step, col) ==
  IF i < 1 \/ i > Len(file) THEN <<>>
  ELSE IF ~IsComment(file[i], col) THEN <<>>
  ELSE IF step > 0 THEN <<file[i].text>> \o Run(file, i + 1, step, col)
  ELSE Run(file, i - 1, step, col) \o <<file[i].text>>

RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(ls) == IF ls # <<>> /\ Head(ls) = "" THEN TrimLeft(Tail(ls)) ELSE ls
TrimRight(ls) == IF ls # <<>> /\ ls[Len(ls)] = "" THEN TrimRight(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls

(* Lines of a block comment are sentences that go on, unless they start with a capital letter. *)
RECURSIVE Joined(_, _)
Joined(acc, ls) ==
  IF ls = <<>> THEN acc
  ELSE LET s == Head(ls) IN
       Joined(IF s = "" THEN acc \o "\n\n"
              ELSE IF acc = "" THEN s
              ELSE IF Ending(acc) = "." THEN acc \o " " \o Capitalised(s)
              ELSE IF Ending(acc) = "\n" THEN acc \o Capitalised(s)
              ELSE IF IsUpper(First(s)) THEN acc \o ". " \o s
              ELSE acc \o " " \o s, Tail(ls))
Block(ls) == Capitalised(Dotted(Joined("", TrimRight(TrimLeft(ls)))))
Side(s) == Dotted(s)

Comment(file, i, position) ==
  CASE position = "side"  -> Side(file[i].text)
    [] position = "above" -> Block(Run(file, i - 1, -1, file[i].col))
    [] position = "below" -> Block(Run(file, i + 1, 1, file[i].col))

RECURSIVE Doc(_, _, _)
(* "" if the key has no documentation. Several comments are several paragraphs, in the order of the positions. *)
Doc(file, i, positions) ==
  IF positions = <<>> THEN ""
  ELSE LET a == Comment(file, i, Head(positions)) b == Doc(file, i, Tail(positions)) IN
       IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o "\n\n" \o b
=============================================================================
