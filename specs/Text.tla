-------------------------------- MODULE Text --------------------------------
(* Strings as texts: characters, words, lines and paragraphs. TLC lets Len, SubSeq and \o work on strings. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
At(s, i) == SubSeq(s, i, i)
First(s) == IF s = "" THEN "" ELSE At(s, 1)
Ending(s) == IF s = "" THEN "" ELSE At(s, Len(s))
IsSpace(c) == c \in {" ", "\t", "\n", "\r"}
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Index(s, c) == LET I == {i \in 1..Len(s) : At(s, i) = c} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
IsUpper(c) == c # "" /\ Index(Upper, c) > 0
Up(c) == LET i == Index(Lower, c) IN IF i > 0 THEN At(Upper, i) ELSE c
Capitalised(s) == IF s = "" THEN s ELSE Up(First(s)) \o SubSeq(s, 2, Len(s))
Dotted(s) == IF s = "" \/ Ending(s) = "." THEN s ELSE s \o "."

(* Pieces of s between the characters of sep. Pieces may be empty. *)
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, sep, i, start) ==
  IF i > Len(s) THEN <<SubSeq(s, start, Len(s))>>
  ELSE IF At(s, i) \in sep THEN <<SubSeq(s, start, i - 1)>> \o SplitFrom(s, sep, i + 1, i + 1)
  ELSE SplitFrom(s, sep, i + 1, start)
Split(s, sep) == SplitFrom(s, sep, 1, 1)
Lines(s) == Split(s, {"\n"})
NonEmpty(x) == Len(x) > 0
Words(s) == SelectSeq(Split(s, {" ", "\t", "\n", "\r"}), NonEmpty)

(* Paragraphs: words of the lines found between blank ones. *)
RECURSIVE ParagraphsOf(_, _)
ParagraphsOf(lines, acc) ==
  IF lines = <<>> THEN <<acc>>
  ELSE LET w == Words(Head(lines)) IN
       IF w = <<>> THEN <<acc>> \o ParagraphsOf(Tail(lines), <<>>)
       ELSE ParagraphsOf(Tail(lines), acc \o w)
Paragraphs(s) == SelectSeq(ParagraphsOf(Lines(s), <<>>), NonEmpty)
=============================================================================
