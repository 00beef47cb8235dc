----------------------------- MODULE PathCodec -----------------------------
(* Text and list form of a k-path.  Names are separated by "-", subpaths by  *)
(* "|"; a subpath has at least two names.                                    *)
EXTENDS Integers, Sequences
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE SplitR(_, _, _, _)
\* pieces of s[i..] separated by sep, cur being the piece under construction
SplitR(s, sep, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE IF Ch(s, i) = sep THEN <<cur>> \o SplitR(s, sep, i + 1, "")
  ELSE SplitR(s, sep, i + 1, cur \o Ch(s, i))
Split(s, sep) == SplitR(s, sep, 1, "")
RECURSIVE JoinR(_, _, _)
JoinR(q, sep, i) == IF i > Len(q) THEN "" ELSE sep \o q[i] \o JoinR(q, sep, i + 1)
Join(q, sep) == IF q = <<>> THEN "" ELSE q[1] \o JoinR(q, sep, 2)
Parse(s) == LET u == Split(s, "|") IN [i \in 1..Len(u) |-> Split(u[i], "-")]
Show(p) == Join([i \in 1..Len(p) |-> Join(p[i], "-")], "|")
RECURSIVE HasSep(_, _)
HasSep(s, i) == i <= Len(s) /\ (Ch(s, i) \in {"-", "|"} \/ HasSep(s, i + 1))
GoodName(n) == n # "" /\ ~HasSep(n, 1)
GoodList(p) == p # <<>> /\ \A i \in 1..Len(p) : Len(p[i]) >= 2 /\ \A j \in 1..Len(p[i]) : GoodName(p[i][j])
GoodText(s) == GoodList(Parse(s))
\* a subpath of fewer than two pieces
TooShort(s) == \E i \in 1..Len(Parse(s)) : Len(Parse(s)[i]) < 2
=============================================================================
