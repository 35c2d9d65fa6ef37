------------------------------- MODULE PText -------------------------------
(* Text utilities: trimming, lines, case, indentation of code, identifiers   *)
(* and unique IDs.                                                            *)
EXTENDS PRegex

IsWsC(c) == CH[c].w
RECURSIVE FirstNonWs(_, _)
FirstNonWs(C, i) == IF i <= Len(C) /\ IsWsC(C[i]) THEN FirstNonWs(C, i+1) ELSE i
RECURSIVE LastNonWs(_, _)
LastNonWs(C, j) == IF j >= 1 /\ IsWsC(C[j]) THEN LastNonWs(C, j-1) ELSE j
TrimStart(s) == LET C == Chars(s) IN SubSeq(s, FirstNonWs(C, 1), Len(s))
TrimEnd(s) == LET C == Chars(s) IN SubSeq(s, 1, LastNonWs(C, Len(C)))
Trim(s) == TrimStart(TrimEnd(s))
ByteLen(s) == LET RECURSIVE F(_, _) F(i, n) == IF i > Len(s) THEN n ELSE F(i+1, n + CH[SubSeq(s, i, i)].b) IN F(1, 0)
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

\* the parts of s between occurrences of sep (a non-empty string)
RECURSIVE SplitFrom(_, _, _, _, _)
SplitFrom(s, sep, a, i, acc) ==
  IF i + Len(sep) - 1 > Len(s) THEN Append(acc, SubSeq(s, a, Len(s)))
  ELSE IF SubSeq(s, i, i + Len(sep) - 1) = sep THEN SplitFrom(s, sep, i + Len(sep), i + Len(sep), Append(acc, SubSeq(s, a, i-1)))
  ELSE SplitFrom(s, sep, a, i+1, acc)
\* an empty separator matches at every boundary, including both ends
SplitBy(s, sep) == IF sep = "" THEN <<"">> \o Chars(s) \o <<"">> ELSE SplitFrom(s, sep, 1, 1, <<>>)

LooksLikeGlob(s) == \E i \in 1..Len(s) : SubSeq(s, i, i) \in {"*", "?", "[", "]"}

\* lines: ended by \n or \r\n, the last end being optional
Lines(s) == LET p == SplitBy(s, "\n")
                q == IF p[Len(p)] = "" THEN SubSeq(p, 1, Len(p)-1) ELSE p
                n == Len(q)
            IN  [i \in 1..n |-> IF (i < Len(p)) /\ HasSuffix(q[i], "\r") THEN SubSeq(q[i], 1, Len(q[i])-1) ELSE q[i]]

RECURSIVE Join(_, _, _)
Join(xs, sep, i) == IF i > Len(xs) THEN "" ELSE IF i = Len(xs) THEN xs[i] ELSE xs[i] \o sep \o Join(xs, sep, i+1)

(* Code with the common indentation removed: that of the first line that is  *)
(* not blank.                                                                 *)
FixIndent(s) ==
  LET ls == Lines(TrimEnd(s))
      NB(i) == FirstNonWs(Chars(ls[i]), 1)
      K == {i \in DOMAIN ls : NB(i) <= Len(ls[i])}
  IN  IF K = {} THEN ""
      ELSE LET k == CHOOSE k \in K : \A j \in K : k <= j
               ind == SubSeq(ls[k], 1, NB(k) - 1)
           IN  IF ind = "" THEN Trim(s)
               ELSE Join([i \in 1..(Len(ls)-k+1) |-> LET l == ls[k+i-1] IN
                            IF HasPrefix(l, ind) THEN SubSeq(l, Len(ind)+1, Len(l)) ELSE TrimStart(l)], "\n", 1) \o "\n"

\* the language named on the first line of a code block: <<language, source>>
LangHint(s, default) ==
  LET p == SplitBy(s, "\n")
      f == TrimEnd(p[1])
  IN  IF Len(p) > 1 /\ IsIdent(f) THEN <<f, SubSeq(s, Len(p[1]) + 2, Len(s))>> ELSE <<default, s>>

--------------------------------------------------------------------------
ALNUM == Letters \cup DIG
\* transliteration to ASCII; a word's final space is dropped before another
Ascii(s) ==
  LET C == Chars(s)
      D == [i \in DOMAIN C |-> CH[C[i]].de]
      Cut(i) == Len(D[i]) > 1 /\ HasSuffix(D[i], " ") /\ (i = Len(D) \/ HasPrefix(D[IF i < Len(D) THEN i+1 ELSE i], " "))
  IN  Cat([i \in DOMAIN D |-> IF Cut(i) THEN SubSeq(D[i], 1, Len(D[i])-1) ELSE D[i]], 1, Len(D))
RECURSIVE IdentLoop(_, _, _, _)
IdentLoop(C, i, max, id) ==
  IF i > Len(C) \/ Len(id) >= max THEN id
  ELSE IF C[i] \in ALNUM THEN IdentLoop(C, i+1, max, id \o C[i])
  ELSE IdentLoop(C, i+1, max, IF HasSuffix(id, "_") THEN id ELSE id \o "_")
\* an identifier made from any text
MakeIdent(s, max) == LET C == Chars(Ascii(s)) IN
  IdentLoop(C, 2, max, IF C # <<>> /\ C[1] \in Letters THEN C[1] ELSE "_")
BaseId(base, max) ==
  Low(IF ~IsIdent(base) THEN MakeIdent(base, max) ELSE IF Len(base) > max THEN SubSeq(base, 1, max) ELSE base)
RECURSIVE AllNines(_, _)
AllNines(s, i) == IF i > Len(s) THEN TRUE ELSE SubSeq(s, i, i) = "9" /\ AllNines(s, i+1)
RECURSIVE UidLoop(_, _, _, _)
UidLoop(used, base, n, max) ==
  LET id == base \o "_" \o ToString(n) IN
  IF id \notin used THEN id
  ELSE UidLoop(used, IF Len(id) >= max /\ Len(base) > 1 /\ AllNines(ToString(n), 1) THEN SubSeq(base, 1, Len(base)-1) ELSE base, n+1, max)
(* A new identifier for base, distinct from all those in used: the text's    *)
(* own identifier if that is free, and otherwise with a counter appended.    *)
UniqueId(used, base, max) ==
  LET id == BaseId(base, max) IN
  IF id \notin used THEN id
  ELSE UidLoop(used, IF Len(id) + 2 > max /\ max >= 3 THEN SubSeq(id, 1, max-2) ELSE id, 2, max)
=============================================================================
