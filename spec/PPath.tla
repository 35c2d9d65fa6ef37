------------------------------- MODULE PPath -------------------------------
(* Paths and a file system with symbolic links.  All paths are relative to    *)
(* the working directory, whose own absolute path is not known here: a path   *)
(* that leaves it, or is absolute, does not exist.  fs: [dirs set of          *)
(* component sequences, names sequence of component sequences, texts, links   *)
(* sequence of [at component sequence, to path from the directory it is in]]; *)
(* links do not lead to themselves.  U+E0FF in a text stands for bytes that   *)
(* are not UTF-8.                                                             *)
EXTENDS PText

NoFS == [dirs |-> {<<>>}, names |-> <<>>, texts |-> <<>>, links |-> <<>>]
Abs(p) == HasPrefix(p, "/")
\* the components of a path, without empty and "." ones
Comps(p) == SelectSeq(SplitBy(p, "/"), LAMBDA c : c \notin {"", "."})
\* the parent directory of a file's path, as a string, without final "/" and "/."
RECURSIVE TrimDir(_)
TrimDir(d) == IF Len(d) > 1 /\ HasSuffix(d, "/") THEN TrimDir(SubSeq(d, 1, Len(d)-1))
              ELSE IF Len(d) > 2 /\ HasSuffix(d, "/.") THEN TrimDir(SubSeq(d, 1, Len(d)-2)) ELSE IF d = "/." THEN "/" ELSE d
DirOf(p) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN "" ELSE IF SubSeq(p, i, i) = "/" THEN TrimDir(SubSeq(p, 1, i)) ELSE F(i-1)
            IN  F(Len(p))
JoinP(d, p) == IF Abs(p) \/ d = "" THEN p ELSE IF HasSuffix(d, "/") THEN d \o p ELSE d \o "/" \o p
\* a path written in a source file, as seen from that file
Resolve(file, rel, papyri) == JoinP(DirOf(file), IF papyri /\ ~HasSuffix(rel, ".papyri") THEN rel \o ".papyri" ELSE rel)

FileIx(fs, c) == LET H == {i \in DOMAIN fs.names : fs.names[i] = c} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : TRUE
\* follow components one by one: [ok, v components]
RECURSIVE Walk(_, _, _, _)
Walk(fs, cs, i, at) ==
  LET L == IF i > Len(cs) THEN {} ELSE {j \in DOMAIN fs.links : fs.links[j].at = Append(at, cs[i])} IN
  IF L # {} THEN Walk(fs, Comps(fs.links[CHOOSE j \in L : TRUE].to) \o SubSeq(cs, i+1, Len(cs)), 1, at) ELSE
  IF i > Len(cs) THEN IF at \in fs.dirs \/ FileIx(fs, at) > 0 THEN [ok |-> TRUE, v |-> at] ELSE [ok |-> FALSE, v |-> at]
  ELSE IF at \notin fs.dirs THEN [ok |-> FALSE, v |-> at]
  ELSE IF cs[i] = ".." THEN (IF at = <<>> THEN [ok |-> FALSE, v |-> <<"..">>] ELSE Walk(fs, cs, i+1, SubSeq(at, 1, Len(at)-1)))
  ELSE Walk(fs, cs, i+1, Append(at, cs[i]))
TrailSlash(p) == HasSuffix(p, "/") \/ HasSuffix(p, "/.")
Canon(fs, p) ==
  IF p = "" \/ Abs(p) THEN [ok |-> FALSE, v |-> <<>>]
  ELSE LET w == Walk(fs, Comps(p), 1, <<>>) IN
       IF w.ok /\ TrailSlash(p) /\ w.v \notin fs.dirs THEN [ok |-> FALSE, v |-> <<>>] ELSE w
IsUtf8(t) == \A i \in 1..Len(t) : SubSeq(t, i, i) # ""
\* [ok, v text]
ReadFile(fs, p) == LET c == Canon(fs, p)  i == IF c.ok THEN FileIx(fs, c.v) ELSE 0 IN
                   IF i = 0 \/ ~IsUtf8(fs.texts[i]) THEN [ok |-> FALSE, v |-> ""] ELSE [ok |-> TRUE, v |-> fs.texts[i]]

IsPapyri(name) == LET n == Len(name) IN n > 7 /\ Low(SubSeq(name, n-6, n)) = ".papyri"
RECURSIVE PathStr(_, _)
PathStr(c, i) == IF i > Len(c) THEN "" ELSE IF i = Len(c) THEN c[i] ELSE c[i] \o "/" \o PathStr(c, i+1)
\* component-wise order of paths
RECURSIVE StrLt(_, _, _)
StrLt(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                  ELSE LET x == CH[SubSeq(a, i, i)].code  y == CH[SubSeq(b, i, i)].code IN IF x # y THEN x < y ELSE StrLt(a, b, i+1)
RECURSIVE PathLt(_, _, _)
PathLt(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                   ELSE IF a[i] = b[i] THEN PathLt(a, b, i+1) ELSE StrLt(a[i], b[i], 1)
RECURSIVE SortPaths(_)
SortPaths(A) == IF A = {} THEN <<>> ELSE LET m == CHOOSE a \in A : \A b \in A : b = a \/ PathLt(a, b, 1) IN <<m>> \o SortPaths(A \ {m})
\* the Papyri sources below a directory, relative to it
ListPapyri(fs, dir) ==
  LET n == Len(dir)
      I == {i \in DOMAIN fs.names : Len(fs.names[i]) > n /\ SubSeq(fs.names[i], 1, n) = dir /\ IsPapyri(fs.names[i][Len(fs.names[i])])}
      \* a link to a source below the directory is one more time that source
      T(j) == LET a == fs.links[j].at IN Walk(fs, a, 1, <<>>).v
      J == {j \in DOMAIN fs.links : LET a == fs.links[j].at  t == T(j) IN
              /\ Len(a) > n /\ SubSeq(a, 1, n) = dir
              /\ FileIx(fs, t) > 0 /\ Len(t) > n /\ SubSeq(t, 1, n) = dir /\ IsPapyri(t[Len(t)])}
      l == SortPaths({SubSeq(fs.names[i], n+1, Len(fs.names[i])) : i \in I})
      Times(p) == 1 + Cardinality({j \in J : T(j) = dir \o p})
      m == Fold(LAMBDA q, p : q \o [k \in 1..Times(p) |-> p], <<>>, l)
  IN  [i \in DOMAIN m |-> PathStr(m[i], 1)]
RECURSIVE TrimSlashes(_)
TrimSlashes(s) == IF HasSuffix(s, "/") THEN TrimSlashes(SubSeq(s, 1, Len(s)-1)) ELSE s

(* Output paths: base is the component sequence of the output directory from  *)
(* the root.  The result is relative to base.                                 *)
RECURSIVE Norm1(_, _, _)
Norm1(at, cs, i) == IF i > Len(cs) THEN at
  ELSE IF cs[i] = ".." THEN Norm1(IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at)-1), cs, i+1) ELSE Norm1(Append(at, cs[i]), cs, i+1)
OutPath(base, p) ==
  LET n == Norm1(IF Abs(p) THEN <<>> ELSE base, Comps(p), 1)  k == Len(base) IN
  IF Len(n) >= k /\ SubSeq(n, 1, k) = base THEN [ok |-> TRUE, v |-> PathStr(SubSeq(n, k+1, Len(n)), 1)] ELSE [ok |-> FALSE, v |-> ""]
=============================================================================
