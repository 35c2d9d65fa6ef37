-------------------------------- MODULE PCli --------------------------------
(* The command-line compiler: one run on a tree of files.                     *)
(* A world W: [fs the files (PPath) with mt their modification times, t the   *)
(* time now].  Options a: [u skip unchanged, s silent, iw ignore warnings,    *)
(* txt text output, hasout, out output directory, paths, stdin, hasin].       *)
(* A run yields [w, out the lines on standard output, err the lines of        *)
(* interest on standard error, code], and in text the raw output of --stdin.  *)
EXTENDS Props, PObs

--------------------------------------------------------------------------
(* paths as the program sees them: compared by components, except that a      *)
(* leading "." counts                                                         *)
PKey(p) == (IF Abs(p) THEN <<"/">> ELSE IF p = "." \/ HasPrefix(p, "./") THEN <<".">> ELSE <<>>) \o Comps(p)
Rank(c) == CASE c = "/" -> 0 [] c = "." -> 1 [] c = ".." -> 2 [] OTHER -> 3
CompLt(a, b) == IF Rank(a) # Rank(b) THEN Rank(a) < Rank(b) ELSE Rank(a) = 3 /\ StrLt(a, b, 1)
RECURSIVE KeyLt(_, _, _)
KeyLt(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] = b[i] THEN KeyLt(a, b, i+1) ELSE CompLt(a[i], b[i])
\* without duplicates, the first of equal paths kept, in order
InsPath(out, p) ==
  LET k == PKey(p) IN
  IF \E i \in DOMAIN out : PKey(out[i]) = k THEN out
  ELSE LET n == Cardinality({i \in DOMAIN out : KeyLt(PKey(out[i]), k, 1)}) IN SubSeq(out, 1, n) \o <<p>> \o SubSeq(out, n+1, Len(out))
InsAll(out, ps) == Fold(LAMBDA q, p : InsPath(q, p), out, ps)

IsPapyriPath(p) == LET c == Comps(p) IN c # <<>> /\ IsPapyri(c[Len(c)])
IsLibrary(p) == HasSuffix(Low(p), ".lib.papyri")
StemExt(name, ext) == \* with the extension of a file name replaced
  LET D == {i \in 2..Len(name) : SubSeq(name, i, i) = "."} IN
  (IF D = {} THEN name ELSE SubSeq(name, 1, (CHOOSE i \in D : \A j \in D : j <= i) - 1)) \o "." \o ext
SetExt(p, ext) == LET d == DirOf(p) n == SubSeq(p, Len(p) - Len(Comps(p)[Len(Comps(p))]) + 1, Len(p)) IN
                  SubSeq(p, 1, Len(p) - Len(n)) \o StemExt(n, ext)

\* glob patterns with * and ? (no **), matched component by component
RECURSIVE WildM(_, _, _, _)
WildM(P, i, N, j) ==
  IF i > Len(P) THEN j > Len(N)
  ELSE CASE P[i] = "*" -> WildM(P, i+1, N, j) \/ (j <= Len(N) /\ WildM(P, i, N, j+1))
         [] P[i] = "?" -> j <= Len(N) /\ WildM(P, i+1, N, j+1)
         [] OTHER -> j <= Len(N) /\ P[i] = N[j] /\ WildM(P, i+1, N, j+1)
Glob(fs, pat) ==
  LET cs == Comps(pat)
      M(n) == Len(n) = Len(cs) /\ \A i \in DOMAIN cs : WildM(Chars(cs[i]), 1, Chars(n[i]), 1)
      F == SortPaths({fs.names[i] : i \in {k \in DOMAIN fs.names : M(fs.names[k])}})
  IN  SelectSeq([i \in DOMAIN F |-> PathStr(F[i], 1)], IsPapyriPath)
\* [ps the sources, err the complaints]
Sources(fs, paths) == Fold(LAMBDA q, p :
     IF LooksLikeGlob(p) THEN [q EXCEPT !.ps = InsAll(@, Glob(fs, p))]
     ELSE LET c == Canon(fs, p) IN
          IF c.ok /\ c.v \in fs.dirs THEN LET l == ListPapyri(fs, c.v) IN [q EXCEPT !.ps = InsAll(@, [i \in DOMAIN l |-> JoinP(p, l[i])])]
          ELSE IF IsPapyriPath(p) THEN [q EXCEPT !.ps = InsPath(@, p)]
          ELSE [q EXCEPT !.err = Append(@, "File \"" \o p \o "\" is not a Papyri source file")],
  [ps |-> <<>>, err |-> <<>>], paths)

--------------------------------------------------------------------------
(* writing *)
Prefixes(c) == {SubSeq(c, 1, n) : n \in 0..Len(c)}
RemoveAt(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
PutFile(W, c, text, time) ==
  LET i == FileIx(W.fs, c) IN
  IF i > 0 THEN [W EXCEPT !.fs.texts[i] = text, !.fs.mt[i] = time]
  ELSE [W EXCEPT !.fs.names = Append(@, c), !.fs.texts = Append(@, text), !.fs.mt = Append(@, time),
                 !.fs.dirs = @ \cup Prefixes(SubSeq(c, 1, Len(c)-1))]
DelFile(W, c) == LET i == FileIx(W.fs, c) IN
  IF i = 0 THEN W ELSE [W EXCEPT !.fs.names = RemoveAt(@, i), !.fs.texts = RemoveAt(@, i), !.fs.mt = RemoveAt(@, i)]
\* a path given to the program, as components below the working directory
InTree(p) == Norm1(<<>>, Comps(p), 1)
MTime(fs, p) == LET i == FileIx(fs, InTree(p)) IN IF i = 0 THEN -1 ELSE fs.mt[i]

--------------------------------------------------------------------------
Ext(a) == IF a.txt THEN "txt" ELSE "html"
OutOf(h, a) == IF a.txt THEN RenderText(h) ELSE Render(h)
\* state of a run: [w, s compiler, out, err, ok, bad, skip, files, stop]
Say(Q, a, l) == IF a.s THEN Q ELSE [Q EXCEPT !.out = Append(@, l)]
Stop(Q, l) == [Q EXCEPT !.stop = TRUE, !.err = Append(@, l)]
RECURSIVE WriteAll(_, _, _, _)
WriteAll(Q, a, fs, i) ==
  IF i > Len(fs) \/ Q.stop THEN Q
  ELSE LET c == InTree(fs[i][1])  par == SubSeq(c, 1, Len(c)-1) IN
       IF \E d \in Prefixes(par) : FileIx(Q.w.fs, d) > 0 THEN Stop(Q, "Failed to create directory \"" \o fs[i][1] \o "\"")
       ELSE IF c \in Q.w.fs.dirs \/ (fs[i][1] # "" /\ SubSeq(fs[i][1], Len(fs[i][1]), Len(fs[i][1])) = "/") THEN Stop([Q EXCEPT !.w.fs.dirs = @ \cup Prefixes(par)], "Failed to create file \"" \o fs[i][1] \o "\"")
       ELSE WriteAll(Say([Q EXCEPT !.w = PutFile(@, c, OutOf(fs[i][2], a), Q.w.t)], a, "    => " \o fs[i][1]), a, fs, i+1)
Complaints(S, lvl) == LET e == SeenDiags(S, NoMap, lvl) IN
  [lines |-> DiagLines(e.diags), sum |-> e.sum, any |-> e.errs + e.warns > 0, errs |-> e.errs]
Lvl(a) == IF a.iw THEN "Error" ELSE "Warning"
ProcessFile(Q, a, cwd, p) ==
  IF Q.stop THEN Q
  ELSE IF IsLibrary(p) THEN [Say(Q, a, p \o " (library, skipping)") EXCEPT !.skip = @ + 1]
  ELSE LET rel == OutPath(cwd, p) IN
  IF a.hasout /\ ~rel.ok THEN Stop(Q, "No sensible output path for \"" \o p \o "\"")
  ELSE LET op == SetExt(IF a.hasout THEN JoinP(a.out, rel.v) ELSE p, Ext(a))
           st == MTime(Q.w.fs, p)  ot == MTime(Q.w.fs, op) IN
  IF a.u /\ st >= 0 /\ ot >= 0 /\ st <= ot THEN [Say(Q, a, p \o " (unchanged, skipping)") EXCEPT !.skip = @ + 1]
  ELSE LET l == LoadUncached([Reset(Q.s) EXCEPT !.fs = Q.w.fs], p) IN
  IF ~l.ok THEN Stop(Q, "Error loading \"" \o p \o "\"")
  ELSE LET asked == l.s.of.fs
           fs == [i \in DOMAIN asked |-> <<JoinP(a.out, asked[i][1]), asked[i][2]>>] \o (IF l.v.out.k = "empty" THEN <<>> ELSE <<<<op, l.v.out>>>>)
           Q1 == [Q EXCEPT !.s = [l.s EXCEPT !.of.fs = <<>>]]
           c == Complaints(l.s, Lvl(a))
           Q2 == IF c.any THEN [Q1 EXCEPT !.err = @ \o c.lines \o <<p \o " (" \o c.sum \o ")">>]
                 ELSE Say(Q1, a, p \o (IF fs = <<>> THEN " (no output, skipping)" ELSE " (OK)"))
       IN  IF c.errs > 0 THEN [Q2 EXCEPT !.bad = @ + 1]
           ELSE IF fs = <<>> THEN [Q2 EXCEPT !.skip = @ + 1]
           ELSE LET Q3 == WriteAll(Q2, a, fs, 1) IN IF Q3.stop THEN Q3 ELSE [Q3 EXCEPT !.ok = @ + 1, !.files = @ + Len(fs)]
RunStdin(W, start, a) ==
  LET Q == [w |-> W, out |-> <<>>, err |-> <<>>, text |-> "", code |-> 1, deep |-> FALSE, asked |-> <<>>] IN
  IF a.paths # <<>> THEN [Q EXCEPT !.err = <<"Error: --stdin option cannot be used with file inputs">>]
  ELSE IF a.hasout THEN [Q EXCEPT !.err = <<"Error: --out option cannot be used with --stdin">>]
  ELSE IF ~IsUtf8(a.stdin) THEN [Q EXCEPT !.err = <<"Input error">>]
  ELSE LET x == CompileFile([start EXCEPT !.fs = W.fs], "<stdin>", a.stdin, ReqP)
           e == SeenDiags(x.s, "<stdin>" :> a.stdin, Lvl(a)) IN
       IF e.errs + e.warns > 0 THEN [Q EXCEPT !.err = DiagLines(e.diags) \o <<e.sum>>, !.deep = x.s.deep, !.asked = x.s.net.asked]
       ELSE [Q EXCEPT !.text = OutOf(x.v.out, a), !.code = 0, !.deep = x.s.deep, !.asked = x.s.net.asked]
RunCli(W, start, a, cwd) ==
  IF a.hasin THEN RunStdin(W, start, a)
  ELSE LET ps == IF a.paths = <<>> THEN <<".">> ELSE a.paths
           src == Sources(W.fs, ps)
           S == [start EXCEPT !.fs = W.fs, !.of = [on |-> a.hasout, base |-> Norm1(IF Abs(a.out) THEN <<>> ELSE cwd, Comps(a.out), 1), fs |-> <<>>]]
           Q0 == [w |-> W, s |-> S, out |-> <<>>, err |-> src.err, ok |-> 0, bad |-> 0, skip |-> 0, files |-> 0, stop |-> FALSE]
           Q == Fold(LAMBDA q, p : ProcessFile(q, a, cwd, p), Q0, src.ps)
           msg == ToString(Q.files) \o " file" \o Plural(Q.files) \o " written; " \o ToString(Q.ok) \o " OK, " \o
                  ToString(Q.bad) \o " failed, " \o ToString(Q.skip) \o " skipped"
           Q1 == IF Q.stop THEN Q ELSE IF Q.bad > 0 THEN [Q EXCEPT !.err = Append(@, msg)] ELSE Say(Q, a, msg)
       IN  [w |-> Q1.w, out |-> Q1.out, err |-> Q1.err, text |-> "", code |-> IF Q.stop \/ Q.bad > 0 THEN 1 ELSE 0, deep |-> Q.s.deep, asked |-> Q.s.net.asked]
=============================================================================
