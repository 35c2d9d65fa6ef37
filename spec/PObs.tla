-------------------------------- MODULE PObs --------------------------------
(* What a user sees of a finished compilation: the diagnostics as they are   *)
(* reported, with file, line and column.                                      *)
EXTENDS PSem

(* what diagnostics look like from outside; M gives the sources that are not *)
(* in the file system, by name                                                *)
SrcOf(S, M, f) == IF f \in DOMAIN M THEN M[f] ELSE IF f = "<stdlib>" THEN STDLIB ELSE ReadFile(S.fs, f).v
\* positions inside the standard library are compared only if its text is the specified one
LocShown(f) == f # "<stdlib>" \/ IOEnv.PAPYRI_STDLOC = "1"
Loc(S, M, f, p, n) == LET lc == LineCol(Chars(SrcOf(S, M, f)), p) IN
  [file |-> f, line |-> lc[1], col |-> lc[2], in |-> n]
DiagOf(S, M, d) ==
  LET n == Len(d.st)
      A == [i \in 1..(n+1) |-> IF i <= n THEN [f |-> d.st[i].f, p |-> d.st[i].p, in |-> IF i = 1 THEN "" ELSE d.st[i-1].n]
                               ELSE [f |-> d.f, p |-> d.p, in |-> IF i = 1 THEN "" ELSE d.st[i-1].n]]
      B == SelectSeq(A, LAMBDA x : LocShown(x.f))
  IN  [k |-> d.k, w |-> d.k \in WARNINGS, tb |-> d.tb,
       locs |-> [i \in DOMAIN B |-> Loc(S, M, B[i].f, B[i].p, B[i].in)]]
Shown(S, lvl) == SelectSeq(S.d, LAMBDA x :
  CASE lvl = "All" -> TRUE [] lvl = "IgnoreAll" -> FALSE [] lvl = "Error" -> x.k \notin WARNINGS \cup {"AlreadyReported"}
    [] OTHER -> x.k # "AlreadyReported")
Plural(n) == IF n = 1 THEN "" ELSE "s"
Summary(e, w) ==
  IF e > 0 THEN "failed, " \o ToString(e) \o " error" \o Plural(e) \o ", " \o ToString(w) \o " warning" \o Plural(w)
  ELSE IF w > 0 THEN "OK, " \o ToString(w) \o " warning" \o Plural(w) ELSE "OK"
SeenDiags(S, M, lvl) ==
  LET e == Len(ErrorsOf(S))  w == Len(WarningsOf(S))  d == Shown(S, lvl) IN
  [errs |-> e, warns |-> w, sum |-> Summary(e, w), diags |-> [i \in DOMAIN d |-> DiagOf(S, M, d[i])]]
\* the lines naming places, in the printed form of diagnostics
LocLine(l) == "    File \"" \o l.file \o "\", line " \o ToString(l.line) \o ", col " \o ToString(l.col) \o (IF l.in = "" THEN "" ELSE ", in " \o l.in)
DiagLines(ds) == Fold(LAMBDA q, d : q \o [i \in DOMAIN d.locs |-> LocLine(d.locs[i])], <<>>, ds)
=============================================================================
