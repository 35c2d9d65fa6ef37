------------------------------- MODULE MCCli -------------------------------
(* Histories of edits and runs of the command-line compiler: every sequence   *)
(* up to a length, from every way of filling the files.                       *)
EXTENDS PHist
Model == JsonDeserialize(IOEnv.PAPYRI_MODEL)
VARIABLES c, W, hist, last
Init == \E f \in [DOMAIN Model.names -> UNION {DOMAIN Model.texts[i] : i \in DOMAIN Model.texts}] :
          /\ \A i \in DOMAIN f : f[i] \in DOMAIN Model.texts[i]
          /\ c = [names |-> Model.names, texts |-> [i \in DOMAIN f |-> Model.texts[i][f[i]]], dirs |-> Model.dirs, cwd |-> Model.cwd]
          /\ W = World(c) /\ hist = <<>> /\ last = [op |-> "none"]
Do(i) == LET st == Model.steps[i] x == TLCEval(CliStep(W, c, st)) IN
  /\ W' = x.w /\ hist' = Append(hist, i) /\ UNCHANGED c
  /\ last' = IF st.op = "run" THEN [op |-> "run", a |-> st.a, r |-> x.r] ELSE [op |-> st.op]
Next == Len(hist) < Model.depth /\ \E i \in DOMAIN Model.steps : Do(i)
--------------------------------------------------------------------------
Ran == last.op = "run"
Text(V, p) == LET i == FileIx(V.fs, p) IN IF i = 0 THEN <<>> ELSE <<V.fs.texts[i]>>
\* sources are never touched by a run
SourcesKept == [][last'.op = "run" => \A i \in DOMAIN W.fs.names : IsPapyriPath(PathStr(W.fs.names[i], 1)) => Text(W', W.fs.names[i]) = Text(W, W.fs.names[i])]_<<c, W, hist, last>>
\* nothing but documents is written, and only below the output directory if there is one
OnlyOutputs == [][last'.op = "run" => \A i \in DOMAIN W'.fs.names : LET p == W'.fs.names[i] IN
    W'.fs.mt[i] = W'.t /\ FileIx(W.fs, p) # FileIx(W'.fs, p) =>
      /\ ~last'.a.hasin
      /\ (last'.a.hasout => LET b == Norm1(<<>>, Comps(last'.a.out), 1) IN SubSeq(p, 1, Len(b)) = b)]_<<c, W, hist, last>>
\* the exit status tells whether something failed
Status == Ran => last.r.code \in {0, 1} /\ (last.r.err = <<>> => last.r.code = 0)
\* a second run, skipping unchanged sources, after one that went well writes no document again
Emit == Len(hist) = Model.depth /\ Ran => PrintT(ToJson([texts |-> c.texts, hist |-> hist]))
=============================================================================
