------------------------------- MODULE MCOut -------------------------------
(* The collection of output files: every sequence of requests up to a length. *)
EXTENDS PHist
Model == JsonDeserialize(IOEnv.PAPYRI_MODEL)
VARIABLES base, fs, hist
Below(b) == Norm1(IF Abs(b) THEN <<>> ELSE Model.cwd, Comps(b), 1)
Init == base \in {Model.bases[i] : i \in DOMAIN Model.bases} /\ fs = <<>> /\ hist = <<>>
PushW(i) == LET p == OutPath(Below(base), Model.paths[i])  v == "v" \o ToString(Len(hist)) IN
  /\ fs' = IF p.ok THEN Append(fs, <<p.v, v>>) ELSE fs
  /\ hist' = Append(hist, [take |-> FALSE, path |-> Model.paths[i], v |-> v])
Take == fs # <<>> /\ fs' = <<>> /\ hist' = Append(hist, [take |-> TRUE, path |-> "", v |-> ""])
Next == Len(hist) < Model.depth /\ UNCHANGED base /\ (Take \/ \E i \in DOMAIN Model.paths : PushW(i))
\* no path ever leaves the directory
Contained == \A i \in DOMAIN fs : LET c == Comps(fs[i][1]) IN
  /\ ~Abs(fs[i][1]) /\ \A j \in DOMAIN c : c[j] # ".."
  /\ LET n == Norm1(Below(base), c, 1) IN SubSeq(n, 1, Len(Below(base))) = Below(base)
\* files are handed over in the order of the requests, each once
InOrder == \A i, j \in DOMAIN fs : i < j => fs[i][2] # fs[j][2]
Emit == Len(hist) = Model.depth => PrintT(ToJson([base |-> base, hist |-> hist]))
=============================================================================
