------------------------------- MODULE MCCtx -------------------------------
(* Histories of calls on one context whose files load each other: every way   *)
(* of filling the files and every sequence of calls up to a length.           *)
EXTENDS PHist
Model == JsonDeserialize(IOEnv.PAPYRI_MODEL)
VARIABLES c, S, n, hist, loads
\* what answers on the network: nothing is said of it in most models
Webs == IF "webs" \in DOMAIN Model THEN {<<on, w>> : on \in BOOLEAN, w \in DOMAIN Model.webs} ELSE {}
WithWeb(d, p) == [web |-> Model.webs[p[2]], http |-> p[1], dom |-> Model.dom] @@ d
Case(f) == [names |-> Model.names, texts |-> f, dirs |-> Model.dirs, cwd |-> Model.cwd, links |-> IF "links" \in DOMAIN Model THEN Model.links ELSE <<>>, hasout |-> Model.hasout, outdir |-> Model.outdir]
Init == \E f \in [DOMAIN Model.names -> UNION {DOMAIN Model.texts[i] : i \in DOMAIN Model.texts}] :
          /\ \A i \in DOMAIN f : f[i] \in DOMAIN Model.texts[i]
          /\ LET d == Case([i \in DOMAIN f |-> Model.texts[i][f[i]]]) IN
             IF Webs = {} THEN c = d ELSE \E p \in Webs : c = WithWeb(d, p)
          /\ S = CtxStart(c) /\ n = 0 /\ hist = <<>> /\ loads = 0
Steps == Model.steps
Do(i) == LET st == Steps[i] x == TLCEval(CtxStep(S, st)) IN
  /\ (st.op = "reset" => S.of.fs = <<>>)      \* a reset with files not taken is outside the contract
  /\ S' = x.s /\ n' = n + 1 /\ hist' = Append(hist, i) /\ UNCHANGED <<c, loads>>
Next == n < Model.depth /\ \E i \in DOMAIN Steps : Do(i)
--------------------------------------------------------------------------
\* between calls no module is being loaded, and none is on the stack
Quiet == \A k \in DOMAIN S.mods : S.mods[k].st \in {"loaded", "error"}
StackEmpty == S.st = <<>>
\* what was loaded stays as it was
Once == [][\A k \in DOMAIN S.mods : k \in DOMAIN S'.mods /\ S'.mods[k] = S.mods[k]]_<<c, S, n, hist, loads>>
\* output is possible exactly if there is a directory for it, and lies inside
OutKept == S.of.on = Model.hasout /\ S.of.base = CtxStart(c).of.base
OutInside == \A i \in DOMAIN S.of.fs : LET k == Comps(S.of.fs[i][1]) IN ~Abs(S.of.fs[i][1]) /\ \A j \in DOMAIN k : k[j] # ".."
\* without access to the network nothing is asked of it, and what is asked is never a file
Silent == (~S.net.on => S.net.asked = <<>>) /\ \A i \in DOMAIN S.net.asked : IsHttp(S.net.asked[i])
\* what was asked was asked; a module that is there already asks nothing
Asks == [][/\ Len(S.net.asked) <= Len(S'.net.asked) /\ SubSeq(S'.net.asked, 1, Len(S.net.asked)) = S.net.asked
           /\ (hist' # hist /\ Steps[hist'[n']].op = "cached" /\ DOMAIN S.mods = DOMAIN S'.mods => S'.net.asked = S.net.asked)]_<<c, S, n, hist, loads>>
\* errors are only ever added, until the next reset
Laws == S.deep \/ StateLaw(S) = ""
Emit == n = Model.depth => PrintT(ToJson([web |-> IF Webs = {} THEN <<>> ELSE c.web, http |-> S.net.on, texts |-> c.texts, hist |-> hist, deep |-> S.deep]))
=============================================================================
