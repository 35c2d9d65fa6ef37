------------------------------- MODULE PHist -------------------------------
(* Histories: calls on one context, and edits and runs of the command-line    *)
(* compiler, in a small file system; the transitions that conformance cases   *)
(* and models share.                                                          *)
EXTENDS PCli

\* the state in which a context starts is computed once, for all workers
ASSUME TLCSet(1, TLCEval(InitState))
Start == TLCGet(1)

\* facts about code in other languages, and about HTML source, come with some cases
Net(c) == IF "web" \in DOMAIN c THEN [on |-> c.http, web |-> c.web, asked |-> <<>>] ELSE Start.net
Facts(c) == [Reset(Start) EXCEPT !.net = Net(c), !.hl = IF "hl" \in DOMAIN c THEN c.hl ELSE <<>>, !.dom = IF "dom" \in DOMAIN c THEN c.dom ELSE <<>>]

--------------------------------------------------------------------------
(* a history of calls on one context; c has the file system, st is a step *)
FSOf(c) == [dirs |-> {c.dirs[i] : i \in DOMAIN c.dirs}, names |-> c.names, texts |-> c.texts, mt |-> <<>>,
            links |-> IF "links" \in DOMAIN c THEN c.links ELSE <<>>]
CtxStart(c) == [Start EXCEPT !.fs = FSOf(c), !.net = Net(c), !.dom = IF "dom" \in DOMAIN c THEN c.dom ELSE <<>>,
  !.of = [on |-> c.hasout, base |-> Norm1(IF Abs(c.outdir) THEN <<>> ELSE c.cwd, Comps(c.outdir), 1), fs |-> <<>>]]
SynthSrc(c) == LET I == {i \in DOMAIN c.steps : c.steps[i].op = "synth"} IN
               [n \in {c.steps[i].name : i \in I} |-> c.steps[CHOOSE i \in I : c.steps[i].name = n].src]
CtxStep(S, st) ==
  CASE st.op = "synth" -> LET y == CompileFile(S, st.name, st.src, ReqP) IN OkR(y.s, y.v)
    [] st.op = "load" -> LoadUncached(S, st.path)
    [] st.op = "cached" -> LoadCached(S, st.path)
    [] st.op = "reset" -> OkR(Reset(S), VUnit)
    [] OTHER -> OkR([S EXCEPT !.of.fs = <<>>], VUnit)

--------------------------------------------------------------------------
(* a history of edits and runs of the command-line compiler *)
World(c) == [fs |-> [FSOf(c) EXCEPT !.mt = [i \in DOMAIN c.names |-> 1]], t |-> 1]
SeenTree(W) == {<<PathStr(W.fs.names[i], 1), W.fs.texts[i], W.fs.mt[i]>> : i \in DOMAIN W.fs.names}
CliStep(W, c, st) == \* [w, r]
  LET W1 == [W EXCEPT !.t = @ + 1] IN
  CASE st.op = "write" -> [w |-> PutFile(W1, InTree(st.path), st.text, W1.t), r |-> 0]
    [] st.op = "touch" -> LET i == FileIx(W.fs, InTree(st.path)) IN [w |-> IF i = 0 THEN W1 ELSE [W1 EXCEPT !.fs.mt[i] = st.time], r |-> 0]
    [] st.op = "rm" -> [w |-> DelFile(W1, InTree(st.path)), r |-> 0]
    [] OTHER -> LET r == RunCli(W1, [Start EXCEPT !.dom = IF "dom" \in DOMAIN c THEN c.dom ELSE <<>>,
                                        !.net = IF "web" \in DOMAIN c THEN [on |-> st.a.http, web |-> c.web, asked |-> <<>>] ELSE @], st.a, c.cwd) IN [w |-> r.w, r |-> r]

--------------------------------------------------------------------------
\* HTML values built from nested sequences of texts
RECURSIVE TreeH(_)
TreeH(t) == IF t.leaf THEN HText(t.s) ELSE HSeq([i \in DOMAIN t.ch |-> TreeH(t.ch[i])])

=============================================================================
