------------------------------- MODULE Props -------------------------------
(* The promises of the language, stated as laws about the results that the   *)
(* specification prescribes.  They are checked on every program that is       *)
(* compared with the implementation, and on every state of the enumerations.  *)
EXTENDS PSem

--------------------------------------------------------------------------
(* Reading rendered HTML back: an independent reader of tags, attributes and  *)
(* the five entities.  Result: the HTML value.                                *)
DecodeAt(C, i) == \* <<character, next index>> of the entity at i
  LET Is(e) == Cat(C, i, MinI(i + Len(e) - 1, Len(C))) = e IN
  CASE Is("&lt;") -> <<"<", i+4>> [] Is("&gt;") -> <<">", i+4>> [] Is("&amp;") -> <<"&", i+5>>
    [] Is("&quot;") -> <<"\"", i+6>> [] Is("&apos;") -> <<"'", i+6>> [] OTHER -> <<"BAD", i+1>>
Decode(s) == LET C == Chars(s) IN
  IF \A i \in DOMAIN C : C[i] # "&" THEN s
  ELSE Iter(LAMBDA q : IF q.i > Len(C) THEN [q EXCEPT !.done = TRUE]
                       ELSE IF C[q.i] # "&" THEN [q EXCEPT !.o = @ \o C[q.i], !.i = @ + 1]
                       ELSE LET d == DecodeAt(C, q.i) IN [q EXCEPT !.o = @ \o d[1], !.i = d[2]],
            [i |-> 1, o |-> "", done |-> FALSE], Len(C) + 1).o
Rd(C, i, ch) == LET RECURSIVE F(_) F(j) == IF j > Len(C) \/ C[j] \in ch THEN j ELSE F(j+1) IN F(i)
\* the attributes from i on: [i index after ">", as]
RECURSIVE ReadAttrs(_, _, _)
ReadAttrs(C, i, as) ==
  IF At(C, i) # " " THEN [i |-> i+1, as |-> as, ok |-> At(C, i) = ">"]
  ELSE LET j == Rd(C, i+1, {" ", "=", ">"})  n == Cat(C, i+1, j-1) IN
       IF At(C, j) # "=" THEN ReadAttrs(C, j, Append(as, [x |-> n, f |-> TRUE, v |-> ""]))
       ELSE LET k == Rd(C, j+2, {"\""}) IN ReadAttrs(C, k+1, Append(as, [x |-> n, f |-> FALSE, v |-> Decode(Cat(C, j+2, k-1))]))
\* st: the open elements [n, as, ch], innermost last; the first is the document
PutH(st, h) == [st EXCEPT ![Len(st)].ch = Append(@, h)]
ReadStep(C, q) ==
  IF q.i > Len(C) THEN [q EXCEPT !.done = TRUE, !.ok = q.ok /\ Len(q.st) = 1]
  ELSE IF C[q.i] # "<" THEN LET j == Rd(C, q.i, {"<"}) IN [q EXCEPT !.st = PutH(@, HText(Decode(Cat(C, q.i, j-1)))), !.i = j]
  ELSE IF At(C, q.i+1) = "/" THEN
       LET j == Rd(C, q.i, {">"})  t == q.st[Len(q.st)] IN
       IF Len(q.st) = 1 \/ t.n # Cat(C, q.i+2, j-1) THEN [q EXCEPT !.ok = FALSE, !.done = TRUE]
       ELSE [q EXCEPT !.st = PutH(SubSeq(@, 1, Len(@)-1), HTag(t.n, t.as, HSeq(t.ch))), !.i = j+1]
  ELSE LET j == Rd(C, q.i, {" ", ">"})  n == Cat(C, q.i+1, j-1)  a == ReadAttrs(C, j, <<>>) IN
       IF ~a.ok THEN [q EXCEPT !.ok = FALSE, !.done = TRUE]
       ELSE IF n \in SELF_CLOSING THEN [q EXCEPT !.st = PutH(@, HTag(n, a.as, HE)), !.i = IF n = "!DOCTYPE" THEN a.i + 1 ELSE a.i]
       ELSE [q EXCEPT !.st = Append(@, [n |-> n, as |-> a.as, ch |-> <<>>]), !.i = a.i]
ReadBack(s) == LET C == Chars(s)
                   q == Iter(LAMBDA x : ReadStep(C, x), [i |-> 1, st |-> <<[n |-> "", as |-> <<>>, ch |-> <<>>]>>, ok |-> TRUE, done |-> FALSE], Len(C) + 2)
               IN  [ok |-> q.ok, h |-> HSeq(q.st[1].ch)]
RECURSIVE Dashed(_)
Dashed(h) == CASE h.k = "seq" -> [h EXCEPT !.hs = [i \in DOMAIN h.hs |-> Dashed(h.hs[i])]]
               [] h.k = "tag" -> [h EXCEPT !.c = Dashed(h.c), !.as = [i \in DOMAIN h.as |-> [h.as[i] EXCEPT !.x = Dash(@), !.v = IF h.as[i].f THEN "" ELSE @]]]
               [] OTHER -> h
RECURSIVE TextOf(_)
TextOf(h) == CASE h.k = "text" -> h.s [] h.k = "tag" -> TextOf(h.c)
               [] h.k = "seq" -> LET X == [i \in DOMAIN h.hs |-> TextOf(h.hs[i])] IN Cat(X, 1, Len(X)) [] OTHER -> ""
NoEnds(s) == LET C == SelectSeq(Chars(s), LAMBDA c : c \notin {"\n", "―"}) IN Cat(C, 1, Len(C))
RECURSIVE Distinct(_)
Distinct(h) == CASE h.k = "tag" -> Distinct(h.c) /\ \A i, j \in DOMAIN h.as : h.as[i].x = h.as[j].x => i = j
                 [] h.k = "seq" -> \A i \in DOMAIN h.hs : Distinct(h.hs[i]) [] OTHER -> TRUE

--------------------------------------------------------------------------
(* of a finished compilation: S its last state, v its [out, ex] *)
ValidId(s) == IsIdent(s) /\ s = Low(s)
HtmlLaw(h) ==
  LET r == Render(h)  b == ReadBack(r) IN
  CASE ~IsNormal(h) -> "normal form"
    [] ~Distinct(h) -> "attribute given twice"
    [] ~b.ok -> "rendered output is not well formed"
    [] b.h # Dashed(h) -> "rendered output does not read back as the document"
    [] NoEnds(RenderText(h)) # NoEnds(TextOf(b.h)) -> "text output and HTML output differ"
    [] OTHER -> ""
StateLaw(S) ==
  CASE S.st # <<>> -> "call stack not empty at the end"
    [] \E i \in DOMAIN S.fr : S.fr[i].par >= i -> "a frame is older than its parent"
    [] \E i \in DOMAIN S.fr : ~(S.fr[i].imp \subseteq DOMAIN S.fr[i].loc) -> "implicit name without a declaration"
    [] \E u \in S.uid : ~ValidId(u) -> "invalid unique identifier"
    [] \E i \in DOMAIN S.d : ~S.d[i].tb /\ S.d[i].st # <<>> -> "calls recorded for a syntax error"
    [] Len(S.d) # Len(ErrorsOf(S)) + Len(WarningsOf(S)) + Len(SelectSeq(S.d, LAMBDA x : x.k = "AlreadyReported")) -> "diagnostic counts"
    [] (\E i \in DOMAIN S.d : S.d[i].k = "AlreadyReported") /\ ErrorsOf(S) = <<>> -> "failure without an error"
    [] OTHER -> ""
Law(S, v, kind) ==
  LET a == HtmlLaw(v.out)  b == StateLaw(S) IN
  IF a # "" THEN a ELSE IF b # "" THEN b
  ELSE IF ErrorsOf(S) = <<>> /\ ~Obeys(v.out, kind) THEN "content model"
  ELSE ""
\* every character of a source is in exactly one token, in order
LexLaw(src) == LET T == TokenizeAll(Chars(src)) IN
  /\ Cat([i \in DOMAIN T |-> T[i].s], 1, Len(T)) = src
  /\ \A i \in DOMAIN T : T[i].s # "" /\ T[i].a < T[i].b /\ T[i].a = (IF i = 1 THEN 0 ELSE T[i-1].b)
\* highlighting keeps the text of code
CodeLaw(src) == LET l == PapyriLines(src) IN [i \in DOMAIN l |-> TextOf(l[i])] = SplitBy(TrimEnd(src), "\n")
=============================================================================
