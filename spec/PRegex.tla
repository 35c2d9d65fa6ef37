------------------------------- MODULE PRegex -------------------------------
(* Regular expressions: the subset of the syntax the generators use, with    *)
(* leftmost-first (backtracking) semantics.                                   *)
(* nodes: [k "chr", c] [k "set", neg, cs, cl] [k "any"] [k "all"] [k "bol"]  *)
(*   [k "eol"] [k "rep", b, lo, hi (-1 = no bound), lazy, at] [k "alt", bs]  *)
(*   [k "open", g] [k "close", g, at]                                         *)
EXTENDS PTypes

XFail == [ok |-> FALSE, i |-> 0, v |-> 0, n |-> 0, xs |-> <<>>]
XOk(i, v, n, xs) == [ok |-> TRUE, i |-> i, v |-> v, n |-> n, xs |-> xs]
DIG == {"0","1","2","3","4","5","6","7","8","9"}
WORD == Letters \cup DIG \cup {"_"}
IsUniWs(c) == CH[c].w
Meta == {"\\", ".", "+", "*", "?", "(", ")", "|", "[", "]", "{", "}", "^", "$", "-", "#", "&", "~"}
ClassOf(c) == CASE c = "d" -> "d" [] c = "w" -> "w" [] OTHER -> "s"
InClass(c, cl) == CASE cl = "d" -> CH[c].nd [] cl = "w" -> CH[c].wc [] OTHER -> IsUniWs(c)
SetHas(c, s) == s.neg # (c \in s.cs \/ \E cl \in s.cl : InClass(c, cl))

(* parser: C chars of the pattern; n capture groups so far; xs their names (""=none) *)
RECURSIVE XAlt(_, _, _, _, _)
RECURSIVE XSeq(_, _, _, _, _)
XChars(lo, hi) == {c \in DOMAIN CH : CH[c].code >= CH[lo].code /\ CH[c].code <= CH[hi].code}
RECURSIVE XSet(_, _, _, _)
\* the inside of [...]: Ok with v = [cs, cl]
XSet(C, i, cs, cl) ==
  IF i > Len(C) THEN XFail
  ELSE IF C[i] = "]" THEN XOk(i+1, [cs |-> cs, cl |-> cl], 0, <<>>)
  ELSE IF C[i] = "[" THEN XFail
  ELSE IF C[i] = "\\" THEN
       IF At(C, i+1) \in {"d", "w", "s"} THEN XSet(C, i+2, cs, cl \cup {ClassOf(C[i+1])})
       ELSE IF At(C, i+1) \in Meta THEN XSet(C, i+2, cs \cup {C[i+1]}, cl) ELSE XFail
  ELSE IF At(C, i+1) = "-" /\ At(C, i+2) \notin {"]", ""} THEN
       IF CH[C[i]].code > CH[C[i+2]].code THEN XFail ELSE XSet(C, i+3, cs \cup XChars(C[i], C[i+2]), cl)
  ELSE XSet(C, i+1, cs \cup {C[i]}, cl)
RECURSIVE XNum(_, _, _)
XNum(C, i, acc) == IF At(C, i) \in DIG THEN XNum(C, i+1, acc*10 + DigitOf[C[i]]) ELSE <<i, acc>>
XName(C, i) == LET RECURSIVE F(_) F(j) == IF At(C, j) \in WORD \cup {".", "["} THEN F(j+1) ELSE j
                   e == F(i)
               IN  IF At(C, e) = ">" /\ e > i /\ C[i] \in Letters \cup {"_"} THEN XOk(e+1, Cat(C, i, e-1), 0, <<>>) ELSE XFail
XAtom(C, i, n, xs) ==
  LET c == C[i] IN
  CASE c = "." -> XOk(i+1, [k |-> "any"], n, xs)
    [] c = "^" -> XOk(i+1, [k |-> "bol"], n, xs)
    [] c = "$" -> XOk(i+1, [k |-> "eol"], n, xs)
    [] c \in {")", "*", "+", "?", "{", "|"} -> XFail
    [] c = "\\" -> IF At(C, i+1) \in {"d", "w", "s"} THEN XOk(i+2, [k |-> "set", neg |-> FALSE, cs |-> {}, cl |-> {ClassOf(C[i+1])}], n, xs)
                   ELSE IF At(C, i+1) \in Meta THEN XOk(i+2, [k |-> "chr", c |-> C[i+1]], n, xs) ELSE XFail
    [] c = "[" -> LET neg == At(C, i+1) = "^"
                      a == IF neg THEN i+2 ELSE i+1
                      s == IF At(C, a) = "]" THEN XFail ELSE XSet(C, a, {}, {})
                  IN  IF ~s.ok THEN XFail ELSE XOk(s.i, [k |-> "set", neg |-> neg, cs |-> s.v.cs, cl |-> s.v.cl], n, xs)
    [] c = "(" ->
         IF At(C, i+1) = "?" THEN
            IF At(C, i+2) = ":" THEN
               LET a == XAlt(C, i+3, n, xs, 1) IN IF ~a.ok THEN XFail ELSE XOk(a.i+1, [k |-> "alt", bs |-> a.v], a.n, a.xs)
            ELSE IF At(C, i+2) = "P" /\ At(C, i+3) = "<" THEN
               LET nm == XName(C, i+4) IN
               IF ~nm.ok \/ \E j \in DOMAIN xs : xs[j] = nm.v THEN XFail
               ELSE LET a == XAlt(C, nm.i, n+1, Append(xs, nm.v), 1) IN
                    IF ~a.ok THEN XFail ELSE XOk(a.i+1, [k |-> "grp", g |-> n+1, bs |-> a.v], a.n, a.xs)
            ELSE XFail
         ELSE LET a == XAlt(C, i+1, n+1, Append(xs, ""), 1) IN
              IF ~a.ok THEN XFail ELSE XOk(a.i+1, [k |-> "grp", g |-> n+1, bs |-> a.v], a.n, a.xs)
    [] OTHER -> XOk(i+1, [k |-> "chr", c |-> c], n, xs)
RECURSIVE XReps(_, _, _, _, _)
XReps(C, i, v, n, xs) ==
  LET c == At(C, i)
      Rp(j, lo, hi) == LET lz == At(C, j) = "?" IN
        XReps(C, IF lz THEN j+1 ELSE j, [k |-> "rep", b |-> v, lo |-> lo, hi |-> hi, lazy |-> lz, at |-> 0], n, xs)
  IN  CASE c = "*" -> Rp(i+1, 0, -1) [] c = "+" -> Rp(i+1, 1, -1) [] c = "?" -> Rp(i+1, 0, 1)
        [] c = "{" -> LET a == XNum(C, i+1, 0)
                          open == At(C, a[1]) = ","
                          b == IF open THEN XNum(C, a[1]+1, 0) ELSE a
                          nohi == open /\ b[1] = a[1]+1
                      IN  IF a[1] = i+1 \/ At(C, b[1]) # "}" \/ (~nohi /\ b[2] < a[2]) THEN XFail
                          ELSE Rp(b[1]+1, a[2], IF nohi THEN -1 ELSE b[2])
        [] OTHER -> XOk(i, v, n, xs)
XSeq(C, i, n, xs, acc) ==
  IF i > Len(C) \/ C[i] \in {"|", ")"} THEN XOk(i, acc, n, xs)
  ELSE LET a == XAtom(C, i, n, xs) IN
       IF ~a.ok THEN XFail
       ELSE LET r == XReps(C, a.i, a.v, a.n, a.xs) IN
            IF ~r.ok THEN XFail ELSE XSeq(C, r.i, r.n, r.xs, Append(acc, r.v))
\* alternatives up to ")" (depth 1) or the end (depth 0)
XAlt(C, i, n, xs, depth) ==
  LET s == XSeq(C, i, n, xs, <<>>) IN
  IF ~s.ok THEN XFail
  ELSE IF At(C, s.i) = "|" THEN LET r == XAlt(C, s.i+1, s.n, s.xs, depth) IN
                                IF ~r.ok THEN XFail ELSE XOk(r.i, <<s.v>> \o r.v, r.n, r.xs)
  ELSE IF depth = 1 THEN (IF At(C, s.i) = ")" THEN XOk(s.i, <<s.v>>, s.n, s.xs) ELSE XFail)
  ELSE IF s.i > Len(C) THEN XOk(s.i, <<s.v>>, s.n, s.xs) ELSE XFail
IsIdent(s) == LET C == Chars(s) IN C # <<>> /\ C[1] \in Letters \cup {"_"} /\ \A i \in DOMAIN C : C[i] \in WORD
\* a regex value, or [t "err", e kind]
CompileRegex(src) ==
  LET r == XAlt(Chars(src), 1, 0, <<>>, 0) IN
  IF ~r.ok THEN [t |-> "err", e |-> "RegexSyntaxError"]
  ELSE LET none == \A i \in DOMAIN r.xs : r.xs[i] = ""
           all == \A i \in DOMAIN r.xs : r.xs[i] # ""
       IN  IF r.xs # <<>> /\ ~none /\ all /\ \E i \in DOMAIN r.xs : ~IsIdent(r.xs[i]) THEN [t |-> "err", e |-> "RegexInvalidGroupName"]
           ELSE IF ~none /\ ~all THEN [t |-> "err", e |-> "RegexMixedGroupKinds"]
           ELSE [t |-> "regex", src |-> src, bs |-> r.v, n |-> r.n, xs |-> r.xs,
                 kind |-> IF r.n = 0 THEN "simple" ELSE IF none THEN "numbered" ELSE "named"]

\* syntax of the regex crate beyond the subset specified here
RxForeign(src) ==
  LET C == Chars(src)
      Two(i, a, b) == C[i] = a /\ At(C, i+1) = b
      bad == ~XAlt(C, 1, 0, <<>>, 0).ok
      sets == \E i \in DOMAIN C : C[i] = "["
  IN  \/ sets /\ \E j \in DOMAIN C : Two(j, "-", "-") \/ Two(j, "&", "&") \/ Two(j, "~", "~") \/ Two(j, "-", "\\")
      \/ bad /\ \E i \in DOMAIN C : C[i] \in {"[", "{"} /\
           ((\E j \in DOMAIN C : j # i /\ C[j] = "[") \/ C[i] = "{" \/ At(C, i+1) = "]" \/ (At(C, i+1) = "^" /\ At(C, i+2) = "]"))
      \/ bad /\ \E i \in 1..(Len(C)-1) : C[i] = "\\" /\ At(C, i+1) \notin Meta \cup {"d", "w", "s"}
      \/ bad /\ \E i \in DOMAIN C : Two(i, "(", "?") /\ ~(At(C, i+2) = ":" \/ (At(C, i+2) = "P" /\ At(C, i+3) = "<"))
      \/ \E i \in DOMAIN C : C[i] = "{" /\ At(C, i+1) \in DIG /\ At(C, i+2) \in DIG /\ At(C, i+3) \in DIG

--------------------------------------------------------------------------
\* a thread [todo, caps]: nodes still to match, and group -> <<a, e>> or <<>>.
\* Threads are kept in the order of preference; of several with the same nodes to match
\* only the first counts.  The first thread to finish ends those after it.
RECURSIVE XClo(_, _, _, _, _)
XClo(C, i, stack, acc, seen) ==
  IF stack = <<>> THEN acc
  ELSE LET th == stack[1]  more == Tail(stack) IN
  IF th.todo \in seen THEN XClo(C, i, more, acc, seen)
  ELSE IF th.todo = <<>> THEN Append(acc, th)
  ELSE LET n == th.todo[1]  rest == Tail(th.todo)  se == seen \cup {th.todo}
           To(todos) == XClo(C, i, [j \in DOMAIN todos |-> [todo |-> todos[j], caps |-> th.caps]] \o more, acc, se)
       IN
  CASE n.k \in {"chr", "any", "all", "set"} -> XClo(C, i, more, Append(acc, th), se)
    [] n.k = "bol" -> To(IF i = 1 THEN <<rest>> ELSE <<>>)
    [] n.k = "eol" -> To(IF i = Len(C)+1 THEN <<rest>> ELSE <<>>)
    [] n.k = "alt" -> To([j \in DOMAIN n.bs |-> n.bs[j] \o rest])
    [] n.k = "grp" -> XClo(C, i, [j \in DOMAIN n.bs |-> [todo |-> n.bs[j] \o <<[k |-> "close", g |-> n.g]>> \o rest, caps |-> [th.caps EXCEPT ![n.g] = <<i, i>>]]] \o more, acc, se)
    [] n.k = "close" -> XClo(C, i, <<[todo |-> rest, caps |-> [th.caps EXCEPT ![n.g] = <<@[1], i>>]]>> \o more, acc, se)
    [] OTHER ->
         LET again == <<n.b, [n EXCEPT !.lo = IF @ > 0 THEN @-1 ELSE 0, !.hi = IF @ > 0 THEN @-1 ELSE @, !.at = i]>> \o rest IN
         To(IF n.lo > 0 THEN <<again>> ELSE IF n.hi = 0 \/ n.at = i THEN <<rest>> ELSE IF n.lazy THEN <<rest, again>> ELSE <<again, rest>>)
XTakes(n, c) == CASE n.k = "chr" -> c = n.c [] n.k = "any" -> c # "\n" [] n.k = "all" -> TRUE [] OTHER -> SetHas(c, n)
XNorm(todo) == [j \in DOMAIN todo |-> IF todo[j].k = "rep" THEN [todo[j] EXCEPT !.at = 0] ELSE todo[j]]
RECURSIVE XRun(_, _, _)
XRun(C, i, ths) ==
  IF ths = <<>> THEN [ok |-> FALSE]
  ELSE LET last == ths[Len(ths)]
           fin == last.todo = <<>>
           live == IF fin THEN SubSeq(ths, 1, Len(ths)-1) ELSE ths
           on == IF i > Len(C) THEN <<>> ELSE SelectSeq(live, LAMBDA th : XTakes(th.todo[1], C[i]))
           r == XRun(C, i+1, XClo(C, i+1, [j \in DOMAIN on |-> [todo |-> XNorm(Tail(on[j].todo)), caps |-> on[j].caps]], <<>>, {}))
       IN IF on # <<>> /\ r.ok THEN r ELSE IF fin THEN [ok |-> TRUE, e |-> i, caps |-> last.caps] ELSE [ok |-> FALSE]
XTry(C, bs, i, caps) == XRun(C, i, XClo(C, i, [j \in DOMAIN bs |-> [todo |-> bs[j], caps |-> caps]], <<>>, {}))
\* the leftmost match from position i on: [ok, a, e, caps]
RECURSIVE XFind(_, _, _, _)
XFind(C, bs, n, i) ==
  IF i > Len(C) + 1 THEN [ok |-> FALSE]
  ELSE LET r == XTry(C, bs, i, [g \in 1..n |-> <<>>]) IN
       IF r.ok THEN [ok |-> TRUE, a |-> i, e |-> r.e, caps |-> r.caps] ELSE XFind(C, bs, n, i+1)
\* all successive matches
RECURSIVE XIter(_, _, _, _, _, _)
XIter(C, bs, n, i, last, acc) ==
  LET m == XFind(C, bs, n, i) IN
  IF ~m.ok THEN acc
  ELSE IF m.a = m.e THEN IF m.e = last THEN XIter(C, bs, n, m.e+1, last, acc) ELSE XIter(C, bs, n, m.e+1, m.e, Append(acc, m))
  ELSE XIter(C, bs, n, m.e, m.e, Append(acc, m))
XAll(C, rx) == XIter(C, rx.bs, rx.n, 1, 0, <<>>)
XStr(C, c) == IF c = <<>> THEN VUnit ELSE VS(Cat(C, c[1], c[2]-1))
XVal(C, rx, m) ==
  CASE rx.kind = "simple" -> VS(Cat(C, m.a, m.e-1))
    [] rx.kind = "numbered" -> VL(<<VS(Cat(C, m.a, m.e-1))>> \o [g \in 1..rx.n |-> XStr(C, m.caps[g])])
    [] OTHER -> VD(rx.xs, [g \in 1..rx.n |-> XStr(C, m.caps[g])])
RxFind(rx, s) == LET C == Chars(s)  m == XFind(C, rx.bs, rx.n, 1) IN IF m.ok THEN XVal(C, rx, m) ELSE VUnit
RxFindAll(rx, s) == LET C == Chars(s)  ms == XAll(C, rx) IN VL([i \in DOMAIN ms |-> XVal(C, rx, ms[i])])
RxSplit(rx, s) ==
  LET C == Chars(s)  ms == XAll(C, rx)
      A(i) == IF i = 1 THEN 1 ELSE ms[i-1].e
  IN  VL([i \in 1..(Len(ms)+1) |-> VS(Cat(C, A(i), IF i > Len(ms) THEN Len(C) ELSE ms[i].a - 1))])

\* the anchored pattern of a string-template match pattern
TplNodes(rx) == LET F(p, g) == CASE p.t = "lit" -> [i \in DOMAIN Chars(p.s) |-> [k |-> "chr", c |-> Chars(p.s)[i]]]
                              [] p.t = "ws" -> <<[k |-> "rep", lo |-> 1, hi |-> -1, lazy |-> FALSE, at |-> 0,
                                    b |-> [k |-> "set", neg |-> FALSE, cs |-> {}, cl |-> {"s"}]]>>
                              [] OTHER -> <<[k |-> "grp", g |-> g, bs |-> <<  <<[k |-> "rep", lo |-> 1, hi |-> -1, lazy |-> TRUE, at |-> 0, b |-> [k |-> "all"]]>> >>]>>
                    RECURSIVE L(_, _)
                    L(i, g) == IF i > Len(rx) THEN <<>> ELSE F(rx[i], g) \o L(i+1, IF rx[i].t = "cap" THEN g+1 ELSE g)
                IN  <<[k |-> "bol"]>> \o L(1, 1) \o <<[k |-> "eol"]>>
=============================================================================
