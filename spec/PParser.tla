------------------------------ MODULE PParser ------------------------------
(* The grammar of Papyri: tokens -> abstract syntax, plus the syntax errors, *)
(* in the order in which they are reported.                                   *)
(*                                                                            *)
(* Parser state P: T tokens, i index of the next one, e the position of the   *)
(* end of file, f the file's name, d the diagnostics so far.  A result is     *)
(* [ok, p, v].  Every syntax node carries r = <<file, start position>>.       *)
EXTENDS PLexer, PInt

CODES == JsonDeserialize(IOEnv.PAPYRI_SPEC \o "/codes.json")
ENTS == JsonDeserialize(IOEnv.PAPYRI_SPEC \o "/entities.json")

Ok(p, v) == [ok |-> TRUE, p |-> p, v |-> v]
Fail(p) == [ok |-> FALSE, p |-> p, v |-> 0]
Rep(P, k, pos) == [P EXCEPT !.d = Append(@, [k |-> k, f |-> P.f, p |-> pos, tb |-> FALSE, st |-> <<>>])]
RepR(P, k, r) == Rep(P, k, r[2])
FailK(P, k, pos) == Fail(Rep(P, k, pos))

Peek(P) == IF P.i <= Len(P.T) THEN P.T[P.i].k ELSE "EOF"
Tok(P) == P.T[P.i]
Adv(P) == [P EXCEPT !.i = @ + 1]
Skip(P) == IF IsWsTok(Peek(P)) THEN Adv(P) ELSE P
R(P, tok) == <<P.f, tok.a>>

\* expect_poll, expect_poll_kind: Ok with the token as value
Want(P) == IF Peek(P) = "EOF" THEN FailK(P, "UnexpectedEOF", P.e) ELSE Ok(Adv(P), Tok(P))
WantK(P, k) == IF Peek(P) = "EOF" THEN FailK(P, "UnexpectedEOF", P.e)
               ELSE IF Peek(P) # k THEN FailK(P, "TokenExpectedWas", Tok(P).a)
               ELSE Ok(Adv(P), Tok(P))

Tail1(s) == SubSeq(s, 2, Len(s))
\* a capital sigma at the end of a word has a lower case of its own (Unicode's Final_Sigma)
RECURSIVE CasedFrom(_, _, _)
CasedFrom(C, i, d) == IF i < 1 \/ i > Len(C) THEN FALSE ELSE IF CH[C[i]].ci THEN CasedFrom(C, i+d, d) ELSE CH[C[i]].cased
Low(s) == LET C == Chars(s) IN
  Cat([i \in DOMAIN C |-> IF CH[C[i]].code = 931 /\ CasedFrom(C, i-1, -1) /\ ~CasedFrom(C, i+1, 1) THEN CODES["962"] ELSE CH[C[i]].lo], 1, Len(C))
Upp(s) == LET C == Chars(s) IN Cat([i \in DOMAIN C |-> CH[C[i]].up], 1, Len(C))

--------------------------------------------------------------------------
(* types: [t |-> "int"], [t |-> "list", c |-> T], [t |-> "opt", c |-> T] ... *)
Ty(t) == [t |-> t]
TyList(c) == [t |-> "list", c |-> c]
TyDict(c) == [t |-> "dict", c |-> c]
HtmlTypes == {"html", "block", "inline"}
UnitOK(t) == t.t \in {"any", "html", "block", "inline", "none", "opt"}
TyOpt(t) == IF UnitOK(t) THEN t ELSE [t |-> "opt", c |-> t]
RECURSIVE TyStr(_)
TyStr(t) == CASE t.t = "list" -> TyStr(t.c) \o " list" [] t.t = "dict" -> TyStr(t.c) \o " dict"
              [] t.t = "opt" -> TyStr(t.c) \o "?" [] OTHER -> t.t
BaseTypes == {"any", "none", "html", "block", "inline", "bool", "int", "str", "function", "regex"}

SELF_CLOSING == {"!DOCTYPE", "area", "base", "br", "col", "command", "embed", "hr", "img", "input",
   "keygen", "link", "menuitem", "meta", "param", "source", "track", "wbr"}

--------------------------------------------------------------------------
(* literal text *)
SUBS == << <<"-","0">>, <<"-","1">>, <<"-","2">>, <<"-","3">>, <<"-","4">>, <<"-","5">>, <<"-","6">>,
   <<"-","7">>, <<"-","8">>, <<"-","9">>, <<"-","-","-">>, <<"-","-">>, <<"<","-",">">>, <<"<","-">>,
   <<"-",">">>, <<"!","=">>, <<"<","=">>, <<">","=">>, <<"+","/","-">>, <<"(","c",")">>, <<"~">> >>
SUBR == << "−0","−1","−2","−3","−4","−5","−6","−7","−8","−9", "—", "–", "↔", "←", "→", "≠", "≤", "≥", "±", "©", CODES["160"] >>
ASSUME CH[SubSeq(SUBR[1],1,1)].code = 8722

\* the longest substitution starting at i, or 0
SubAt(C, i) == LET H == {k \in 1..Len(SUBS) : StartsAt(C, i, SUBS[k])} IN
               IF H = {} THEN 0 ELSE CHOOSE k \in H : \A m \in H : Len(SUBS[m]) <= Len(SUBS[k])
SubFirst == {"-", "<", "!", ">", "+", "(", "~"}
SubStep(C, q, i) ==
  IF q.i # i THEN q
  ELSE LET k == IF C[i] \in SubFirst THEN SubAt(C, i) ELSE 0 IN
       IF k = 0 THEN [i |-> i+1, acc |-> q.acc \o C[i]] ELSE [i |-> i + Len(SUBS[k]), acc |-> q.acc \o SUBR[k]]
SubAll(C) == Fold(LAMBDA q, i : SubStep(C, q, i), [i |-> 1, acc |-> ""], [i \in DOMAIN C |-> i]).acc
Substitute(s) == LET C == Chars(s) IN
                 IF \E i \in DOMAIN C : C[i] \in SubFirst THEN SubAll(C) ELSE s

TEXTK == {"Name", "Number", "True", "False", "LPar", "RPar", "LAngle", "RAngle", "Ampersand", "Arrow", "Asterisk",
   "Colon", "Comma", "Dot", "DoubleAsterisk", "DoubleColon", "Equals", "ExclamationMark", "QuestionMark",
   "QuestionMarkDoubleColon", "Underscore", "RawText", "Ellipsis", "QuoteS", "QuoteD", "Bar"}
TokText(tok) == CASE tok.k = "Ellipsis" -> "…"
                  [] tok.k = "Bar" -> CODES["8288"]
                  [] tok.k = "QuoteS" -> IF tok.d = "L" THEN "‘" ELSE "’"
                  [] tok.k = "QuoteD" -> IF tok.d = "L" THEN "“" ELSE "”"
                  [] OTHER -> tok.s

HexVal == [c \in HEX |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
   [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9 [] c \in {"a","A"} -> 10
   [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12 [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] OTHER -> 15]
\* a hexadecimal number, saturating at 2^24 or so
RECURSIVE HexNum(_, _, _)
HexNum(s, i, acc) == IF i > Len(s) THEN acc
                     ELSE HexNum(s, i+1, IF acc > 16777215 THEN acc ELSE acc*16 + HexVal[SubSeq(s, i, i)])
REPL == CODES["65533"]
ValidCode(n) == n <= 1114111 /\ ~(n >= 55296 /\ n <= 57343)
\* U+0000 has no TLA+ character here; the generators avoid it
CodeChar(n) == IF ToString(n) \in DOMAIN CODES THEN CODES[ToString(n)] ELSE "?"

\* Ok(P, char)
Unescape(P, tok) ==
  LET c == IF Len(tok.s) < 2 THEN "" ELSE SubSeq(tok.s, 2, 2) IN
  IF c \in {"x", "u", "U"} THEN
     IF Len(tok.s) = 2 THEN Ok(P, REPL)       \* malformed: the lexer has reported it
     ELSE LET n == HexNum(SubSeq(tok.s, 3, Len(tok.s)), 1, 0) IN
          IF ValidCode(n) THEN Ok(P, CodeChar(n)) ELSE Ok(Rep(P, "TokenInvalidEscape", tok.a), REPL)
  ELSE IF c = "n" THEN Ok(P, "\n") ELSE IF c = "t" THEN Ok(P, "\t")
  ELSE IF c = "" THEN Ok(P, REPL)             \* backslash before a line end: reported by the lexer
  ELSE Ok(P, c)

AllIn(s, i, S) == \A j \in i..Len(s) : SubSeq(s, j, j) \in S
Entity(P, tok) ==
  LET last == SubSeq(tok.s, Len(tok.s), Len(tok.s))
      body == SubSeq(tok.s, 2, Len(tok.s) - 1)
      bad == Ok(Rep(P, "TokenInvalidEntity", tok.a), REPL)
  IN  IF last # ";" THEN bad
      ELSE IF body \in DOMAIN ENTS THEN Ok(P, ENTS[body])
      ELSE IF Len(body) >= 2 /\ SubSeq(body, 1, 1) = "#" THEN
           IF SubSeq(body, 2, 2) \in {"x", "X"} THEN
              IF Len(body) > 2 /\ Len(body) < 9 /\ AllIn(body, 3, HEX)
              THEN LET n == HexNum(body, 3, 0) IN IF ValidCode(n) THEN Ok(P, CodeChar(n)) ELSE bad
              ELSE bad
           ELSE IF Len(body) < 9 /\ AllIn(body, 2, DOMAIN DigitOf)
                THEN LET n == SmallNat(body, 2, Len(body), 0) IN IF ValidCode(n) THEN Ok(P, CodeChar(n)) ELSE bad
                ELSE bad
      ELSE bad

\* <<P, text>>: the text of this run of tokens
TextRun(P, acc) ==
  LET Step(q) == LET k == Peek(q.p) IN
        IF k # "LAngle" /\ k \in TEXTK THEN [q EXCEPT !.p = Adv(@), !.s = @ \o TokText(Tok(q.p))] ELSE [q EXCEPT !.done = TRUE]
      z == Iter(Step, [done |-> FALSE, p |-> P, s |-> acc], Len(P.T) - P.i + 1)
  IN  <<z.p, z.s>>

TrimTicks(s) == LET RECURSIVE F(_)
                    F(i) == IF i <= Len(s) /\ SubSeq(s, i, i) = "`" THEN F(i+1) ELSE i
                    a == F(1)
                    RECURSIVE B(_)
                    B(j) == IF j >= a /\ SubSeq(s, j, j) = "`" THEN B(j-1) ELSE j
                IN  SubSeq(s, a, B(Len(s)))

--------------------------------------------------------------------------
NodeIsWs(n) == n.t \in {"ws", "para"} \/ (n.t = "char" /\ n.s \in {" ", "\t", "\n", "\r", "\f"})
RECURSIVE TrimWs(_)
TrimWs(ns) == IF ns # <<>> /\ NodeIsWs(ns[Len(ns)]) THEN TrimWs(SubSeq(ns, 1, Len(ns)-1)) ELSE ns

IsLiteral(e) == e.t \in {"unit", "bool", "int", "bare", "verb"}
StartsTag(P) == Peek(P) \in {"Name", "VarName", "ExclamationMark"}

\* the names bound by a pattern, in order of first occurrence
AddName(ns, x) == IF \E i \in DOMAIN ns : ns[i] = x THEN ns ELSE Append(ns, x)
RECURSIVE AddNames(_, _)
AddNames(ns, xs) == IF xs = <<>> THEN ns ELSE AddNames(AddName(ns, xs[1]), Tail(xs))
RECURSIVE PatNames(_, _)
RECURSIVE PatNamesAll(_, _)
PatNamesAll(ps, out) == IF ps = <<>> THEN out ELSE PatNamesAll(Tail(ps), PatNames(ps[1], out))
PatNames(p, out) ==
  CASE p.t \in {"pvar", "ptypeof"} -> AddName(out, p.x)
    [] p.t = "pand" -> PatNames(p.b, PatNames(p.a, out))
    [] p.t = "por" -> AddNames(out, p.xs)
    [] p.t = "pregex" -> AddNames(out, p.xs)
    [] p.t = "ptag" -> PatNames(p.c, PatNames(p.at, PatNames(p.n, out)))
    [] p.t \in {"plist", "phtml"} -> PatNamesAll(p.ps, out)
    [] p.t = "pdict" -> LET o == PatNamesAll(p.ps, out) IN IF p.sp THEN PatNames(p.rest, o) ELSE o
    [] OTHER -> out
RECURSIVE CanMatchHTML(_)
CanMatchHTML(p) == CASE p.t \in {"pand", "por"} -> CanMatchHTML(p.a) /\ CanMatchHTML(p.b)
                     [] p.t = "peq" -> p.e.t \notin {"bool", "int", "list"}
                     [] p.t \in {"plist", "pdict"} -> FALSE
                     [] OTHER -> TRUE

IndexOf(xs, x) == LET H == {i \in DOMAIN xs : xs[i] = x} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : i <= j

--------------------------------------------------------------------------
(* names: $x, $x::a, $x::0, with ?:: coalescing *)
ParseNumber(P, tok) == LET n == IParse(tok.s) IN
  IF n.ok THEN Ok(P, n.v) ELSE FailK(P, "TokenInvalidNumber", tok.a)

RECURSIVE NameTail(_, _)
NameTail(P, nm) ==
  IF Peek(P) \notin {"DoubleColon", "QuestionMarkDoubleColon"} THEN Ok(P, nm)
  ELSE LET q == Peek(P) = "QuestionMarkDoubleColon"  p1 == Adv(P) IN
       IF Peek(p1) = "Number" THEN
          LET n == ParseNumber(Adv(p1), Tok(p1)) IN
          IF ~n.ok THEN n
          ELSE NameTail(n.p, [t |-> "idx", o |-> nm, q |-> q, n |-> n.v, r |-> nm.r])
       ELSE LET a == WantK(p1, "Name") IN
            IF ~a.ok THEN a
            ELSE NameTail(a.p, [t |-> "attr", o |-> nm, q |-> q, x |-> a.v.s, r |-> nm.r])
\* tok has been polled
ParseName(P, tok) == NameTail(P, [t |-> "var", x |-> Tail1(tok.s), r |-> R(P, tok)])
RECURSIVE Coalesces(_)
Coalesces(n) == IF n.t = "var" THEN FALSE ELSE n.q \/ Coalesces(n.o)

NamePattern(P, tok) == LET n == ParseName(P, tok) IN
  IF ~n.ok THEN n
  ELSE IF n.v.t = "var" THEN Ok(n.p, [t |-> "pvar", x |-> n.v.x, r |-> n.v.r])
  ELSE FailK(n.p, IF n.v.t = "attr" THEN "PatternAttrAccess" ELSE "PatternIndexAccess", n.v.r[2])

(* type annotations *)
RECURSIVE TypeTail(_, _, _)
TypeTail(P, t, begin) ==
  LET p1 == Skip(P) IN
  IF Peek(p1) \notin {"Name", "QuestionMark"} THEN Ok(p1, t)
  ELSE LET tok == Tok(p1)  p2 == Adv(p1) IN
       IF tok.s = "list" THEN TypeTail(p2, TyList(t), begin)
       ELSE IF tok.s = "dict" THEN TypeTail(p2, TyDict(t), begin)
       ELSE IF tok.s = "?" THEN
            IF UnitOK(t) THEN TypeTail(Rep(p2, "RedundantOptionType", tok.a), t, begin)
            ELSE TypeTail(p2, TyOpt(t), begin)
       ELSE TypeTail(Rep(p2, "TokenInvalidGroupType", begin.a), t, begin)
\* v: [ty, r]
ParseType(P) ==
  LET b == WantK(Skip(P), "Name") IN
  IF ~b.ok THEN b
  ELSE LET s == b.v.s
           p1 == IF s \in BaseTypes \cup {"list", "dict"} THEN b.p ELSE Rep(b.p, "TokenInvalidPrimitiveType", b.v.a)
           t0 == IF s = "list" THEN TyList(Ty("any")) ELSE IF s = "dict" THEN TyDict(Ty("any"))
                 ELSE IF s \in BaseTypes THEN Ty(s) ELSE Ty("any")
           r == TypeTail(p1, t0, b.v)
       IN  Ok(r.p, [ty |-> r.v, r |-> R(P, b.v)])

\* * and ** before an argument, parameter or pattern.  v: [k "no"|"pos"|"named", at position or -1]
Spread(P, pos, named) ==
  IF Peek(P) \notin {"Asterisk", "DoubleAsterisk"} THEN Ok(P, [k |-> "no", at |-> -1])
  ELSE LET tok == Tok(P)  p1 == Adv(P) IN
       IF tok.k = "Asterisk" /\ pos THEN Ok(p1, [k |-> "pos", at |-> tok.a])
       ELSE IF tok.k = "DoubleAsterisk" /\ named THEN Ok(p1, [k |-> "named", at |-> tok.a])
       ELSE Ok(Rep(p1, IF tok.k = "Asterisk" THEN "SpreadPositionalNotAllowed" ELSE "SpreadNamedNotAllowed", tok.a),
               [k |-> "no", at |-> tok.a])

--------------------------------------------------------------------------
(* string templates: parts [lit s] [name n] [ws] *)
TplUnmatched(P, stack) == Fold(LAMBDA Q, at : Rep(Q, "TokenUnmatched", at), P, stack)
\* q: [done, ok, p, parts, st positions of the open braces]
TplStep(q, open) ==
  LET w == Want(q.p) IN
  IF ~w.ok THEN [q EXCEPT !.done = TRUE, !.ok = FALSE, !.p = Rep(w.p, "TokenUnmatched", open.a)]
  ELSE LET tok == w.v  p1 == w.p
           Lit(u) == [q EXCEPT !.p = u.p, !.parts = Append(@, [t |-> "lit", s |-> u.v])]
       IN
  CASE tok.k = open.k -> [q EXCEPT !.done = TRUE, !.p = TplUnmatched(p1, q.st)]
    [] tok.k \in {"Newline", "VerbS", "VerbM"} -> [q EXCEPT !.p = Rep(p1, "TokenUnexpected", tok.a)]
    [] tok.k = "LBrace" -> [q EXCEPT !.p = Skip(p1), !.st = Append(@, tok.a)]
    [] tok.k = "RBrace" ->
         IF q.st = <<>> THEN [q EXCEPT !.p = Rep(p1, "TokenUnexpected", tok.a)]
         ELSE [q EXCEPT !.p = p1, !.st = SubSeq(@, 1, Len(@)-1),
                        !.parts = IF @ # <<>> /\ @[Len(@)].t = "ws" THEN SubSeq(@, 1, Len(@)-1) ELSE @]
    [] tok.k = "VarName" ->
         LET n == ParseName(p1, tok) IN [q EXCEPT !.p = n.p, !.parts = IF n.ok THEN Append(@, [t |-> "name", n |-> n.v]) ELSE @]
    [] tok.k = "Escape" -> Lit(Unescape(p1, tok))
    [] tok.k = "Entity" -> Lit(Entity(p1, tok))
    [] tok.k = "Whitespace" -> [q EXCEPT !.p = p1, !.parts = Append(@, [t |-> "ws"])]
    [] OTHER -> Lit([p |-> p1, v |-> tok.s])
TplParts(P, open) ==
  LET z == Iter(LAMBDA q : TplStep(q, open), [done |-> FALSE, ok |-> TRUE, p |-> P, parts |-> <<>>, st |-> <<>>], Len(P.T) - P.i + 2)
  IN  IF z.ok THEN Ok(z.p, z.parts) ELSE Fail(z.p)

--------------------------------------------------------------------------
RECURSIVE ParseExprTok(_, _)
RECURSIVE ParseNode(_, _)
RECURSIVE ParseSep(_, _, _, _, _, _, _)
RECURSIVE MatchPattern(_)

ParseExpr(P) == LET w == Want(Skip(P)) IN IF ~w.ok THEN w ELSE ParseExprTok(w.p, w.v)

CloseMatches(tok, name) == tok.k = "CloseTag" /\
  (tok.s = "</>" \/ (name # "" /\ Low(SubSeq(tok.s, 3, Len(tok.s)-1)) = Low(name)))

\* how: [k "root" | "brace" | "tag", n tag name]; v: [ns, closed, c]
Closes(tok, how) == CASE how.k = "root" -> FALSE
                      [] how.k = "brace" -> tok.k = "RBrace"
                      [] OTHER -> CloseMatches(tok, how.n)
NodesStep(q, how) ==
  LET P == q.p IN
  IF Peek(P) = "EOF" THEN [q EXCEPT !.done = TRUE]
  ELSE LET tok == Tok(P)  p1 == Adv(P) IN
       IF Closes(tok, how) THEN [q EXCEPT !.done = TRUE, !.p = p1, !.closed = TRUE]
       ELSE LET n == ParseNode(p1, tok) IN [q EXCEPT !.p = n.p, !.ns = IF n.ok THEN Append(@, n.v) ELSE @]
NodesUntil(P, how) ==
  LET z == Iter(LAMBDA q : NodesStep(q, how), [done |-> FALSE, p |-> Skip(P), ns |-> <<>>, closed |-> FALSE], Len(P.T) - P.i + 2)
  IN  Ok(z.p, [ns |-> TrimWs(z.ns), closed |-> z.closed])

\* <<P, nodes>>: what follows `...`
EllipsisNodes(P) ==
  LET Step(q) == IF Peek(q.p) \in {"EOF", "CloseTag", "RBrace"} THEN [q EXCEPT !.done = TRUE]
                 ELSE LET n == ParseNode(Adv(q.p), Tok(q.p)) IN [q EXCEPT !.p = n.p, !.ns = IF n.ok THEN Append(@, n.v) ELSE @]
      z == Iter(Step, [done |-> FALSE, p |-> P, ns |-> <<>>], Len(P.T) - P.i + 2)
  IN  <<z.p, z.ns>>
GroupOf(ns, r) == IF ns = <<>> THEN [t |-> "unit", r |-> r] ELSE [t |-> "group", ns |-> ns, r |-> r]
ExprOrEllipsis(P) ==
  LET p1 == Skip(P) IN
  IF Peek(p1) = "Ellipsis" THEN LET g == EllipsisNodes(Adv(p1)) IN Ok(g[1], GroupOf(g[2], R(p1, Tok(p1))))
  ELSE ParseExpr(p1)

\* one argument: [sp, x ("" = unnamed), e, r]
ParseArg(P) ==
  LET s == Spread(Skip(P), TRUE, TRUE)  p1 == Skip(s.p)
      Rg(a) == <<P.f, IF s.v.at >= 0 THEN s.v.at ELSE a>>
  IN  IF Peek(p1) # "Name" THEN
         LET e == ParseExpr(p1) IN
         IF ~e.ok THEN e ELSE Ok(e.p, [sp |-> s.v.k, x |-> "", e |-> e.v, r |-> Rg(e.v.r[2])])
      ELSE LET nt == Tok(p1)  p2 == Skip(Adv(p1)) IN
           IF Peek(p2) = "Equals" THEN
              LET p3 == IF s.v.at >= 0 THEN Rep(Adv(p2), "ArgSpreadNamed", s.v.at) ELSE Adv(p2)
                  e == ParseExpr(p3)
              IN  IF ~e.ok THEN e ELSE Ok(e.p, [sp |-> "no", x |-> nt.s, e |-> e.v, r |-> Rg(nt.a)])
           ELSE Ok(p2, [sp |-> s.v.k, x |-> "", e |-> [t |-> "bare", s |-> nt.s, r |-> R(P, nt)], r |-> Rg(nt.a)])
ArgPositional(a) == a.x = "" /\ a.sp # "named"

RECURSIVE ArgChecks(_, _, _, _)
ArgChecks(P, as, used, named) ==
  IF as = <<>> THEN P
  ELSE LET a == as[1] IN
       IF a.x # "" THEN ArgChecks(IF a.x \in used THEN RepR(P, "ArgDuplicateName", a.r) ELSE P, Tail(as), used \cup {a.x}, TRUE)
       ELSE IF a.sp = "named" THEN ArgChecks(P, Tail(as), used, TRUE)
       ELSE ArgChecks(IF named THEN RepR(P, "ArgPositionalAfterNamed", a.r) ELSE P, Tail(as), used, named)
ParseArgs(P) ==
  LET p1 == Skip(P) IN
  IF Peek(p1) # "LPar" THEN Ok(p1, <<>>)
  ELSE LET s == ParseSep(Adv(p1), Tok(p1), "arg", "Comma", "RPar", <<>>, FALSE) IN
       IF ~s.ok THEN s ELSE Ok(ArgChecks(s.p, s.v.ks, {}, FALSE), s.v.ks)

\* list element: [e, sp]
ParseListItem(P) ==
  LET a == ParseArg(P) IN
  IF ~a.ok THEN a
  ELSE Ok(IF a.v.sp = "named" THEN RepR(a.p, "SpreadNamedNotAllowed", a.v.r)
          ELSE IF ~ArgPositional(a.v) THEN RepR(a.p, "ArgNamedNotAllowed", a.v.r) ELSE a.p,
          [e |-> a.v.e, sp |-> a.v.sp = "pos"])

\* named declarations of let / implicit / export: sequence of [x, e]
RECURSIVE DeclLoop(_, _, _)
DeclLoop(P, as, out) ==
  IF as = <<>> THEN Ok(P, out)
  ELSE LET a == as[1] IN
       IF a.sp # "no" THEN DeclLoop(RepR(P, IF ArgPositional(a) THEN "SpreadPositionalNotAllowed" ELSE "SpreadNamedNotAllowed", a.r), Tail(as), out)
       ELSE IF a.x = "" THEN DeclLoop(RepR(P, "DeclPositionalArg", a.r), Tail(as), out)
       ELSE DeclLoop(P, Tail(as), Append(out, [x |-> a.x, e |-> a.e]))
Decls(P, at) == LET a == ParseArgs(P) IN
  IF ~a.ok THEN a ELSE IF a.v = <<>> THEN FailK(a.p, "DeclMissingArgs", at.a) ELSE DeclLoop(a.p, a.v, <<>>)

LetIn(P, at, exported) ==
  LET v == Decls(P, at) IN
  IF ~v.ok THEN v
  ELSE LET c == ExprOrEllipsis(v.p) IN
       IF ~c.ok THEN c
       ELSE Ok(IF IsLiteral(c.v) /\ ~exported THEN RepR(c.p, "LetInLiteral", c.v.r) ELSE c.p,
               [t |-> "let", imp |-> at.k = "KwImplicit", vs |-> v.v, c |-> c.v, r |-> R(P, at)])

--------------------------------------------------------------------------
(* function definitions *)
\* parameter: v [pa |-> [x, q, imp, ty, hasd, de, r], sp, us]
ParseParam(P) ==
  LET s == Spread(Skip(P), TRUE, TRUE)
      nt == WantK(Skip(s.p), "VarName")
  IN  IF ~nt.ok THEN nt
      ELSE LET p1 == Skip(nt.p)
               q == Peek(p1) = "QuestionMark"
               p2 == Skip(IF q THEN Adv(p1) ELSE p1)
               colon == Peek(p2) = "Colon"
               p3 == IF colon THEN Skip(Adv(p2)) ELSE p2
               imp == colon /\ Peek(p3) = "KwImplicit"
               ty == IF colon THEN ParseType(IF imp THEN Adv(p3) ELSE p3) ELSE Ok(p3, [ty |-> Ty("any"), r |-> 0])
               p4 == Skip(ty.p)
               d == Peek(p4) = "Equals"
               e == IF d THEN ParseExpr(Adv(p4)) ELSE Ok(p4, [t |-> "unit"])
           IN  IF ~e.ok THEN e
               ELSE Ok(IF d /\ s.v.k # "no" THEN RepR(e.p, "ParamSpreadDefault", e.v.r) ELSE e.p,
                       [pa |-> [x |-> Tail1(nt.v.s), q |-> q, imp |-> imp, ty |-> IF ty.ok THEN ty.v.ty ELSE Ty("any"),
                                hasd |-> d, de |-> e.v,
                                r |-> <<P.f, IF s.v.at >= 0 THEN s.v.at ELSE nt.v.a>>],
                        sp |-> s.v.k, us |-> SubSeq(nt.v.s, 2, 2) = "_"])

SigInit == [pc |-> 0, ps |-> FALSE, nc |-> 0, ns |-> FALSE, anyN |-> FALSE, used |-> {}, anyO |-> FALSE, anyON |-> FALSE, out |-> <<>>]
RECURSIVE SigLoop(_, _, _)
SigLoop(P, raw, g) ==
  IF raw = <<>> THEN Ok(P, g)
  ELSE LET a == raw[1].pa  sp == raw[1].sp  us == raw[1].us
           spread == sp # "no"
           req == ~spread /\ ~a.q /\ ~a.hasd
           pos == IF spread THEN sp = "pos" ELSE us
           err == IF a.x \in g.used THEN "ParamDuplicateName"
                  ELSE IF pos /\ g.anyN THEN "ParamPositionalAfterNamed"
                  ELSE IF req /\ (IF pos THEN g.anyO ELSE g.anyON) THEN "ParamRequiredAfterOptional"
                  ELSE IF pos /\ a.imp THEN "ParamPositionalImplicit"
                  ELSE IF spread /\ a.imp THEN "ParamSpreadImplicit"
                  ELSE IF a.imp /\ a.hasd THEN "ParamDefaultImplicit"
                  ELSE IF (pos /\ g.ps) \/ (~pos /\ g.ns) THEN (IF spread THEN "ParamMultipleSpread" ELSE "ParamAfterSpread")
                  ELSE ""
           p1 == IF err = "" THEN P ELSE RepR(P, err, a.r)
           g1 == [g EXCEPT !.used = @ \cup {a.x}, !.out = Append(@, a)]
       IN  CASE ~pos /\ ~spread -> SigLoop(p1, Tail(raw), [g1 EXCEPT !.nc = @ + 1, !.anyN = TRUE, !.anyON = @ \/ ~req])
             [] pos /\ ~spread -> SigLoop(p1, Tail(raw), [g1 EXCEPT !.pc = @ + 1, !.anyO = @ \/ ~req])
             [] ~pos /\ spread -> SigLoop(IF us THEN RepR(p1, "ParamNamedSpreadUnderscore", a.r) ELSE p1, Tail(raw),
                                          [g1 EXCEPT !.anyN = TRUE, !.ns = TRUE])
             [] OTHER -> SigLoop(IF ~us THEN RepR(p1, "ParamPositionalSpreadNoUnderscore", a.r) ELSE p1, Tail(raw),
                                 [g1 EXCEPT !.ps = TRUE])

\* signature: [ps params, pc, psp, nc, nsp, hasc, r]
Signature(P) ==
  LET p0 == Skip(P)
      lp == Peek(p0) = "LPar"
      raw == IF lp THEN ParseSep(Adv(p0), Tok(p0), "param", "Comma", "RPar", <<>>, FALSE) ELSE Ok(p0, [ks |-> <<>>])
  IN  IF ~raw.ok THEN raw
      ELSE LET g == SigLoop(raw.p, raw.v.ks, SigInit)
               p1 == Skip(g.p)
               Sig(ps, hc, a) == [ps |-> ps, pc |-> g.v.pc, psp |-> g.v.ps, nc |-> g.v.nc, nsp |-> g.v.ns, hasc |-> hc,
                                  r |-> IF lp THEN R(P, Tok(p0)) ELSE a]
           IN  IF Peek(p1) = "Dot" THEN Ok(Adv(p1), Sig(g.v.out, FALSE, R(P, Tok(p1))))
               ELSE LET c == ParseParam(p1) IN
                    IF ~c.ok THEN c
                    ELSE Ok(IF c.v.sp # "no" THEN RepR(c.p, "ParamContentSpread", c.v.pa.r)
                            ELSE IF c.v.pa.hasd THEN RepR(c.p, "ParamContentDefault", c.v.pa.de.r) ELSE c.p,
                            Sig(Append(g.v.out, c.v.pa), TRUE, c.v.pa.r))

FuncDef(P, at, anon) ==
  LET p0 == Skip(P)
      named == Peek(p0) = "Name"
      nm == IF named THEN Tok(p0).s ELSE ""
      s == Signature(IF named THEN Adv(p0) ELSE p0)
  IN  IF ~s.ok THEN s
      ELSE LET ar == WantK(Skip(s.p), "Arrow") IN
           IF ~ar.ok THEN ar
           ELSE LET b == ParseExpr(ar.p) IN
                IF ~b.ok THEN b
                ELSE IF nm = "" /\ ~anon THEN FailK(b.p, "AnonymousFunctionNotAllowed", at.a)
                ELSE Ok(b.p, [t |-> "fn", x |-> nm, sig |-> s.v, b |-> b.v, r |-> R(P, at)])

FuncCall(P, at) ==
  LET n == ParseName(P, at) IN
  IF ~n.ok THEN n
  ELSE LET a == ParseArgs(n.p) IN
       IF ~a.ok THEN a
       ELSE LET c == ExprOrEllipsis(a.p) IN
            IF ~c.ok THEN c
            ELSE Ok(c.p, [t |-> "call", fn |-> n.v, as |-> a.v, c |-> c.v, r |-> n.v.r])

Export(P, at) ==
  LET p1 == Skip(P) IN
  IF Peek(p1) = "KwFn" THEN
     LET f == FuncDef(Adv(p1), Tok(p1), FALSE) IN
     IF ~f.ok THEN f ELSE Ok(f.p, [t |-> "export", k |-> "fn", e |-> f.v, vs |-> <<>>, r |-> R(P, at)])
  ELSE IF Peek(p1) = "KwLet" THEN
     LET l == LetIn(Adv(p1), Tok(p1), TRUE) IN
     IF ~l.ok THEN l ELSE Ok(l.p, [t |-> "export", k |-> "let", e |-> l.v, vs |-> <<>>, r |-> R(P, at)])
  ELSE LET v == Decls(p1, at) IN
       IF ~v.ok THEN v
       ELSE LET d == WantK(Skip(v.p), "Dot") IN
            IF ~d.ok THEN d
            ELSE Ok(d.p, [t |-> "export", k |-> "names", e |-> [t |-> "unit"], vs |-> v.v, r |-> R(P, at)])

--------------------------------------------------------------------------
(* tags *)
ParseTagAttr(P) ==
  LET s == Spread(Skip(P), FALSE, TRUE) IN
  IF s.v.k # "no" THEN LET e == ParseExpr(s.p) IN
       IF ~e.ok THEN e ELSE Ok(e.p, [k |-> "spread", e |-> e.v, r |-> e.v.r])
  ELSE LET nt == WantK(Skip(s.p), "Name") IN
       IF ~nt.ok THEN nt
       ELSE LET p1 == Skip(nt.p)
                q == Peek(p1) = "QuestionMark"
                p2 == Skip(IF q THEN Adv(p1) ELSE p1)
            IN  IF Peek(p2) # "Equals" THEN
                   IF q THEN FailK(p2, "TokenExpected", Tok(p1).a)
                   ELSE Ok(p2, [k |-> "flag", x |-> nt.v.s, r |-> R(P, nt.v)])
                ELSE LET e == ParseExpr(Adv(p2)) IN
                     IF ~e.ok THEN e
                     ELSE Ok(e.p, [k |-> "val", x |-> nt.v.s, q |-> q, e |-> e.v, r |-> R(P, nt.v)])

RECURSIVE DupAttrs(_, _, _)
DupAttrs(P, as, used) ==
  IF as = <<>> THEN P
  ELSE IF as[1].k = "spread" THEN DupAttrs(P, Tail(as), used)
  ELSE DupAttrs(IF as[1].x \in used THEN RepR(P, "TagDuplicateAttr", as[1].r) ELSE P, Tail(as), used \cup {as[1].x})

ParseTag(P, la) ==
  LET w == Want(P)
      nt == w.v
      nm == IF nt.k = "VarName" THEN ParseName(w.p, nt)
            ELSE IF nt.k = "Name" THEN Ok(w.p, 0)
            ELSE LET dt == Want(w.p) IN
                 IF ~dt.ok THEN dt
                 ELSE IF Low(dt.v.s) # "doctype" THEN FailK(dt.p, "TokenExpectedDoctype", dt.v.a) ELSE dt
      name == IF nt.k = "VarName" THEN "" ELSE IF nt.k = "Name" THEN Low(nt.s) ELSE "!DOCTYPE"
  IN  IF ~nm.ok THEN nm
      ELSE LET s == ParseSep(nm.p, la, "attr", "Whitespace", "RAngle", <<>>, FALSE) IN
           IF ~s.ok THEN s
           ELSE LET p1 == DupAttrs(s.p, s.v.ks, {})
                    Node(cs) == [t |-> "tag", var |-> nt.k = "VarName", x |-> name, n |-> nm.v, as |-> s.v.ks, cs |-> cs, r |-> R(P, la)]
                IN  IF s.v.c.s = "/>" \/ name \in SELF_CLOSING THEN Ok(p1, Node(<<>>))
                    ELSE LET c == NodesUntil(p1, [k |-> "tag", n |-> name]) IN
                         IF ~c.v.closed THEN FailK(c.p, "TagUnmatchedOpen", la.a)
                         ELSE Ok(c.p, Node(c.v.ns))

--------------------------------------------------------------------------
(* match expressions and patterns *)
MatchExpr(P, at) ==
  LET v == ParseExpr(P) IN
  IF ~v.ok THEN v
  ELSE LET o == WantK(Skip(v.p), "LBrace") IN
       IF ~o.ok THEN o
       ELSE LET s == ParseSep(o.p, o.v, "branch", "Comma", "RBrace", <<>>, FALSE) IN
            IF ~s.ok THEN s ELSE Ok(s.p, [t |-> "match", e |-> v.v, bs |-> s.v.ks, r |-> R(P, at)])
Branch(P) ==
  LET p == MatchPattern(P) IN
  IF ~p.ok THEN p
  ELSE LET a == WantK(Skip(p.p), "Arrow") IN
       IF ~a.ok THEN a
       ELSE LET e == ParseExpr(a.p) IN IF ~e.ok THEN e ELSE Ok(e.p, [p |-> p.v, e |-> e.v])

OptTyped(P, pat) ==
  LET p1 == Skip(P) IN
  IF Peek(p1) # "Colon" THEN Ok(p1, pat)
  ELSE LET p2 == Skip(Adv(p1))
           tp == IF Peek(p2) = "VarName"
                 THEN LET n == NamePattern(Adv(p2), Tok(p2)) IN
                      IF ~n.ok THEN n ELSE Ok(n.p, [t |-> "ptypeof", x |-> n.v.x, r |-> n.v.r])
                 ELSE LET t == ParseType(p2) IN
                      IF ~t.ok THEN t ELSE Ok(t.p, [t |-> "ptype", ty |-> t.v.ty, r |-> t.v.r])
       IN  IF ~tp.ok THEN tp
           ELSE IF pat.t = "pany" THEN tp
           ELSE Ok(tp.p, [t |-> "pand", a |-> tp.v, b |-> pat, r |-> tp.v.r])

\* [sp, p] / named: [k "one"|"spread", x, p]
PosPattern(P) ==
  LET p1 == Skip(P) IN
  IF Peek(p1) = "Ellipsis" THEN Ok(Adv(p1), [sp |-> TRUE, p |-> [t |-> "pany", r |-> R(p1, Tok(p1))]])
  ELSE LET s == Spread(p1, TRUE, FALSE)  m == MatchPattern(s.p) IN
       IF ~m.ok THEN m ELSE Ok(m.p, [sp |-> s.v.k # "no", p |-> m.v])
NamedPattern(P, lone) ==
  LET p1 == Skip(P) IN
  IF Peek(p1) = "Ellipsis" THEN Ok(Adv(p1), [k |-> "spread", x |-> "", p |-> [t |-> "pany", r |-> R(p1, Tok(p1))]])
  ELSE LET s == Spread(p1, FALSE, TRUE) IN
       IF s.v.k # "no" THEN LET m == MatchPattern(s.p) IN
            IF ~m.ok THEN m ELSE Ok(m.p, [k |-> "spread", x |-> "", p |-> m.v])
       ELSE LET nt == WantK(s.p, "Name") IN
            IF ~nt.ok THEN nt
            ELSE LET p2 == Skip(IF SubSeq(nt.v.s, 1, 1) = "_" THEN Rep(nt.p, "PatternNamedUnderscore", nt.v.a) ELSE nt.p)
                     eq == IF lone /\ Peek(p2) # "Equals" THEN Fail(p2) ELSE WantK(p2, "Equals")
                     m == IF eq.ok THEN MatchPattern(eq.p) ELSE Ok(eq.p, [t |-> "pnone", r |-> R(P, nt.v)])
                 IN  IF ~m.ok THEN m ELSE Ok(m.p, [k |-> "one", x |-> nt.v.s, p |-> m.v])

RECURSIVE SpreadsLoop(_, _, _, _)
SpreadsLoop(P, ks, i, at) == IF i > Len(ks) THEN <<P, at>>
  ELSE IF ~ks[i].sp THEN SpreadsLoop(P, ks, i+1, at)
  ELSE SpreadsLoop(IF at > 0 THEN RepR(P, "PatternMultipleSpreads", ks[i].p.r) ELSE P, ks, i+1, i)
RECURSIVE HtmlKids(_, _, _)
HtmlKids(P, ps, i) == IF i > Len(ps) THEN P
  ELSE HtmlKids(IF CanMatchHTML(ps[i]) THEN P ELSE RepR(P, "PatternCannotMatchHTML", ps[i].r), ps, i+1)
SeqPattern(P, open) ==
  LET islist == open.k = "LSqb"
      s == ParseSep(P, open, "ppat", IF islist THEN "Comma" ELSE "Whitespace", IF islist THEN "RSqb" ELSE "RBrace", <<>>, FALSE)
  IN  IF ~s.ok THEN s
      ELSE LET l == SpreadsLoop(s.p, s.v.ks, 1, 0)
               ps == [i \in DOMAIN s.v.ks |-> s.v.ks[i].p]
               r == R(P, open)
           IN  IF islist THEN Ok(l[1], [t |-> "plist", ps |-> ps, at |-> l[2], r |-> r])
               ELSE Ok(HtmlKids(l[1], ps, 1),
                       IF l[2] = 0 /\ ps = <<>> THEN [t |-> "pnone", r |-> r]
                       ELSE [t |-> "phtml", ps |-> ps, at |-> l[2], r |-> r])

\* g: [xs, ps, sp, rest]
RECURSIVE DictPatLoop(_, _, _)
DictPatLoop(P, parts, g) ==
  IF parts = <<>> THEN Ok(P, g)
  ELSE LET a == parts[1] IN
       IF a.k = "one" THEN
          IF g.sp THEN DictPatLoop(RepR(P, "PatternNamedAfterSpread", a.p.r), Tail(parts), g)
          ELSE LET i == IndexOf(g.xs, a.x) IN
               IF i > 0 THEN DictPatLoop(RepR(P, "PatternDuplicateName", a.p.r), Tail(parts), [g EXCEPT !.ps[i] = a.p])
               ELSE DictPatLoop(P, Tail(parts), [g EXCEPT !.xs = Append(@, a.x), !.ps = Append(@, a.p)])
       ELSE DictPatLoop(IF g.sp THEN RepR(P, "ParamMultipleSpread", a.p.r) ELSE P, Tail(parts), [g EXCEPT !.sp = TRUE, !.rest = a.p])
DictPattern(P, parts, r, simplify) ==
  LET g == DictPatLoop(P, parts, [xs |-> <<>>, ps |-> <<>>, sp |-> FALSE, rest |-> [t |-> "pany", r |-> r]]) IN
  IF simplify /\ g.v.xs = <<>> /\ g.v.sp THEN Ok(g.p, g.v.rest)
  ELSE Ok(g.p, [t |-> "pdict", xs |-> g.v.xs, ps |-> g.v.ps, sp |-> g.v.sp, rest |-> g.v.rest, r |-> r])

TagPattern(P, la) ==
  LET w == Want(P) IN
  IF ~w.ok THEN w
  ELSE IF w.v.k \notin {"Underscore", "Name", "VarName"} THEN FailK(w.p, "TokenUnexpected", w.v.a)
  ELSE LET nt == w.v
           n == IF nt.k = "Underscore" THEN Ok(w.p, [t |-> "pany", r |-> R(P, nt)])
                ELSE IF nt.k = "Name" THEN Ok(w.p, [t |-> "plit", s |-> Low(nt.s), r |-> R(P, nt)])
                ELSE NamePattern(w.p, nt)
           name == IF nt.k = "Name" THEN Low(nt.s) ELSE ""
       IN  IF ~n.ok THEN n
       ELSE LET s == ParseSep(n.p, la, "tpat", "Whitespace", "RAngle", <<>>, FALSE) IN
            IF ~s.ok THEN s
            ELSE LET a == DictPattern(s.p, s.v.ks, R(P, la), TRUE)
                     selfc == s.v.c.s = "/>" \/ name \in SELF_CLOSING
                     p1 == Skip(a.p)
                     c == IF selfc THEN Ok(p1, [c |-> [t |-> "pnone", r |-> R(P, s.v.c)], k |-> s.v.c])
                          ELSE IF Peek(p1) = "CloseTag" THEN Ok(Adv(p1), [c |-> [t |-> "pnone", r |-> R(P, Tok(p1))], k |-> Tok(p1)])
                          ELSE LET m == MatchPattern(p1) IN
                               IF ~m.ok THEN m
                               ELSE LET ct == WantK(Skip(m.p), "CloseTag") IN
                                    IF ~ct.ok THEN ct ELSE Ok(ct.p, [c |-> m.v, k |-> ct.v])
                 IN  IF ~c.ok THEN c
                     ELSE Ok(IF c.v.k.k = "CloseTag" /\ ~CloseMatches(c.v.k, name)
                             THEN Rep(c.p, "PatternIncorrectCloseTag", c.v.k.a) ELSE c.p,
                             [t |-> "ptag", n |-> n.v, at |-> a.v, c |-> c.v.c, r |-> R(P, la)])

\* the parts of a template pattern as a regex: [rx parts: lit s | ws | cap], xs names
RECURSIVE TplPat(_, _, _, _, _)
TplPat(P, parts, rx, xs, rs) ==
  IF parts = <<>> THEN <<P, rx, xs, rs>>
  ELSE LET a == parts[1] IN
       CASE a.t = "lit" -> TplPat(P, Tail(parts), Append(rx, a), xs, rs)
         [] a.t = "ws" -> TplPat(P, Tail(parts), Append(rx, a), xs, rs)
         [] a.t = "name" /\ a.n.t = "var" -> TplPat(P, Tail(parts), Append(rx, [t |-> "cap"]), Append(xs, a.n.x), Append(rs, a.n.r))
         [] OTHER -> TplPat(RepR(P, IF a.n.t = "attr" THEN "PatternAttrAccess" ELSE "PatternIndexAccess", a.n.r), Tail(parts), rx, xs, rs)
TemplatePattern(P, open) ==
  LET t == TplParts(P, open) IN
  IF ~t.ok THEN t
  ELSE IF \A i \in DOMAIN t.v : t.v[i].t = "lit" THEN
       Ok(t.p, [t |-> "peq", e |-> [t |-> "tpl", ps |-> t.v, r |-> R(P, open)], r |-> R(P, open)])
  ELSE LET q == TplPat(t.p, t.v, <<>>, <<>>, <<>>) IN
       Ok(q[1], [t |-> "pregex", rx |-> q[2], xs |-> q[3], xr |-> q[4], r |-> R(P, open)])

EqPat(e) == IF ~e.ok THEN e ELSE Ok(e.p, [t |-> "peq", e |-> e.v, r |-> e.v.r])
PrimaryPattern(P) ==
  LET w == Want(Skip(P)) IN
  IF ~w.ok THEN w
  ELSE LET tok == w.v  k == tok.k  p1 == w.p IN
  CASE k = "Underscore" -> OptTyped(p1, [t |-> "pany", r |-> R(P, tok)])
    [] k = "VarName" -> LET n == NamePattern(p1, tok) IN IF ~n.ok THEN n ELSE OptTyped(n.p, n.v)
    [] k = "Dot" -> Ok(p1, [t |-> "pnone", r |-> R(P, tok)])
    [] k \in {"True", "False", "Number", "VerbS", "VerbM"} -> EqPat(ParseExprTok(p1, tok))
    [] k = "Equals" -> EqPat(ParseExpr(p1))
    [] k = "LAngle" -> TagPattern(p1, tok)
    [] k \in {"LSqb", "LBrace"} -> SeqPattern(p1, tok)
    [] k = "LPar" -> LET s == ParseSep(p1, tok, "dpat", "Comma", "RPar", <<>>, FALSE) IN
                     IF ~s.ok THEN s ELSE DictPattern(s.p, s.v.ks, R(P, tok), FALSE)
    [] k \in {"QuoteS", "QuoteD"} -> TemplatePattern(p1, tok)
    [] k = "Name" -> FailK(p1, "PatternBareName", tok.a)
    [] k = "Asterisk" -> FailK(p1, "SpreadPositionalNotAllowed", tok.a)
    [] k = "DoubleAsterisk" -> FailK(p1, "SpreadNamedNotAllowed", tok.a)
    [] k = "Ellipsis" -> FailK(p1, "SpreadWildcardNotAllowed", tok.a)
    [] OTHER -> FailK(p1, "TokenUnexpected", tok.a)

RECURSIVE AndTail(_)
AndTail(r) ==
  IF ~r.ok THEN r
  ELSE LET p1 == Skip(r.p) IN
       IF Peek(p1) # "Ampersand" THEN Ok(p1, r.v)
       ELSE LET q == PrimaryPattern(Adv(p1)) IN
            IF ~q.ok THEN q ELSE AndTail(Ok(q.p, [t |-> "pand", a |-> r.v, b |-> q.v, r |-> r.v.r]))
AndPattern(P) == AndTail(PrimaryPattern(P))
RECURSIVE OrTail(_)
OrTail(r) ==
  IF ~r.ok THEN r
  ELSE LET p1 == Skip(r.p) IN
       IF Peek(p1) # "Bar" THEN Ok(p1, r.v)
       ELSE LET q == AndPattern(Adv(p1)) IN
            IF ~q.ok THEN q
            ELSE OrTail(Ok(q.p, [t |-> "por", a |-> r.v, b |-> q.v, xs |-> PatNames(q.v, PatNames(r.v, <<>>)), r |-> r.v.r]))
MatchPattern(P) == OrTail(AndPattern(P))

--------------------------------------------------------------------------
ParseOp(op, P) == CASE op = "arg" -> ParseArg(P) [] op = "item" -> ParseListItem(P)
                    [] op = "param" -> ParseParam(P) [] op = "attr" -> ParseTagAttr(P)
                    [] op = "branch" -> Branch(P) [] op = "ppat" -> PosPattern(P)
                    [] op = "tpat" -> NamedPattern(P, TRUE) [] op = "dpat" -> NamedPattern(P, FALSE)

\* v: [ks children, c closing token]
ParseSep(P, open, op, sep, close, ks, expectEnd) ==
  LET p1 == Skip(P) IN
  IF Peek(p1) = close THEN Ok(Adv(p1), [ks |-> ks, c |-> Tok(p1)])
  ELSE LET p2 == IF expectEnd THEN WantK(p1, close).p ELSE p1
           r == ParseOp(op, p2)
       IN  IF ~r.ok THEN Fail(Rep(Rep(r.p, "TokenUnmatched", open.a), "TokenExpectedWasEOF", P.e))
           ELSE LET p3 == Skip(r.p)
                    got == sep # "Whitespace" /\ Peek(p3) = sep
                IN  ParseSep(IF got THEN Adv(p3) ELSE p3, open, op, sep, close, Append(ks, r.v), sep # "Whitespace" /\ ~got)

ParseExprTok(P, tok) ==
  LET k == tok.k  r == R(P, tok) IN
  CASE k = "Dot" -> Ok(P, [t |-> "unit", r |-> r])
    [] k \in {"True", "False"} -> Ok(P, [t |-> "bool", b |-> k = "True", r |-> r])
    [] k = "Name" -> Ok(P, [t |-> "bare", s |-> tok.s, r |-> r])
    [] k = "Number" -> LET n == ParseNumber(P, tok) IN IF ~n.ok THEN n ELSE Ok(n.p, [t |-> "int", i |-> n.v, r |-> r])
    [] k \in {"VerbS", "VerbM"} -> Ok(P, [t |-> "verb", s |-> TrimTicks(tok.s), r |-> r])
    [] k = "VarName" -> ParseName(P, tok)
    [] k = "FuncName" -> FuncCall(P, tok)
    [] k = "KwExport" -> FailK(P, "ExportNotAllowed", tok.a)
    [] k = "KwFn" -> FuncDef(P, tok, TRUE)
    [] k \in {"KwLet", "KwImplicit"} -> LetIn(P, tok, FALSE)
    [] k = "KwMatch" -> MatchExpr(P, tok)
    [] k = "LBrace" -> LET g == NodesUntil(P, [k |-> "brace", n |-> ""]) IN
                       Ok(IF g.v.closed THEN g.p ELSE Rep(g.p, "TokenUnmatched", tok.a), GroupOf(g.v.ns, r))
    [] k = "LSqb" -> LET s == ParseSep(P, tok, "item", "Comma", "RSqb", <<>>, FALSE) IN
                     IF ~s.ok THEN s ELSE Ok(s.p, [t |-> "list", es |-> s.v.ks, r |-> r])
    [] k = "LAngle" /\ StartsTag(P) -> ParseTag(P, tok)
    [] k \in {"QuoteS", "QuoteD"} -> LET t == TplParts(P, tok) IN
                                     IF ~t.ok THEN t ELSE Ok(t.p, [t |-> "tpl", ps |-> t.v, r |-> r])
    [] OTHER -> FailK(P, "ExpectedExpr", tok.a)

ParseNode(P, tok) ==
  LET k == tok.k  r == R(P, tok) IN
  CASE k = "KwExport" -> Export(P, tok)
    [] k = "KwFn" -> LET f == FuncDef(P, tok, FALSE) IN IF ~f.ok THEN f ELSE Ok(f.p, [f.v EXCEPT !.t = "fndef"])
    [] k \in {"VerbS", "VerbM"} -> Ok(P, [t |-> "fence", s |-> tok.s, m |-> k = "VerbM", r |-> r])
    [] k \in {"FuncName", "KwLet", "KwImplicit", "KwMatch", "VarName", "LBrace", "LSqb"} -> ParseExprTok(P, tok)
    [] k = "LAngle" /\ StartsTag(P) -> ParseTag(P, tok)
    [] k \in {"CloseTag", "RBrace", "RSqb"} -> FailK(P, "TokenUnmatched", tok.a)
    [] k = "Whitespace" -> Ok(P, [t |-> "ws", r |-> r])
    [] k = "Newline" -> Ok(P, [t |-> "para", r |-> r])
    [] k = "Escape" -> LET u == Unescape(P, tok) IN Ok(u.p, [t |-> "char", s |-> u.v, r |-> r])
    [] k = "Entity" -> LET u == Entity(P, tok) IN Ok(u.p, [t |-> "char", s |-> u.v, r |-> r])
    [] OTHER -> LET x == TextRun(P, TokText(tok)) IN Ok(x[1], [t |-> "text", s |-> Substitute(x[2]), r |-> r])

\* a whole file: [ns, d]
ParseFile(name, C) ==
  LET z == Tokenize(C)
      P == [T |-> z.toks, i |-> 1, e |-> Len(C), f |-> name,
            d |-> [j \in DOMAIN z.errs |-> [k |-> z.errs[j].k, f |-> name, p |-> z.errs[j].p, tb |-> FALSE, st |-> <<>>]]]
      g == NodesUntil(P, [k |-> "root", n |-> ""])
  IN  [ns |-> g.v.ns, d |-> g.p.d]
=============================================================================
