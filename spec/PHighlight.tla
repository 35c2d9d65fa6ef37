----------------------------- MODULE PHighlight -----------------------------
(* Syntax highlighting of Papyri source, and numbered lines of code.         *)
EXTENDS PText

Span(cl, c) == HTag("span", <<Attr("class", cl)>>, c)
CssOf(k) == CASE k = "Comment" -> "comment" [] k = "Decorator" -> "decorator" [] k = "Keyword" -> "keyword"
  [] k = "KeywordLiteral" -> "keyword-literal" [] k = "Name" -> "name" [] k = "NameDef" -> "name-def"
  [] k = "Number" -> "number" [] k = "Op" -> "op" [] k = "Unmatched" -> "unmatched-paren" [] k = "KeywordOp" -> "keyword-op"
  [] k = "Punctuation" -> "punctuation" [] k = "Type" -> "type-annotation" [] k = "Invalid" -> "err" [] OTHER -> "string"
PartHtml(k, s) == CASE k = "Plain" -> HText(s)
  [] k = "UrlC" -> HTag("a", <<Attr("href", s), Attr("class", "comment")>>, HText(s))
  [] k = "UrlS" -> HTag("a", <<Attr("href", s)>>, HText(s))
  [] OTHER -> Span(CssOf(k), HText(s))
Mate(c) == CASE c = "(" -> ")" [] c = "[" -> "]" [] OTHER -> "}"

(* state: out finished lines, parts of this line, k and s the part now open, *)
(* ps the open parentheses <<mate, number>>, n the last number               *)
HInit == [out |-> <<>>, parts |-> <<>>, k |-> "", s |-> "", ps |-> <<>>, n |-> 0]
Close(H) == IF H.k = "" THEN H ELSE [H EXCEPT !.parts = Append(@, PartHtml(H.k, H.s)), !.k = "", !.s = ""]
Other(H, k, s) == IF s = "" THEN H ELSE IF H.k = k THEN [H EXCEPT !.s = @ \o s]
                  ELSE [Close(H) EXCEPT !.k = k, !.s = s]
Paren(H, k, s, n) == LET G == Close(H) IN
  [G EXCEPT !.parts = Append(@, HTag("span", <<Attr("class", k), Attr("data_paren_no", ToString(n))>>, HText(s)))]
Newl(H) == LET G == Close(H) IN [G EXCEPT !.out = Append(@, HSeq(G.parts)), !.parts = <<>>]

UrlRx == CompileRegex("https?://[^\\s'\"`]+")
RECURSIVE Urls(_, _, _, _, _, _)
Urls(H, C, ms, i, k, a) ==
  IF i > Len(ms) THEN Other(H, k, Cat(C, a, Len(C)))
  ELSE LET h1 == Other(H, k, Cat(C, a, ms[i].a - 1))
           h2 == Close(Other(h1, IF k = "Comment" THEN "UrlC" ELSE "UrlS", Cat(C, ms[i].a, ms[i].e - 1)))
       IN  Urls(h2, C, ms, i+1, k, ms[i].e)
HPush(H, k, s) ==
  CASE k \in {"Comment", "String"} -> LET C == Chars(s) IN Urls(H, C, XAll(C, UrlRx), 1, k, 1)
    [] k = "L" /\ s # "" -> Paren([H EXCEPT !.n = @ + 1, !.ps = Append(@, <<Mate(s), H.n + 1>>)], "lparen", s, H.n + 1)
    [] k = "R" /\ s # "" -> IF H.ps # <<>> /\ H.ps[Len(H.ps)][1] = s
                  THEN Paren([H EXCEPT !.ps = SubSeq(@, 1, Len(@)-1)], "rparen", s, H.ps[Len(H.ps)][2])
                  ELSE Other(H, "Unmatched", s)
    [] OTHER -> Other(H, k, s)
RECURSIVE HParts(_, _, _, _)
HParts(H, k, ps, i) == IF i > Len(ps) THEN H ELSE HParts(HPush(IF i = 1 THEN H ELSE Newl(H), k, ps[i]), k, ps, i+1)

HKind(tok, def, tag) ==
  CASE tok.k = "Comment" -> "Comment"
    [] tok.k \in {"RawText", "Whitespace", "Newline"} -> "Plain"
    [] tok.k \in {"True", "False", "Escape", "Entity"} -> "KeywordLiteral"
    [] tok.k = "Number" -> "Number" [] tok.k = "VarName" -> "Name"
    [] tok.k \in {"VerbS", "VerbM"} -> "String"
    [] tok.k = "Name" -> IF def THEN "NameDef" ELSE IF tag THEN "Name" ELSE "Plain"
    [] tok.k = "FuncName" -> "Decorator"
    [] tok.k \in {"KwExport", "KwFn", "KwImplicit", "KwLet", "KwMatch"} -> "Keyword"
    [] tok.k \in {"LPar", "LSqb", "LBrace"} -> "L" [] tok.k \in {"RPar", "RSqb", "RBrace"} -> "R"
    [] OTHER -> "Op"
RECURSIVE HToks(_, _, _, _)
HToks(H, ts, def, i) ==
  IF i > Len(ts) THEN Newl(H)
  ELSE LET t == ts[i]
           def2 == IF t.k = "Name" THEN FALSE ELSE IF SubSeq(t.k, 1, 2) = "Kw" THEN t.k = "KwFn" ELSE def
       IN  HToks(HParts(H, HKind(t, def, i > 1 /\ ts[i-1].k = "LAngle"), SplitBy(t.s, "\n"), 1), ts, def2, i+1)
PapyriLines(src) == HToks(HInit, TokenizeAll(Chars(TrimEnd(src))), FALSE, 1).out

(* Other languages: a library splits every line into pieces, each with a     *)
(* stack of scopes; facts about that come with the case.  The kind of a piece *)
(* is the first whose selector its scopes match.                              *)
HasScope(sc, x) == \E i \in DOMAIN sc : HasPrefix(sc[i] \o ".", x \o ".")
PieceKind(s, sc) ==
  CASE AllWs(s) -> "Plain"
    [] HasScope(sc, "invalid") /\ ~HasScope(sc, "invalid.deprecated") -> "Invalid"
    [] HasScope(sc, "comment") -> "Comment"
    [] s \in {"(", "[", "{"} -> "L"
    [] s \in {")", "]", "}"} -> "R"
    [] HasScope(sc, "string") -> "String"
    [] HasScope(sc, "constant.numeric") -> "Number"
    [] HasScope(sc, "constant.language") -> "KeywordLiteral"
    [] HasScope(sc, "keyword.operator.word") -> "KeywordOp"
    [] HasScope(sc, "keyword.operator") -> "Op"
    [] IsIdent(s) /\ (\E x \in {"keyword", "storage.modifier", "storage.type", "variable.language"} : HasScope(sc, x)) -> "Keyword"
    [] HasScope(sc, "punctuation") /\ ~HasScope(sc, "punctuation.definition.annotation") -> "Punctuation"
    [] HasScope(sc, "entity.name") -> "NameDef"
    [] HasScope(sc, "variable") /\ ~HasScope(sc, "variable.annotation") -> "Name"
    [] HasScope(sc, "meta.annotation.type") -> "Type"
    [] HasScope(sc, "meta.annotation") -> "Decorator"
    [] IsIdent(s) -> "Name"
    [] OTHER -> "Punctuation"
RECURSIVE HPieces(_, _, _)
HPieces(H, ts, i) == IF i > Len(ts) THEN Newl(H) ELSE HPieces(HPush(H, PieceKind(ts[i].s, ts[i].sc), ts[i].s), ts, i+1)
RECURSIVE ForeignFrom(_, _, _)
ForeignFrom(H, ls, i) ==
  IF i > Len(ls) THEN H.out
  ELSE IF ls[i].ok THEN ForeignFrom(HPieces(H, ls[i].toks, 1), ls, i+1)
  ELSE ForeignFrom([H EXCEPT !.out = Append(@, HText(ls[i].s))], ls, i+1)
ForeignLines(f) == ForeignFrom(HInit, f.lines, 1)
LANGS == JsonDeserialize(IOEnv.PAPYRI_SPEC \o "/languages.json")
OtherLanguage(l) == \E i \in DOMAIN LANGS : LANGS[i] = l

PlainLines(src) == LET l == Lines(src) IN [i \in DOMAIN l |-> HText(l[i])]

Numbered(lines, start) ==
  HSeq([j \in 1..(2*Len(lines)) |-> IF j % 2 = 0 THEN HText("\n")
        ELSE LET i == (j+1) \div 2 IN
             HTag("span", <<Attr("class", "line"), Attr("data_line_no", IStr(IAdd(IOf(i-1), start)))>>, lines[i])])
=============================================================================
