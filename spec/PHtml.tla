------------------------------- MODULE PHtml -------------------------------
(* HTML values, their normal form, the content model of HTML elements, and   *)
(* rendering.                                                                 *)
(*   [k "empty"] | [k "text", s] | [k "tag", n, as, c] | [k "seq", hs]        *)
(* An attribute is [x name, f is-a-flag, v value].                            *)
EXTENDS PParser

HE == [k |-> "empty"]
HText(s) == IF s = "" THEN HE ELSE [k |-> "text", s |-> s]
HTag(n, as, c) == [k |-> "tag", n |-> n, as |-> as, c |-> c]
Attr(x, v) == [x |-> x, f |-> FALSE, v |-> v]
ASCII_WS == {" ", "\t", "\n", "\r", "\f"}
AllWs(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in ASCII_WS

HNodes(h) == IF h.k = "empty" THEN <<>> ELSE IF h.k = "seq" THEN h.hs ELSE <<h>>
RECURSIVE Norm(_, _)
Norm(hs, acc) ==
  IF hs = <<>> THEN acc
  ELSE LET h == hs[1]  n == Len(acc) IN
       CASE h.k = "empty" -> Norm(Tail(hs), acc)
         [] h.k = "seq" -> Norm(Tail(hs), Norm(h.hs, acc))
         [] h.k = "text" /\ n > 0 -> Norm(Tail(hs), IF acc[n].k = "text" THEN [acc EXCEPT ![n].s = @ \o h.s] ELSE Append(acc, h))
         [] OTHER -> Norm(Tail(hs), Append(acc, h))
(* The normal form of a sequence of HTML: flat, no empties, no adjacent text *)
HSeq(hs) == LET a == Norm(hs, <<>>) IN
            IF a = <<>> THEN HE ELSE IF Len(a) = 1 THEN a[1] ELSE [k |-> "seq", hs |-> a]
RECURSIVE IsNormal(_)
IsNormal(h) == CASE h.k = "seq" -> /\ Len(h.hs) >= 2
                                   /\ \A i \in DOMAIN h.hs : h.hs[i].k \in {"text", "tag"} /\ IsNormal(h.hs[i])
                                   /\ \A i \in 1..(Len(h.hs) - 1) : ~(h.hs[i].k = "text" /\ h.hs[i+1].k = "text")
                 [] h.k = "text" -> h.s # ""
                 [] h.k = "tag" -> IsNormal(h.c)
                 [] OTHER -> TRUE

BLOCK == {"!DOCTYPE", "address", "article", "aside", "base", "blockquote", "body", "dd", "details", "div", "dl", "dt",
  "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup",
  "hr", "html", "iframe", "li", "link", "main", "menu", "meta", "nav", "ol", "p", "pre", "script", "section", "style",
  "table", "template", "title", "ul"}
\* the first block tag in some content, or "" (links are transparent)
RECURSIVE BlockKind(_)
BlockKind(h) ==
  CASE h.k = "tag" -> IF h.n = "a" THEN BlockKind(h.c) ELSE IF h.n \in BLOCK THEN h.n ELSE ""
    [] h.k = "seq" -> LET RECURSIVE F(_)
                          F(i) == IF i > Len(h.hs) THEN "" ELSE LET b == BlockKind(h.hs[i]) IN IF b # "" THEN b ELSE F(i+1)
                      IN  F(1)
    [] OTHER -> ""
IsBlock(h) == BlockKind(h) # ""
RECURSIVE IsInline(_)
IsInline(h) == CASE h.k = "text" -> TRUE [] h.k = "tag" -> ~IsBlock(h)
                 [] h.k = "seq" -> \A i \in DOMAIN h.hs : IsInline(h.hs[i]) [] OTHER -> FALSE
HIsWs(h) == h.k = "empty" \/ (h.k = "text" /\ AllWs(h.s))
RECURSIVE IsAll(_, _)
IsAll(h, ns) == CASE h.k = "tag" -> h.n \in ns [] h.k = "seq" -> \A i \in DOMAIN h.hs : IsAll(h.hs[i], ns)
                  [] h.k = "empty" -> TRUE [] OTHER -> FALSE

--------------------------------------------------------------------------
(* the content model: what may stand inside an element *)
OneOf(w, ns) == [k |-> "oneof", w |-> w, ns |-> ns]
ReqP == [k |-> "reqblock", w |-> "p", ns |-> {}]
AllowP == [k |-> "allow", w |-> "p", ns |-> {}]
Inl == [k |-> "inline", w |-> "p", ns |-> {}]
NoBr == [k |-> "nobr", w |-> "p", ns |-> {}]
Emp == [k |-> "empty", w |-> "p", ns |-> {}]
HN == {"h1", "h2", "h3", "h4", "h5", "h6"}
ContentOf(n) ==
  CASE n \in {"article", "aside", "blockquote", "footer", "header", "main", "nav", "section"} -> ReqP
    [] n \in {"a", "<anonymous>", "address", "body", "details", "div", "fieldset", "figcaption", "figure", "form", "li"} -> AllowP
    [] n = "dl" -> OneOf("dd", {"dd", "dt"})
    [] n = "hgroup" -> OneOf("p", {"p"} \cup HN)
    [] n = "html" -> OneOf("body", {"body", "head"})
    [] n = "head" -> OneOf("base", {"base", "link", "meta", "noscript", "script", "style", "template", "title"})
    [] n \in {"menu", "ol", "ul"} -> OneOf("li", {"li"})
    [] n = "table" -> OneOf("tr", {"tr", "tbody", "tfoot", "thead", "caption", "colgroup"})
    [] n \in {"tbody", "tfoot", "thead"} -> OneOf("tr", {"tr"})
    [] n = "tr" -> OneOf("td", {"td", "th"})
    [] n \in HN \cup {"p"} -> NoBr
    [] n \in SELF_CLOSING -> Emp
    [] OTHER -> Inl

(* A builder of one element's content: kind, the children so far, and the    *)
(* builder (a sequence of at most one) of the wrapper now open.  Results are *)
(* [b, e]; e is an error kind, or "".                                         *)
NewB(kind, par) == [kind |-> kind, par |-> par, ch |-> <<>>, nx |-> <<>>]
BR(b, e) == [b |-> b, e |-> e]
RECURSIVE IntoHtml(_)
\* [h, e]
CloseChild(b) ==
  IF b.nx = <<>> THEN BR(b, "")
  ELSE LET r == IntoHtml(b.nx[1])  b1 == [b EXCEPT !.nx = <<>>] IN
       IF r.e # "" THEN BR(b1, r.e)
       ELSE IF r.h.k = "empty" THEN BR(b1, "")
       ELSE BR([b1 EXCEPT !.ch = Append(@, HTag(b.kind.w, <<>>, r.h))], "")
RECURSIVE TrimTail(_)
TrimTail(hs) == IF hs # <<>> /\ HIsWs(hs[Len(hs)]) THEN TrimTail(SubSeq(hs, 1, Len(hs)-1)) ELSE hs
IntoHtml(b) ==
  IF b.kind.k = "allow" /\ b.ch = <<>> THEN (IF b.nx = <<>> THEN [h |-> HE, e |-> ""] ELSE IntoHtml(b.nx[1]))
  ELSE LET c == CloseChild(b) IN
       IF c.e # "" THEN [h |-> HE, e |-> c.e]
       ELSE LET h == HSeq(TrimTail(c.b.ch)) IN
            IF b.kind.k = "empty" /\ h.k # "empty" THEN [h |-> HE, e |-> "NoContentAllowed"] ELSE [h |-> h, e |-> ""]
NewlineB(b) ==
  CASE b.kind.k \in {"reqblock", "oneof", "allow"} -> CloseChild(b)
    [] b.kind.k = "inline" -> LET c == CloseChild(b) IN
                              IF c.e # "" THEN c ELSE BR([c.b EXCEPT !.ch = Append(@, HTag("br", <<>>, HE))], "")
    [] b.kind.k = "nobr" -> BR(b, "ParagraphBreakNotAllowed")
    [] OTHER -> BR(b, "")
RECURSIVE PushB(_, _)
RECURSIVE PushAll(_, _, _)
PushAll(r, hs, i) == IF i > Len(hs) \/ r.e # "" THEN r ELSE PushAll(PushB(r.b, hs[i]), hs, i + 1)
PushB(b, h) ==
  IF h.k = "empty" THEN BR(b, "")
  ELSE IF b.kind.k \in {"inline", "nobr"} /\ IsBlock(h) THEN BR(b, IF b.par = "" THEN "TagNotAllowed" ELSE "TagNotAllowedIn")
  ELSE IF b.kind.k \in {"reqblock", "allow"} /\ h.k = "seq" /\ IsBlock(h) /\ (\E i \in DOMAIN h.hs : ~IsBlock(h.hs[i]) /\ ~HIsWs(h.hs[i])) THEN
       \* loose text among blocks: item by item
       PushAll(BR(b, ""), h.hs, 1)
  ELSE IF (CASE b.kind.k = "oneof" -> IsAll(h, b.kind.ns) [] b.kind.k \in {"reqblock", "allow"} -> IsBlock(h) [] OTHER -> TRUE) THEN
       LET c == CloseChild(b) IN
       IF c.e # "" THEN c
       ELSE IF c.b.ch # <<>> \/ ~HIsWs(h) THEN BR([c.b EXCEPT !.ch = Append(@, h)], "") ELSE c
  ELSE IF b.nx # <<>> \/ ~HIsWs(h) THEN
       LET n == IF b.nx # <<>> THEN b.nx[1] ELSE NewB(ContentOf(b.kind.w), b.kind.w)
           r == PushB(n, h)
       IN  BR([b EXCEPT !.nx = <<r.b>>], r.e)
  ELSE BR(b, "")

(* What the content model promises of finished content *)
ObeysKind(h, kind) ==
  CASE kind.k = "oneof" -> IsAll(h, kind.ns)
    [] kind.k = "reqblock" -> \A i \in DOMAIN HNodes(h) : HIsWs(HNodes(h)[i]) \/ IsBlock(HNodes(h)[i])
    [] kind.k = "allow" -> \/ \A i \in DOMAIN HNodes(h) : ~IsBlock(HNodes(h)[i])
                           \/ \A i \in DOMAIN HNodes(h) : HIsWs(HNodes(h)[i]) \/ IsBlock(HNodes(h)[i])
    [] kind.k \in {"inline", "nobr"} -> ~IsBlock(h)
    [] OTHER -> h.k = "empty"
\* strict: without the exception for the tables that dictionaries turn into, in
\* whose cells the implementation puts blocks (a known finding)
IsTabular(h) == h.k = "tag" /\ h.n = "table" /\ \E i \in DOMAIN h.as : h.as[i].x = "class" /\ h.as[i].v = "tabular-data"
RECURSIVE ObeysIn(_, _, _)
ObeysIn(h, kind, tab) ==
  /\ ObeysKind(h, kind)
  /\ \A i \in DOMAIN HNodes(h) : LET c == HNodes(h)[i] IN
       c.k = "tag" => IF tab /\ c.n = "td" /\ ~ObeysKind(c.c, ContentOf("td"))
                      THEN \A j \in DOMAIN HNodes(c.c) : LET d == HNodes(c.c)[j] IN d.k = "tag" => ObeysIn(d.c, ContentOf(d.n), TRUE)
                      ELSE ObeysIn(c.c, ContentOf(c.n), tab \/ IsTabular(c))
Obeys(h, kind) == ObeysIn(h, kind, FALSE)
RECURSIVE ObeysStrictly(_, _)
ObeysStrictly(h, kind) == /\ ObeysKind(h, kind)
                          /\ \A i \in DOMAIN HNodes(h) : LET c == HNodes(h)[i] IN c.k = "tag" => ObeysStrictly(c.c, ContentOf(c.n))

--------------------------------------------------------------------------
(* rendering *)
Esc(c, q) == CASE c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] c = "&" -> "&amp;"
               [] c = "\"" /\ q -> "&quot;" [] c = "'" /\ q -> "&apos;" [] OTHER -> c
EscChars(q) == IF q THEN {"<", ">", "&", "\"", "'"} ELSE {"<", ">", "&"}
Escape(s, q) == LET C == Chars(s) IN
                IF \E i \in DOMAIN C : C[i] \in EscChars(q) THEN Cat([i \in DOMAIN C |-> Esc(C[i], q)], 1, Len(C)) ELSE s
Dash(s) == LET C == Chars(s) IN Cat([i \in DOMAIN C |-> IF C[i] = "_" THEN "-" ELSE C[i]], 1, Len(C))
RECURSIVE Render(_)
RECURSIVE RenderText(_)
Render(h) ==
  CASE h.k = "empty" -> ""
    [] h.k = "text" -> Escape(h.s, FALSE)
    [] h.k = "seq" -> LET R2 == [i \in DOMAIN h.hs |-> Render(h.hs[i])] IN Cat(R2, 1, Len(R2))
    [] OTHER -> LET A == [i \in DOMAIN h.as |-> " " \o Dash(h.as[i].x) \o
                            (IF h.as[i].f THEN "" ELSE "=\"" \o Escape(h.as[i].v, TRUE) \o "\"")]
                IN  "<" \o h.n \o Cat(A, 1, Len(A)) \o ">" \o Render(h.c) \o
                    (IF h.n = "!DOCTYPE" THEN "\n" ELSE IF h.n \in SELF_CLOSING THEN "" ELSE "</" \o h.n \o ">")
RenderText(h) ==
  CASE h.k = "empty" -> ""
    [] h.k = "text" -> h.s
    [] h.k = "seq" -> LET R2 == [i \in DOMAIN h.hs |-> RenderText(h.hs[i])] IN Cat(R2, 1, Len(R2))
    [] OTHER -> RenderText(h.c) \o (IF h.n = "p" THEN "\n\n" ELSE IF h.n = "hr" THEN "\n―\n\n"
                                    ELSE IF h.n \in BLOCK THEN "\n" ELSE "")
=============================================================================
