------------------------------- MODULE PTypes -------------------------------
(* Values and types.                                                          *)
(*   [t "bool", b] [t "int", i] [t "str", s] [t "list", xs] [t "dict", ks, vs] *)
(*   [t "html", h] [t "func", n name, ...] [t "regex", src, ...]              *)
EXTENDS PHtml

VUnit == [t |-> "html", h |-> HE]
VB(b) == [t |-> "bool", b |-> b]
VI(i) == [t |-> "int", i |-> i]
VS(s) == [t |-> "str", s |-> s]
VL(xs) == [t |-> "list", xs |-> xs]
VD(ks, vs) == [t |-> "dict", ks |-> ks, vs |-> vs]
VH(h) == IF h.k = "text" THEN VS(h.s) ELSE [t |-> "html", h |-> h]
IsUnit(v) == v.t = "html" /\ v.h.k = "empty"
BoolStr(b) == IF b THEN "True" ELSE "False"
HasKey(d, k) == \E i \in DOMAIN d.ks : d.ks[i] = k
DGet(d, k) == d.vs[IndexOf(d.ks, k)]
DPut(d, k, v) == LET i == IndexOf(d.ks, k) IN
                 IF i > 0 THEN [d EXCEPT !.vs[i] = v] ELSE [d EXCEPT !.ks = Append(@, k), !.vs = Append(@, v)]

\* equality: structural; attribute and key order is immaterial; functions are never equal
RECURSIVE HEq(_, _)
AttrOf(as, x) == LET H == {i \in DOMAIN as : as[i].x = x} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : TRUE
HEq(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "text" -> a.s = b.s
       [] a.k = "seq" -> Len(a.hs) = Len(b.hs) /\ \A i \in DOMAIN a.hs : HEq(a.hs[i], b.hs[i])
       [] a.k = "tag" -> /\ a.n = b.n /\ Len(a.as) = Len(b.as)
                         /\ \A i \in DOMAIN a.as : LET j == AttrOf(b.as, a.as[i].x) IN
                              j > 0 /\ a.as[i].f = b.as[j].f /\ (a.as[i].f \/ a.as[i].v = b.as[j].v)
                         /\ HEq(a.c, b.c)
       [] OTHER -> TRUE
RECURSIVE VEq(_, _)
VEq(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "bool" -> a.b = b.b
       [] a.t = "int" -> a.i = b.i
       [] a.t = "str" -> a.s = b.s
       [] a.t = "html" -> HEq(a.h, b.h)
       [] a.t = "regex" -> a.src = b.src
       [] a.t = "list" -> Len(a.xs) = Len(b.xs) /\ \A i \in DOMAIN a.xs : VEq(a.xs[i], b.xs[i])
       [] a.t = "dict" -> /\ Len(a.ks) = Len(b.ks)
                          /\ \A i \in DOMAIN a.ks : HasKey(b, a.ks[i]) /\ VEq(a.vs[i], DGet(b, a.ks[i]))
       [] OTHER -> FALSE

--------------------------------------------------------------------------
RECURSIVE Component(_)
Component(t) == CASE t.t \in {"list", "dict"} -> t.c [] t.t = "opt" -> Component(t.c)
                  [] t.t \in {"block", "html"} -> Ty("html") [] OTHER -> Ty("any")
RECURSIVE TyEq(_, _)
TyEq(a, b) == a.t = b.t /\ (a.t \in {"list", "dict", "opt"} => TyEq(a.c, b.c))

\* the least upper bound of two types
RECURSIVE Lub(_, _)
Lub(a, b) ==
  IF TyEq(a, b) THEN a
  ELSE IF a.t = "any" \/ b.t = "any" THEN Ty("any")
  ELSE IF a.t = "none" THEN TyOpt(b) ELSE IF b.t = "none" THEN TyOpt(a)
  ELSE IF a.t \in HtmlTypes /\ b.t \in HtmlTypes THEN Ty("html")
  ELSE IF a.t = "list" /\ b.t = "list" THEN TyList(Lub(a.c, b.c))
  ELSE IF a.t = "dict" /\ b.t = "dict" THEN TyDict(Lub(a.c, b.c))
  ELSE IF a.t = "opt" /\ b.t = "opt" THEN TyOpt(Lub(a.c, b.c))
  ELSE IF a.t = "opt" THEN TyOpt(Lub(a.c, b)) ELSE IF b.t = "opt" THEN TyOpt(Lub(b.c, a))
  ELSE Ty("any")
RECURSIVE TypeOf(_)
RECURSIVE LubAll(_, _, _)
LubAll(xs, i, acc) == IF i > Len(xs) THEN acc ELSE LubAll(xs, i+1, Lub(acc, TypeOf(xs[i])))
CommonType(xs) == IF xs = <<>> THEN Ty("none") ELSE LubAll(xs, 2, TypeOf(xs[1]))
TypeOf(v) == CASE v.t = "list" -> TyList(CommonType(v.xs))
               [] v.t = "dict" -> TyDict(CommonType(v.vs))
               [] v.t = "html" -> Ty(IF v.h.k = "empty" THEN "none" ELSE IF IsBlock(v.h) THEN "block" ELSE "inline")
               [] v.t = "func" -> Ty("function")
               [] OTHER -> Ty(v.t)

\* is the value assignable to the type?  (what a type pattern tests)
RECURSIVE HasType(_, _)
HasType(v, t) ==
  IF IsUnit(v) THEN UnitOK(t)
  ELSE CASE t.t = "any" -> TRUE
         [] t.t \in {"bool", "int", "str", "regex"} -> v.t = t.t
         [] t.t = "function" -> v.t = "func"
         [] t.t = "html" -> v.t \in {"html", "str"}
         [] t.t = "inline" -> v.t = "str" \/ (v.t = "html" /\ IsInline(v.h))
         [] t.t = "block" -> v.t = "html" /\ IsBlock(v.h)
         [] t.t = "list" -> v.t = "list" /\ \A i \in DOMAIN v.xs : HasType(v.xs[i], t.c)
         [] t.t = "dict" -> v.t = "dict" /\ \A i \in DOMAIN v.vs : HasType(v.vs[i], t.c)
         [] t.t = "opt" -> HasType(v, t.c)
         [] OTHER -> FALSE

\* the HTML a value is displayed as
RECURSIVE ToHtml(_)
ToHtml(v) ==
  CASE v.t = "bool" -> HText(BoolStr(v.b))
    [] v.t = "int" -> HText(Substitute(IStr(v.i)))
    [] v.t = "str" -> HText(v.s)
    [] v.t = "html" -> v.h
    [] v.t = "list" -> HTag("ul", <<>>, HSeq([i \in DOMAIN v.xs |-> HTag("li", <<>>, ToHtml(v.xs[i]))]))
    [] v.t = "dict" -> HTag("table", <<Attr("class", "tabular-data")>>,
         HSeq([i \in DOMAIN v.ks |-> HTag("tr", <<>>, HSeq(<<HTag("th", <<>>, HText(v.ks[i])), HTag("td", <<>>, ToHtml(v.vs[i]))>>))]))
    [] v.t = "func" -> HTag("code", <<>>, HText("(@fn " \o v.n \o ")"))
    [] OTHER -> HTag("code", <<>>, HText("(@regex " \o v.src \o ")"))

\* implicit conversion: [ok, v]
Yes(v) == [ok |-> TRUE, v |-> v]
No == [ok |-> FALSE, v |-> 0]
RECURSIVE Coerce(_, _)
Coerce(v, ty) ==
  IF ty.t = "opt" /\ IsUnit(v) THEN Yes(VUnit)
  ELSE LET t == IF ty.t = "opt" THEN ty.c ELSE ty IN
  CASE t.t = "none" /\ IsUnit(v) -> Yes(v)
    [] t.t = "any" -> Yes(v)
    [] t.t \in {"bool", "int", "str", "regex"} /\ v.t = t.t -> Yes(v)
    [] t.t = "function" /\ v.t = "func" -> Yes(v)
    [] t.t \in {"html", "inline"} /\ v.t = "str" -> Yes(v)
    [] t.t = "html" /\ v.t = "html" -> Yes(v)
    [] t.t = "str" /\ v.t = "bool" -> Yes(VS(BoolStr(v.b)))
    [] t.t = "str" /\ v.t = "int" -> Yes(VS(IStr(v.i)))
    [] t.t = "dict" /\ v.t = "dict" ->
         LET W == [i \in DOMAIN v.vs |-> Coerce(v.vs[i], t.c)] IN
         IF \A i \in DOMAIN W : W[i].ok THEN Yes(VD(v.ks, [i \in DOMAIN W |-> W[i].v])) ELSE No
    [] t.t = "list" /\ v.t = "list" ->
         LET W == [i \in DOMAIN v.xs |-> Coerce(v.xs[i], t.c)] IN
         IF \A i \in DOMAIN W : W[i].ok THEN Yes(VL([i \in DOMAIN W |-> W[i].v])) ELSE No
    [] v.t = "func" \/ (t.t = "inline" /\ v.t \in {"dict", "list"}) -> No
    [] t.t = "html" -> Yes(VH(ToHtml(v)))
    [] t.t = "block" -> LET h == ToHtml(v) IN Yes(VH(IF IsInline(h) THEN HTag("p", <<>>, h) ELSE h))
    [] t.t = "inline" -> LET h == ToHtml(v) IN IF IsBlock(h) THEN No ELSE Yes(VH(h))
    [] OTHER -> No
=============================================================================
