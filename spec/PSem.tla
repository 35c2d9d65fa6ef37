-------------------------------- MODULE PSem --------------------------------
(* The meaning of Papyri programs: evaluation of syntax to values and HTML,  *)
(* with the diagnostics reported on the way, in order.                        *)
(*                                                                            *)
(* State S:                                                                   *)
(*   fr    frames: [par lexical parent (0 none), loc name -> value,           *)
(*         imp names declared implicit]; only ever extended                   *)
(*   st    the call stack: [f frame, has call information, n function, r at]  *)
(*   ex    exports of the file being compiled [ks, vs]                        *)
(*   d     diagnostics [k kind, f file, p position, tb has traceback, st it]  *)
(*   uid   identifiers handed out                                             *)
(*   init  the frame in which files are compiled                              *)
(*   mods  module cache: path -> [st, out, ex]                                *)
(*   fs    file system: [dirs, files: path -> text]                           *)
(*   of    output files: [on, base, fs <<path, html>>]                        *)
(*   deep  a bound of this specification was exceeded: too many calls, or     *)
(*         something unmodelled                                               *)
EXTENDS PHighlight, PPath

NoMap == [x \in {} |-> 0]
NoEx == [ks |-> <<>>, vs |-> <<>>]
EPut(d, k, v) == LET i == IndexOf(d.ks, k) IN
                 IF i > 0 THEN [d EXCEPT !.vs[i] = v] ELSE [ks |-> Append(d.ks, k), vs |-> Append(d.vs, v)]
MAXDEPTH == 50
MAXFRAMES == 2500

--------------------------------------------------------------------------
(* results and diagnostics *)
OkR(S, v) == [s |-> S, ok |-> TRUE, v |-> v, e |-> ""]
ErrR(S, k) == [s |-> S, ok |-> FALSE, v |-> VUnit, e |-> k]
AR(S) == ErrR(S, "AlreadyReported")
SeqCalls(st) == LET C == SelectSeq(st, LAMBDA x : x.has) IN [i \in DOMAIN C |-> [f |-> C[i].r[1], p |-> C[i].r[2], n |-> C[i].n]]
Log(S, k, r) == [S EXCEPT !.d = Append(@, [k |-> k, f |-> r[1], p |-> r[2], tb |-> TRUE, st |-> SeqCalls(S.st)])]
LogS(S, k, r) == [S EXCEPT !.d = Append(@, [k |-> k, f |-> r[1], p |-> r[2], tb |-> FALSE, st |-> <<>>])]
RepE(x, r) == IF x.ok THEN x ELSE AR(Log(x.s, x.e, r))
CoR(x, ty) == IF ~x.ok THEN x ELSE LET c == Coerce(x.v, ty) IN IF c.ok THEN OkR(x.s, c.v) ELSE ErrR(x.s, "ExpectedWas")
WARNINGS == {"RedundantOptionType", "NameAlreadyDeclared", "PatternNameAlreadyBound", "NameAlreadyExported",
   "InlineHighlightEnumerate", "InlineHighlightMultiline", "HighlightNotEnabled", "HighlightLanguageUnknown", "BrokenLink"}

--------------------------------------------------------------------------
(* frames *)
CurF(S) == S.st[Len(S.st)].f
NewFrame(S, par, loc) == [S EXCEPT !.fr = Append(@, [par |-> par, loc |-> loc, imp |-> {}])]
\* enter a new block frame; leave it again
Push(S) == LET S1 == NewFrame(S, CurF(S), NoMap) IN
           [S1 EXCEPT !.st = Append(@, [f |-> Len(S1.fr), has |-> FALSE, n |-> "", r |-> <<"", 0>>])]
Pop(S) == [S EXCEPT !.st = SubSeq(@, 1, Len(@)-1)]
PopR(x) == [x EXCEPT !.s = Pop(@)]
\* [ok, v]
RECURSIVE Lookup(_, _, _, _)
Lookup(fr, i, x, imp) ==
  IF i = 0 THEN No
  ELSE IF x \in DOMAIN fr[i].loc /\ (~imp \/ x \in fr[i].imp) THEN Yes(fr[i].loc[x])
  ELSE Lookup(fr, fr[i].par, x, imp)
Has(S, x) == x \in DOMAIN S.fr[CurF(S)].loc
SetLoc(S, x, v, imp) == LET i == CurF(S) IN
  [S EXCEPT !.fr[i].loc = (x :> v) @@ @, !.fr[i].imp = IF imp THEN @ \cup {x} ELSE @]
SetVar(S, x, v, imp, r) == LET S1 == SetLoc(S, x, v, imp) IN IF Has(S, x) THEN LogS(S1, "NameAlreadyDeclared", r) ELSE S1
BindOne(S, x, v, r) == LET S1 == SetLoc(S, x, v, FALSE) IN IF Has(S, x) THEN LogS(S1, "PatternNameAlreadyBound", r) ELSE S1
Restrict(m, xs) == [k \in (DOMAIN m) \ xs |-> m[k]]
SeqSet(xs) == {xs[i] : i \in DOMAIN xs}
UnsetAll(S, xs) == LET i == CurF(S) IN [S EXCEPT !.fr[i].loc = Restrict(@, SeqSet(xs)), !.fr[i].imp = @ \ SeqSet(xs)]
FillAll(S, xs) == LET i == CurF(S) IN [S EXCEPT !.fr[i].loc = @ @@ [k \in SeqSet(xs) |-> VUnit]]
GetVar(S, x) == LET g == Lookup(S.fr, CurF(S), x, FALSE) IN IF g.ok THEN OkR(S, g.v) ELSE ErrR(S, "NoSuchVariable")
DoExport(S, x, v, r) == LET S1 == [S EXCEPT !.ex = EPut(@, x, v)] IN
                        IF HasKey(S.ex, x) THEN LogS(S1, "NameAlreadyExported", r) ELSE S1

--------------------------------------------------------------------------
(* native functions and their signatures *)
Pm(x, ty) == [x |-> x, imp |-> FALSE, ty |-> ty, hasd |-> FALSE, dv |-> VUnit]
PmD(x, ty, dv) == [x |-> x, imp |-> FALSE, ty |-> ty, hasd |-> TRUE, dv |-> dv]
NOCON == Pm("<anonymous>", Ty("none"))
Sg(pos, sp, nam, nsp, con) == [pos |-> pos, sp |-> sp, nam |-> nam, nsp |-> nsp, con |-> con]
SgC(x, ty) == Sg(<<>>, <<>>, <<>>, <<>>, Pm(x, ty))
SgPC(ps, x, ty) == Sg(ps, <<>>, <<>>, <<>>, Pm(x, ty))
SgP(ps) == Sg(ps, <<>>, <<>>, <<>>, NOCON)
LAny == TyList(Ty("any"))
DAny == TyDict(Ty("any"))
FNP == Pm("function", Ty("function"))
OptF == TyOpt(Ty("function"))
RXP == Pm("regex", Ty("regex"))
AB(ty) == <<Pm("a", ty), Pm("b", ty)>>
Nt(c, n, bind, sig) == [c |-> c, n |-> n, bind |-> bind, sig |-> sig]
NATS == <<
  Nt("bool", "and", "p", SgP(AB(Ty("bool")))),
  Nt("bool", "from", "", SgC("param", Ty("any"))),
  Nt("bool", "or", "p", SgP(AB(Ty("bool")))),
  Nt("bool", "negate", "c", SgC("param", Ty("bool"))),
  Nt("int", "add", "p", Sg(<<>>, <<Pm("args", TyList(Ty("int")))>>, <<>>, <<>>, NOCON)),
  Nt("int", "negate", "c", SgC("param", Ty("int"))),
  Nt("int", "parse", "", SgC("param", Ty("str"))),
  Nt("str", "ends_with", "p", SgP(AB(Ty("str")))),
  Nt("str", "escape_html", "c", SgC("str", Ty("str"))),
  Nt("str", "from", "", SgC("param", Ty("str"))),
  Nt("str", "is_empty", "c", SgC("str", Ty("str"))),
  Nt("str", "is_whitespace", "c", SgC("str", Ty("str"))),
  Nt("str", "len", "c", SgC("str", Ty("str"))),
  Nt("str", "lower", "c", SgC("str", Ty("str"))),
  Nt("str", "split", "c", SgPC(<<Pm("sep", Ty("str"))>>, "str", Ty("str"))),
  Nt("str", "starts_with", "p", SgP(AB(Ty("str")))),
  Nt("str", "trim", "c", SgC("str", Ty("str"))),
  Nt("str", "unique_id", "c", Sg(<<>>, <<>>, <<PmD("max_length", Ty("int"), VI(IOf(128)))>>, <<>>, Pm("base", Ty("str")))),
  Nt("str", "upper", "c", SgC("str", Ty("str"))),
  Nt("regex", "compile", "", SgC("source", Ty("str"))),
  Nt("regex", "count", "p", SgPC(<<RXP>>, "str", Ty("str"))),
  Nt("regex", "find", "p", SgPC(<<RXP>>, "str", Ty("str"))),
  Nt("regex", "find_all", "p", SgPC(<<RXP>>, "str", Ty("str"))),
  Nt("regex", "split", "p", SgPC(<<RXP>>, "str", Ty("str"))),
  Nt("regex", "test", "p", SgPC(<<RXP>>, "str", Ty("str"))),
  Nt("function", "bind", "p", Sg(<<FNP>>, <<Pm("args", LAny)>>, <<>>, <<Pm("kwargs", DAny)>>, Pm("param", Ty("any")))),
  Nt("function", "name", "c", SgC("function", Ty("function"))),
  Nt("html", "escape_html", "c", SgC("html", Ty("html"))),
  Nt("html", "is_empty", "c", SgC("html", Ty("html"))),
  Nt("html", "is_whitespace", "c", SgC("html", Ty("html"))),
  Nt("html", "parse", "", SgC("param", Ty("str"))),
  Nt("list", "all", "c", SgPC(<<FNP>>, "list", LAny)),
  Nt("list", "any", "c", SgPC(<<FNP>>, "list", LAny)),
  Nt("list", "contains", "c", SgPC(<<Pm("param", Ty("any"))>>, "list", LAny)),
  Nt("list", "enumerate", "c", Sg(<<>>, <<>>, <<PmD("from", Ty("int"), VI(IZ))>>, <<>>, Pm("list", LAny))),
  Nt("list", "filter", "c", SgPC(<<PmD("function", OptF, VUnit)>>, "list", LAny)),
  Nt("list", "find", "c", SgPC(<<FNP>>, "list", LAny)),
  Nt("list", "flat", "c", SgC("list", LAny)),
  Nt("list", "get", "c", SgPC(<<Pm("i", Ty("int"))>>, "list", LAny)),
  Nt("list", "html_nodes", "", SgC("html", Ty("html"))),
  Nt("list", "is_empty", "c", SgC("list", LAny)),
  Nt("list", "join", "c", SgPC(<<PmD("sep", Ty("html"), VUnit)>>, "list", TyList(Ty("html")))),
  Nt("list", "len", "c", SgC("list", LAny)),
  Nt("list", "map", "c", SgPC(<<FNP>>, "list", LAny)),
  Nt("list", "slice", "c", SgPC(<<Pm("a", Ty("int")), PmD("b", TyOpt(Ty("int")), VUnit)>>, "list", LAny)),
  Nt("list", "sorted", "c", Sg(<<>>, <<>>, <<PmD("key", OptF, VUnit), PmD("reversed", Ty("bool"), VB(FALSE))>>, <<>>, Pm("list", LAny))),
  Nt("list", "reversed", "", SgC("list", LAny)),
  Nt("dict", "get", "", SgPC(<<Pm("key", Ty("str"))>>, "dict", DAny)),
  Nt("dict", "is_empty", "", SgC("dict", DAny)),
  Nt("dict", "items", "", SgC("dict", DAny)),
  Nt("dict", "keys", "", SgC("dict", DAny)),
  Nt("dict", "len", "", SgC("dict", DAny)),
  Nt("dict", "new", "", Sg(<<>>, <<>>, <<>>, <<Pm("kwargs", DAny)>>, NOCON)),
  Nt("dict", "values", "", SgC("dict", DAny)),
  Nt("file", "list", "", SgC("path", Ty("str"))),
  Nt("file", "read", "", SgC("path", Ty("str"))),
  Nt("file", "write", "", SgPC(<<Pm("path", Ty("str"))>>, "html", Ty("html"))),
  Nt("net", "fetch_raw", "", SgC("path", Ty("str"))),
  Nt("net", "fetch_html", "", SgC("path", Ty("str"))),
  Nt("", "code", "", Sg(<<>>, <<>>, <<[PmD("language", TyOpt(Ty("str")), VUnit) EXCEPT !.imp = TRUE],
        PmD("code_block", Ty("bool"), VB(FALSE)), PmD("first_line_no", Ty("int"), VI(IOf(1)))>>, <<>>, Pm("source", Ty("str")))),
  Nt("", "import", "", SgC("path", Ty("str"))),
  Nt("", "include", "", SgC("path", Ty("str"))),
  Nt("", "raise", "", SgC("str", Ty("str"))) >>
NId(e) == IF e.c = "" THEN e.n ELSE e.c \o "::" \o e.n
NSIG == [id \in {NId(NATS[i]) : i \in DOMAIN NATS} |-> NATS[CHOOSE i \in DOMAIN NATS : NId(NATS[i]) = id].sig]
NBIND == [id \in DOMAIN NSIG |-> NATS[CHOOSE i \in DOMAIN NATS : NId(NATS[i]) = id].bind]
FNat(c, n) == [t |-> "func", fk |-> "nat", id |-> IF c = "" THEN n ELSE c \o "::" \o n, n |-> n]
NClass(c) == LET E == SelectSeq(NATS, LAMBDA e : e.c = c) IN VD([i \in DOMAIN E |-> E[i].n], [i \in DOMAIN E |-> FNat(c, E[i].n)])
NCLASSES == {"bool", "int", "str", "regex", "function", "html", "list", "dict", "file", "net"}
NFUNCS == {"code", "import", "include", "raise"}
NatFrame == [par |-> 0, imp |-> {}, loc |-> [c \in NCLASSES |-> NClass(c)] @@ [n \in NFUNCS |-> FNat("", n)]]

--------------------------------------------------------------------------
(* argument binding.  A binder: [pc positional arguments so far, sps, spn    *)
(* the spread ones, map parameter -> value].  Results [ok, v, e].             *)
PB0 == [pc |-> 0, sps |-> <<>>, spn |-> NoEx, map |-> NoMap]
BOk(b) == [ok |-> TRUE, v |-> b, e |-> ""]
BErr(e) == [ok |-> FALSE, v |-> PB0, e |-> e]
RECURSIVE FuncSig(_)
FuncSig(f) == CASE f.fk = "user" -> f.sig [] f.fk = "nat" -> NSIG[f.id] [] OTHER -> FuncSig(f.f)
Partials(f) == IF f.fk = "bound" THEN f.b ELSE PB0
NamIx(sig, x) == LET H == {i \in DOMAIN sig.nam : sig.nam[i].x = x} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : TRUE
MPut(m, x, v) == (x :> v) @@ m
AddPos(b, sig, v) ==
  LET n == b.pc + 1  b1 == [b EXCEPT !.pc = n] IN
  IF n <= Len(sig.pos) THEN LET c == Coerce(v, sig.pos[n].ty) IN
       IF c.ok THEN BOk([b1 EXCEPT !.map = MPut(@, sig.pos[n].x, c.v)]) ELSE BErr("ExpectedWas")
  ELSE IF sig.sp # <<>> THEN LET c == Coerce(v, Component(sig.sp[1].ty)) IN
       IF c.ok THEN BOk([b1 EXCEPT !.sps = Append(@, c.v)]) ELSE BErr("ExpectedWas")
  ELSE BOk(b1)
AddNamed(b, sig, x, v) ==
  LET i == NamIx(sig, x) IN
  IF i > 0 THEN LET c == Coerce(v, sig.nam[i].ty) IN
       IF ~c.ok THEN BErr("ExpectedWas") ELSE IF x \in DOMAIN b.map THEN BErr("ParamMultipleValues")
       ELSE BOk([b EXCEPT !.map = MPut(@, x, c.v)])
  ELSE IF sig.nsp # <<>> THEN LET c == Coerce(v, Component(sig.nsp[1].ty)) IN
       IF ~c.ok THEN BErr("ExpectedWas") ELSE IF HasKey(b.spn, x) THEN BErr("ParamMultipleValues")
       ELSE BOk([b EXCEPT !.spn = EPut(@, x, c.v)])
  ELSE BErr("NoSuchParameter")
AddContent(b, sig, v) ==
  LET x == sig.con.x IN
  IF x \in DOMAIN b.map THEN IF IsUnit(v) THEN BOk(b) ELSE BErr("ContentAlreadyBound")
  ELSE LET c == Coerce(v, sig.con.ty) IN
       IF ~c.ok THEN BErr("ExpectedWas") ELSE IF x = "<anonymous>" THEN BOk(b) ELSE BOk([b EXCEPT !.map = MPut(@, x, c.v)])
RECURSIVE AddAllPos(_, _, _, _)
AddAllPos(b, sig, xs, i) == IF i > Len(xs) THEN BOk(b)
  ELSE LET a == AddPos(b, sig, xs[i]) IN IF ~a.ok THEN a ELSE AddAllPos(a.v, sig, xs, i+1)
RECURSIVE AddAllNamed(_, _, _, _)
AddAllNamed(b, sig, d, i) == IF i > Len(d.ks) THEN BOk(b)
  ELSE LET a == AddNamed(b, sig, d.ks[i], d.vs[i]) IN IF ~a.ok THEN a ELSE AddAllNamed(a.v, sig, d, i+1)
TooMany(b, sig) == sig.sp = <<>> /\ b.pc > Len(sig.pos)
RECURSIVE Defaults(_, _, _, _)
Defaults(m, ps, i, e) == IF i > Len(ps) THEN BOk(m)
  ELSE IF e = "ParamMissing" /\ ps[i].x \in DOMAIN m THEN Defaults(m, ps, i+1, e)
  ELSE IF ps[i].hasd THEN Defaults(MPut(m, ps[i].x, ps[i].dv), ps, i+1, e) ELSE BErr(e)
\* the finished bindings, parameter -> value
Build(b, sig) ==
  IF TooMany(b, sig) THEN BErr("TooManyPositionalArgs")
  ELSE LET c1 == IF sig.sp = <<>> THEN Yes(0) ELSE Coerce(VL(b.sps), sig.sp[1].ty)
           m1 == IF sig.sp = <<>> THEN b.map ELSE MPut(b.map, sig.sp[1].x, c1.v)
           c2 == IF sig.nsp = <<>> THEN Yes(0) ELSE Coerce(VD(b.spn.ks, b.spn.vs), sig.nsp[1].ty)
           m2 == IF sig.nsp = <<>> THEN m1 ELSE MPut(m1, sig.nsp[1].x, c2.v)
       IN  IF ~c1.ok \/ ~c2.ok THEN BErr("ExpectedWas")
           ELSE LET p == Defaults(m2, sig.pos, b.pc + 1, "NotEnoughPositionalArgs") IN
                IF ~p.ok THEN p ELSE Defaults(p.v, sig.nam, 1, "ParamMissing")
RECURSIVE BindImplicit(_, _, _, _)
\* implicit parameters not given: from the caller's implicit variables
BindImplicit(S, b, ps, i) ==
  IF i > Len(ps) THEN BOk(b)
  ELSE IF ~ps[i].imp \/ ps[i].x \in DOMAIN b.map THEN BindImplicit(S, b, ps, i+1)
  ELSE LET g == Lookup(S.fr, CurF(S), ps[i].x, TRUE) IN
       IF g.ok THEN LET c == Coerce(g.v, ps[i].ty) IN
                    IF c.ok THEN BindImplicit(S, [b EXCEPT !.map = MPut(@, ps[i].x, c.v)], ps, i+1) ELSE BErr("ExpectedWas")
       ELSE IF ps[i].hasd THEN BindImplicit(S, [b EXCEPT !.map = MPut(@, ps[i].x, ps[i].dv)], ps, i+1)
       ELSE BErr(IF Lookup(S.fr, CurF(S), ps[i].x, FALSE).ok THEN "ParamExistsButNotImplicit" ELSE "ParamMissingImplicit")
\* a call with content only, as made for callbacks and code fences
Synthetic(S, f, imps, v) ==
  LET sig == FuncSig(f)
      b0 == IF imps THEN BindImplicit(S, Partials(f), sig.nam, 1) ELSE BOk(Partials(f))
      b1 == IF b0.ok THEN AddContent(b0.v, sig, v) ELSE b0
  IN  IF b1.ok THEN Build(b1.v, sig) ELSE b1
BoundF(f, b) == [t |-> "func", fk |-> "bound", n |-> f.n, f |-> f, b |-> b]
BindTo(f, how, v) ==
  LET sig == FuncSig(f)
      b == IF how = "p" THEN AddPos(Partials(f), sig, v) ELSE AddContent(Partials(f), sig, v)
  IN  IF ~b.ok THEN b ELSE IF TooMany(b.v, sig) THEN BErr("TooManyPositionalArgs") ELSE BOk(BoundF(f, b.v))
BindPartial(f, args, kw, con) ==
  LET sig == FuncSig(f)
      a == AddAllPos(Partials(f), sig, args, 1)
      k == IF a.ok THEN AddAllNamed(a.v, sig, kw, 1) ELSE a
      c == IF k.ok /\ ~IsUnit(con) THEN AddContent(k.v, sig, con) ELSE k
  IN  IF ~c.ok THEN c ELSE IF TooMany(c.v, sig) THEN BErr("TooManyPositionalArgs") ELSE BOk(BoundF(f, c.v))

--------------------------------------------------------------------------
(* sorting *)
RECURSIVE SLt(_, _, _)
SLt(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                ELSE LET x == CH[SubSeq(a, i, i)].code  y == CH[SubSeq(b, i, i)].code IN
                     IF x # y THEN x < y ELSE SLt(a, b, i+1)
KLt(a, b) == IF a.t = "int" THEN ILt(a.i, b.i) ELSE SLt(a.s, b.s, 1)
\* insert kv after everything not greater than it (rev: not less than it)
RECURSIVE Ins(_, _, _, _)
Ins(out, kv, rev, i) ==
  IF i = 0 THEN <<kv>> \o out
  ELSE IF (IF rev THEN KLt(out[i][1], kv[1]) ELSE KLt(kv[1], out[i][1])) THEN Ins(out, kv, rev, i-1)
  ELSE SubSeq(out, 1, i) \o <<kv>> \o SubSeq(out, i+1, Len(out))
RECURSIVE SortKv(_, _, _, _)
SortKv(kvs, rev, i, out) == IF i > Len(kvs) THEN out ELSE SortKv(kvs, rev, i+1, Ins(out, kvs[i], rev, Len(out)))

HtmlOf(v) == IF v.t = "str" THEN HText(v.s) ELSE v.h
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
SliceOf(xs, a, b) ==
  LET n == Len(xs)
      s == IF a < 0 THEN MaxI(0, a + n) ELSE MinI(a, n)
      e == IF b < 0 THEN MaxI(0, b + n) ELSE MinI(b, n)
  IN  SubSeq(xs, MinI(s, e) + 1, e)
\* the element at a (possibly negative) index: [ok, v]
ListGet(xs, i) == LET n == Len(xs)  k == ISmall(i) IN
  IF k >= 0 /\ k < n THEN Yes(xs[k+1]) ELSE IF k < 0 /\ k >= -n THEN Yes(xs[k+n+1]) ELSE No
RECURSIVE SumInts(_, _, _)
SumInts(xs, i, acc) == IF i > Len(xs) THEN Yes(VI(acc))
  ELSE LET a == IAdd(acc, xs[i].i) IN IF InI64(a) THEN SumInts(xs, i+1, a) ELSE No
Enumerated(xs, from) ==
  LET Ns == [i \in DOMAIN xs |-> IAdd(IOf(i-1), from)] IN
  IF \A i \in DOMAIN Ns : InI64(Ns[i]) THEN Yes(VL([i \in DOMAIN xs |-> VL(<<VI(Ns[i]), xs[i]>>)])) ELSE No
RECURSIVE FlatL(_, _, _)
FlatL(xs, i, acc) == IF i > Len(xs) THEN acc ELSE FlatL(xs, i+1, IF xs[i].t = "list" THEN acc \o xs[i].xs ELSE Append(acc, xs[i]))
Truthy(v) == CASE v.t = "bool" -> v.b [] v.t = "int" -> v.i # IZ [] v.t = "str" -> v.s # ""
               [] v.t = "html" -> v.h.k # "empty" [] v.t = "list" -> v.xs # <<>> [] v.t = "dict" -> v.ks # <<>> [] OTHER -> TRUE
FromE(S, c, e) == IF c.ok THEN OkR(S, c.v) ELSE ErrR(S, e)
FromB(S, b) == IF b.ok THEN OkR(S, b.v) ELSE ErrR(S, b.e)

--------------------------------------------------------------------------
RECURSIVE Eval(_, _, _)
RECURSIVE CallWith(_, _, _, _, _)
RECURSIVE CompileSeq(_, _, _, _)
RECURSIVE LoadCached(_, _)
RECURSIVE EvalName(_, _, _)
RECURSIVE EvalFnDef(_, _)

Callback(S, f, v, ty, r) ==
  LET b == Synthetic(S, f, FALSE, v) IN IF ~b.ok THEN ErrR(S, b.e) ELSE CallWith(S, f, b.v, ty, r)
\* all / any / find / filter / map over a list; out is what is kept so far
RECURSIVE Over(_, _, _, _, _, _, _)
Over(S, op, f, xs, i, out, r) ==
  IF i > Len(xs) THEN OkR(S, CASE op = "all" -> VB(TRUE) [] op = "any" -> VB(FALSE) [] op = "find" -> VUnit [] OTHER -> VL(out))
  ELSE LET c == Callback(S, f, xs[i], Ty(IF op \in {"map", "key"} THEN "any" ELSE "bool"), r) IN
       IF ~c.ok THEN c
       ELSE CASE op = "all" /\ ~c.v.b -> OkR(c.s, VB(FALSE))
              [] op = "any" /\ c.v.b -> OkR(c.s, VB(TRUE))
              [] op = "find" /\ c.v.b -> OkR(c.s, xs[i])
              [] OTHER -> Over(c.s, op, f, xs, i+1,
                   CASE op = "map" -> Append(out, c.v) [] op = "filter" /\ c.v.b -> Append(out, xs[i]) [] OTHER -> out, r)
\* sort keys one by one: each must be an int or a str, all alike
RECURSIVE SortKeys(_, _, _, _, _, _)
SortKeys(S, key, xs, i, out, r) ==
  IF i > Len(xs) THEN OkR(S, out)
  ELSE LET k == IF IsUnit(key) THEN OkR(S, xs[i]) ELSE Callback(S, key, xs[i], Ty("any"), r) IN
       IF ~k.ok THEN k
       ELSE IF k.v.t \notin {"int", "str"} THEN ErrR(k.s, "SortKeyInvalid")
       ELSE IF out # <<>> /\ out[1][1].t # k.v.t THEN ErrR(k.s, "SortKeyHeterogeneous")
       ELSE SortKeys(k.s, key, xs, i+1, Append(out, <<k.v, xs[i]>>), r)

\* an HTML document parsed by a library, as a value; facts about that come with the case
RECURSIVE DomHtml(_)
DomHtml(t) ==
  CASE t.k = "text" -> HText(t.s)
    [] t.k = "doc" -> HSeq([i \in DOMAIN t.ch |-> DomHtml(t.ch[i])])
    [] t.k = "tag" -> HTag(Low(t.s), [i \in DOMAIN t.as |-> Attr(Low(t.as[i][1]), t.as[i][2])], HSeq([i \in DOMAIN t.ch |-> DomHtml(t.ch[i])]))
    [] OTHER -> HE
\* the facts about code in another language, and whether there should be some
HlFacts(S, l, src) == {i \in DOMAIN S.hl : S.hl[i].lang = l /\ S.hl[i].src = src}
CodeTag(S, lang0, block, from, src0, r) ==
  LET dflt == IF IsUnit(lang0) THEN "none" ELSE lang0.s
      ls == IF block THEN LangHint(src0, dflt) ELSE <<dflt, src0>>
      src == FixIndent(ls[2])
      foreign == ls[1] \notin {"none", "papyri"} /\ OtherLanguage(Low(ls[1]))
      fs == IF foreign THEN HlFacts(S, ls[1], src) ELSE {}
      known == foreign \/ ls[1] \in {"none", "papyri"}
      lines == IF ls[1] = "papyri" THEN PapyriLines(src) ELSE IF fs # {} THEN ForeignLines(S.hl[CHOOSE i \in fs : TRUE]) ELSE PlainLines(src)
      S1 == IF known THEN (IF foreign /\ fs = {} THEN [S EXCEPT !.deep = TRUE] ELSE S) ELSE Log(S, "HighlightLanguageUnknown", r)
      as == IF known /\ ls[1] # "none" THEN <<Attr("class", "syntax-highlight lang-" \o ls[1])>> ELSE <<>>
      S2 == IF ~block /\ from # IOf(1) THEN Log(S1, "InlineHighlightEnumerate", r) ELSE S1
      S3 == IF ~block /\ Len(lines) > 1 THEN Log(S2, "InlineHighlightMultiline", r) ELSE S2
  IN  OkR(S3, VH(HTag("code", as, IF block THEN Numbered(lines, from) ELSE HSeq(lines))))

RECURSIVE SetVars(_, _, _, _)
SetVars(S, d, i, r) == IF i > Len(d.ks) THEN S ELSE SetVars(SetVar(S, d.ks[i], d.vs[i], FALSE, r), d, i+1, r)

\* a native function applied to its parameters
\* HTML source: what the HTML parser makes of it comes with the case
ParseHtml(S, src) ==
  LET F == {i \in DOMAIN S.dom : S.dom[i].src = src} IN
  IF F = {} THEN ErrR([S EXCEPT !.deep = TRUE], "Unmodelled")
  ELSE LET f == S.dom[CHOOSE i \in F : TRUE] IN
       IF \E i \in DOMAIN f.errs : f.errs[i] # "Duplicate attribute" THEN ErrR(S, "ParseHtmlError") ELSE OkR(S, VH(DomHtml(f.tree)))

(* The network: what answers at each address, and what was asked of it.  An  *)
(* answer is taken whatever its status; redirections are followed.            *)
IsHttp(url) == HasPrefix(url, "http://") /\ Len(url) > 7
RECURSIVE Request(_, _, _)
Request(web, url, n) == \* [ok, body, asked]
  IF ~IsHttp(url) \/ n > 11 THEN [ok |-> FALSE, body |-> "", asked |-> <<>>]
  ELSE LET I == {i \in DOMAIN web : web[i].url = url}
           p == IF I = {} THEN [k |-> "page", body |-> "missing"] ELSE web[CHOOSE i \in I : \A j \in I : i <= j]
       IN  CASE p.k = "redir" -> LET g == Request(web, p.body, n+1) IN [g EXCEPT !.asked = <<url>> \o @]
             [] p.k = "drop" -> [ok |-> FALSE, body |-> "", asked |-> <<url>>]
             [] OTHER -> [ok |-> TRUE, body |-> p.body, asked |-> <<url>>]

Native(S, id, m, r) ==
  CASE id = "bool::and" -> OkR(S, VB(m["a"].b /\ m["b"].b))
    [] id = "bool::or" -> OkR(S, VB(m["a"].b \/ m["b"].b))
    [] id = "bool::from" -> OkR(S, VB(Truthy(m["param"])))
    [] id = "bool::negate" -> OkR(S, VB(~m["param"].b))
    [] id = "int::add" -> FromE(S, SumInts(m["args"].xs, 1, IZ), "IntegerOverflow")
    [] id = "int::negate" -> LET n == INeg(m["param"].i) IN IF InI64(n) THEN OkR(S, VI(n)) ELSE ErrR(S, "IntegerOverflow")
    [] id = "int::parse" -> LET n == IParse(m["param"].s) IN IF n.ok THEN OkR(S, VI(n.v)) ELSE ErrR(S, "ParseIntError")
    [] id = "str::ends_with" -> OkR(S, VB(HasSuffix(m["a"].s, m["b"].s)))
    [] id = "str::starts_with" -> OkR(S, VB(HasPrefix(m["a"].s, m["b"].s)))
    [] id = "str::escape_html" -> OkR(S, VS(Escape(m["str"].s, FALSE)))
    [] id = "str::from" -> OkR(S, m["param"])
    [] id = "str::is_empty" -> OkR(S, VB(m["str"].s = ""))
    [] id = "str::is_whitespace" -> OkR(S, VB(AllWs(m["str"].s)))
    [] id = "str::len" -> OkR(S, VI(IOf(ByteLen(m["str"].s))))
    [] id = "str::lower" -> OkR(S, VS(Low(m["str"].s)))
    [] id = "str::upper" -> OkR(S, VS(Upp(m["str"].s)))
    [] id = "str::trim" -> OkR(S, VS(Trim(m["str"].s)))
    [] id = "str::split" -> LET p == SplitBy(m["str"].s, m["sep"].s) IN OkR(S, VL([i \in DOMAIN p |-> VS(p[i])]))
    [] id = "str::unique_id" ->
         LET n == ISmall(m["max_length"].i) IN
         IF n <= 0 THEN ErrR(S, "ParamMustBePositive")
         ELSE LET u == UniqueId(S.uid, m["base"].s, n) IN OkR([S EXCEPT !.uid = @ \cup {u}], VS(u))
    [] id = "regex::compile" -> LET x == CompileRegex(m["source"].s)
                                      S2 == IF RxForeign(m["source"].s) THEN [S EXCEPT !.deep = TRUE] ELSE S
                                  IN  IF x.t = "err" THEN ErrR(S2, x.e) ELSE OkR(S2, x)
    [] id = "regex::count" -> OkR(S, VI(IOf(Len(RxFindAll(m["regex"], m["str"].s).xs))))
    [] id = "regex::find" -> OkR(S, RxFind(m["regex"], m["str"].s))
    [] id = "regex::find_all" -> OkR(S, RxFindAll(m["regex"], m["str"].s))
    [] id = "regex::split" -> OkR(S, RxSplit(m["regex"], m["str"].s))
    [] id = "regex::test" -> OkR(S, VB(XFind(Chars(m["str"].s), m["regex"].bs, m["regex"].n, 1).ok))
    [] id = "function::bind" -> FromB(S, BindPartial(m["function"], m["args"].xs, m["kwargs"], m["param"]))
    [] id = "function::name" -> OkR(S, VS(m["function"].n))
    [] id = "html::escape_html" -> OkR(S, VS(Render(HtmlOf(m["html"]))))
    [] id = "html::is_empty" -> OkR(S, VB(HtmlOf(m["html"]).k = "empty"))
    [] id = "html::is_whitespace" -> OkR(S, VB(HIsWs(HtmlOf(m["html"]))))
    [] id \in {"list::all", "list::any", "list::find", "list::map"} ->
         Over(S, SubSeq(id, 7, Len(id)), m["function"], m["list"].xs, 1, <<>>, r)
    [] id = "list::filter" ->
         IF IsUnit(m["function"]) THEN OkR(S, VL(SelectSeq(m["list"].xs, LAMBDA v : ~IsUnit(v))))
         ELSE Over(S, "filter", m["function"], m["list"].xs, 1, <<>>, r)
    [] id = "list::contains" -> OkR(S, VB(\E i \in DOMAIN m["list"].xs : VEq(m["list"].xs[i], m["param"])))
    [] id = "list::enumerate" -> FromE(S, Enumerated(m["list"].xs, m["from"].i), "IntegerOverflow")
    [] id = "list::flat" -> OkR(S, VL(FlatL(m["list"].xs, 1, <<>>)))
    [] id = "list::get" -> FromE(S, ListGet(m["list"].xs, m["i"].i), "IndexOutOfRange")
    [] id = "list::html_nodes" -> LET ns == HNodes(HtmlOf(m["html"])) IN OkR(S, VL([i \in DOMAIN ns |-> VH(ns[i])]))
    [] id = "list::is_empty" -> OkR(S, VB(m["list"].xs = <<>>))
    [] id = "list::join" ->
         LET xs == m["list"].xs  sep == HtmlOf(m["sep"])  n == Len(xs) IN
         OkR(S, IF n = 0 THEN VUnit ELSE VH(HSeq([i \in 1..(2*n-1) |-> IF i % 2 = 0 THEN sep ELSE HtmlOf(xs[(i+1) \div 2])])))
    [] id = "list::len" -> OkR(S, VI(IOf(Len(m["list"].xs))))
    [] id = "list::slice" -> OkR(S, VL(SliceOf(m["list"].xs, ISmall(m["a"].i), IF IsUnit(m["b"]) THEN Len(m["list"].xs) ELSE ISmall(m["b"].i))))
    [] id = "list::sorted" ->
         LET k == SortKeys(S, m["key"], m["list"].xs, 1, <<>>, r) IN
         IF ~k.ok THEN k ELSE LET o == SortKv(k.v, m["reversed"].b, 1, <<>>) IN OkR(k.s, VL([i \in DOMAIN o |-> o[i][2]]))
    [] id = "list::reversed" -> LET xs == m["list"].xs IN OkR(S, VL([i \in DOMAIN xs |-> xs[Len(xs)+1-i]]))
    [] id = "dict::get" -> IF HasKey(m["dict"], m["key"].s) THEN OkR(S, DGet(m["dict"], m["key"].s)) ELSE ErrR(S, "NoSuchAttribute")
    [] id = "dict::is_empty" -> OkR(S, VB(m["dict"].ks = <<>>))
    [] id = "dict::items" -> LET d == m["dict"] IN OkR(S, VL([i \in DOMAIN d.ks |-> VL(<<VS(d.ks[i]), d.vs[i]>>)]))
    [] id = "dict::keys" -> LET d == m["dict"] IN OkR(S, VL([i \in DOMAIN d.ks |-> VS(d.ks[i])]))
    [] id = "dict::values" -> OkR(S, VL(m["dict"].vs))
    [] id = "dict::len" -> OkR(S, VI(IOf(Len(m["dict"].ks))))
    [] id = "dict::new" -> OkR(S, m["kwargs"])
    [] id = "file::list" ->
         LET p == Resolve(r[1], m["path"].s, FALSE)  c == Canon(S.fs, p) IN
         IF ~c.ok THEN AR(LogS([S EXCEPT !.deep = @ \/ c.v = <<"..">>], "IOError", r))   \* what is outside is not known
         ELSE LET ls == ListPapyri(S.fs, c.v)  b == TrimSlashes(m["path"].s) IN
              OkR(S, VL([i \in DOMAIN ls |-> VS(b \o "/" \o SubSeq(ls[i], 1, Len(ls[i]) - 7))]))
    [] id = "file::read" ->
         LET t == ReadFile(S.fs, Resolve(r[1], m["path"].s, FALSE)) IN
         IF t.ok THEN OkR(S, VS(t.v)) ELSE ErrR(S, "FileReadError")
    [] id = "file::write" ->
         IF ~S.of.on THEN ErrR(S, "WriteFileNotAllowed")
         ELSE LET p == OutPath(S.of.base, m["path"].s) IN
              IF ~p.ok THEN ErrR(S, "PathNotInOutDir")
              ELSE OkR([S EXCEPT !.of.fs = Append(@, <<p.v, HtmlOf(m["html"])>>)], VUnit)
    [] id \in {"net::fetch_raw", "net::fetch_html"} ->
         IF ~S.net.on THEN ErrR(S, "NetworkDisabled")
         ELSE LET g == Request(S.net.web, m["path"].s, 1)  S1 == [S EXCEPT !.net.asked = @ \o g.asked] IN
              IF ~g.ok THEN ErrR(S1, "NetworkError")
              ELSE IF id = "net::fetch_raw" THEN OkR(S1, VS(g.body)) ELSE ParseHtml(S1, g.body)
    [] id = "code" -> CodeTag(S, m["language"], m["code_block"].b, m["first_line_no"].i, m["source"].s, r)
    [] id = "import" ->
         LET l == LoadCached(S, Resolve(r[1], m["path"].s, TRUE)) IN
         IF ~l.ok THEN l ELSE OkR(l.s, VD(l.v.ex.ks, l.v.ex.vs))
    [] id = "include" ->
         LET l == LoadCached(S, Resolve(r[1], m["path"].s, TRUE)) IN
         IF ~l.ok THEN l ELSE OkR(SetVars(l.s, l.v.ex, 1, r), VH(l.v.out))
    [] id = "raise" -> ErrR(S, "Raised")
    [] id = "html::parse" -> ParseHtml(S, m["param"].s)
    [] OTHER -> ErrR([S EXCEPT !.deep = TRUE], "Unmodelled")

CallWith(S, f, m, ty, r) ==
  CASE f.fk = "user" ->
         IF Len(S.st) > MAXDEPTH \/ Len(S.fr) > MAXFRAMES THEN ErrR([S EXCEPT !.deep = TRUE], "AlreadyReported")
         ELSE LET S1 == NewFrame(S, f.cl, m)
                  S2 == [S1 EXCEPT !.st = Append(@, [f |-> Len(S1.fr), has |-> TRUE, n |-> "@" \o f.n, r |-> r])]
              IN  PopR(Eval(S2, f.b, ty))
    [] f.fk = "nat" -> RepE(CoR(Native(S, f.id, m, r), ty), r)
    [] OTHER -> CallWith(S, f.f, m, ty, r)

--------------------------------------------------------------------------
(* names *)
ClassOfVal(v) == CASE v.t = "func" -> "function" [] v.t = "dict" -> "" [] OTHER -> v.t
NativeAttr(S, v, x) ==
  LET id == ClassOfVal(v) \o "::" \o x IN
  IF ClassOfVal(v) # "" /\ id \in DOMAIN NBIND /\ NBIND[id] # ""
  THEN FromB(S, BindTo(FNat(ClassOfVal(v), x), NBIND[id], v)) ELSE ErrR(S, "NoSuchAttribute")
EvalName(S, n, ty) ==
  LET x == CASE n.t = "var" -> GetVar(S, n.x)
             [] n.t = "attr" ->
                  LET o == EvalName(S, n.o, Ty("any")) IN
                  IF ~o.ok THEN o
                  ELSE IF IsUnit(o.v) /\ n.q THEN OkR(o.s, VUnit)
                  ELSE IF o.v.t = "dict" THEN (IF HasKey(o.v, n.x) THEN OkR(o.s, DGet(o.v, n.x)) ELSE ErrR(o.s, "NoSuchAttribute"))
                  ELSE IF o.v.t = "html" THEN (IF o.v.h.k = "tag" /\ n.x = "tag_name" THEN OkR(o.s, VS(o.v.h.n)) ELSE NativeAttr(o.s, o.v, n.x))
                  ELSE NativeAttr(o.s, o.v, n.x)
             [] OTHER ->
                  LET o == EvalName(S, n.o, IF n.q THEN TyOpt(LAny) ELSE LAny) IN
                  IF ~o.ok THEN o
                  ELSE IF IsUnit(o.v) THEN OkR(o.s, VUnit) ELSE FromE(o.s, ListGet(o.v.xs, n.n), "IndexOutOfRange")
  IN  RepE(CoR(x, ty), n.r)

--------------------------------------------------------------------------
(* function definitions *)
RECURSIVE EvalParams(_, _, _, _)
EvalParams(S, ps, i, out) ==
  IF i > Len(ps) THEN OkR(S, out)
  ELSE LET p == ps[i]
           ty == IF p.q THEN TyOpt(p.ty) ELSE p.ty
           d == IF p.hasd THEN Eval(S, p.de, ty) ELSE AR(S)
       IN  EvalParams(d.s, ps, i+1, Append(out, [x |-> p.x, imp |-> p.imp, ty |-> ty, hasd |-> d.ok \/ p.q,
                                                   dv |-> IF d.ok THEN d.v ELSE VUnit]))
RECURSIVE NamPut(_, _, _)
NamPut(ps, i, out) == IF i > Len(ps) THEN out
  ELSE LET H == {j \in DOMAIN out : out[j].x = ps[i].x} IN
       NamPut(ps, i+1, IF H = {} THEN Append(out, ps[i]) ELSE [out EXCEPT ![CHOOSE j \in H : TRUE] = ps[i]])
EvalSig(S, g) ==
  LET a == g.pc  b == a + (IF g.psp THEN 1 ELSE 0)  c == b + g.nc  d == c + (IF g.nsp THEN 1 ELSE 0)
      e == d + (IF g.hasc THEN 1 ELSE 0)
      p == EvalParams(S, SubSeq(g.ps, 1, e), 1, <<>>)
  IN  OkR(p.s, Sg(SubSeq(p.v, 1, a), SubSeq(p.v, a+1, b), NamPut(SubSeq(p.v, b+1, c), 1, <<>>), SubSeq(p.v, c+1, d),
                  IF g.hasc THEN p.v[e] ELSE NOCON))
EvalFnDef(S, e) == LET g == EvalSig(S, e.sig) IN
  OkR(g.s, [t |-> "func", fk |-> "user", n |-> IF e.x = "" THEN "<anonymous>" ELSE e.x, cl |-> CurF(S), sig |-> g.v, b |-> e.b])

--------------------------------------------------------------------------
(* calls *)
ArgHint(sig, b, a) ==
  IF a.x = "" THEN (IF b.pc + 1 <= Len(sig.pos) THEN sig.pos[b.pc+1].ty ELSE IF sig.sp # <<>> THEN Component(sig.sp[1].ty) ELSE Ty("any"))
  ELSE LET i == NamIx(sig, a.x) IN
       IF i > 0 THEN sig.nam[i].ty ELSE IF sig.nsp # <<>> THEN Component(sig.nsp[1].ty) ELSE Ty("any")
EvalArg(S, sig, b, a) ==
  LET hint == CASE a.sp = "pos" -> LAny [] a.sp = "named" -> DAny [] OTHER -> ArgHint(sig, b, a)
      v == Eval(S, a.e, hint)
  IN  IF ~v.ok THEN RepE(v, a.r)
      ELSE RepE(FromB(v.s, CASE a.sp = "pos" -> AddAllPos(b, sig, v.v.xs, 1)
                             [] a.sp = "named" -> AddAllNamed(b, sig, v.v, 1)
                             [] a.x = "" -> AddPos(b, sig, v.v)
                             [] OTHER -> AddNamed(b, sig, a.x, v.v)), a.r)
RECURSIVE EvalArgs(_, _, _, _, _)
EvalArgs(S, sig, b, as, i) == IF i > Len(as) THEN OkR(S, b)
  ELSE LET x == EvalArg(S, sig, b, as[i]) IN IF ~x.ok THEN x ELSE EvalArgs(x.s, sig, x.v, as, i+1)
BindCall(S, f, e) ==
  LET sig == FuncSig(f)  a == EvalArgs(S, sig, Partials(f), e.as, 1) IN
  IF ~a.ok THEN a
  ELSE LET m == BindImplicit(a.s, a.v, sig.nam, 1) IN
       IF ~m.ok THEN ErrR(a.s, m.e)
       ELSE LET c == Eval(a.s, e.c, IF sig.con.x \in DOMAIN m.v.map THEN Ty("any") ELSE sig.con.ty) IN
            IF ~c.ok THEN c
            ELSE LET k == RepE(FromB(c.s, AddContent(m.v, sig, c.v)), e.c.r) IN
                 IF ~k.ok THEN k ELSE FromB(k.s, Build(k.v, sig))
EvalCall(S, e, ty) ==
  LET f == EvalName(S, e.fn, IF Coalesces(e.fn) THEN TyOpt(Ty("function")) ELSE Ty("function")) IN
  IF ~f.ok THEN f
  ELSE IF IsUnit(f.v) THEN OkR(f.s, VUnit)
  ELSE LET m == RepE(BindCall(f.s, f.v, e), e.r) IN
       IF ~m.ok THEN m ELSE CallWith(m.s, f.v, m.v, ty, e.r)

--------------------------------------------------------------------------
(* @let, @export *)
RECURSIVE LetVars(_, _, _, _, _)
LetVars(S, vs, i, imp, exported) ==
  IF i > Len(vs) THEN OkR(S, VUnit)
  ELSE LET v == Eval(S, vs[i].e, Ty("any"))  r == vs[i].e.r IN
       IF ~v.ok THEN v
       ELSE LET S1 == IF exported THEN DoExport(v.s, vs[i].x, v.v, r) ELSE v.s IN
            LetVars(SetVar(S1, vs[i].x, v.v, imp, r), vs, i+1, imp, exported)
EvalLet(S, e, ty, exported) ==
  LET l == LetVars(Push(S), e.vs, 1, e.imp, exported) IN
  PopR(IF ~l.ok THEN l ELSE Eval(l.s, e.c, ty))
RECURSIVE ExportNames(_, _, _)
ExportNames(S, vs, i) ==
  IF i > Len(vs) THEN OkR(S, VUnit)
  ELSE LET v == Eval(S, vs[i].e, Ty("any")) IN
       IF ~v.ok THEN v ELSE ExportNames(DoExport(v.s, vs[i].x, v.v, vs[i].e.r), vs, i+1)
EvalExport(S, n) ==
  CASE n.k = "names" -> ExportNames(S, n.vs, 1)
    [] n.k = "let" -> EvalLet(S, n.e, Ty("none"), TRUE)
    [] OTHER -> LET f == EvalFnDef(S, n.e)  r == n.e.sig.r IN
                OkR(SetVar(DoExport(f.s, n.e.x, f.v, r), n.e.x, f.v, FALSE, r), VUnit)

--------------------------------------------------------------------------
(* @match.  A result's ok says whether the pattern matched. *)
NoMatch(S) == ErrR(S, "")
Match(S) == OkR(S, VUnit)
RECURSIVE BindPat(_, _, _)
RECURSIVE BindAll(_, _, _, _)
BindAll(S, ps, vs, i) == IF i > Len(ps) THEN Match(S)
  ELSE LET x == BindPat(S, ps[i], vs[i]) IN IF ~x.ok THEN x ELSE BindAll(x.s, ps, vs, i+1)
\* mk makes the value of a run of elements: a list, or HTML
Run(k, vs) == IF k = "plist" THEN VL(vs) ELSE VH(HSeq([i \in DOMAIN vs |-> HtmlOf(vs[i])]))
BindSeq(S, p, vs) ==
  LET n == Len(vs)  k == Len(p.ps) IN
  IF p.at = 0 THEN (IF n # k THEN NoMatch(S) ELSE BindAll(S, p.ps, vs, 1))
  ELSE IF n + 1 < k THEN NoMatch(S)
  ELSE LET j == n - (k - p.at)       \* elements 1..at-1, at..j, j+1..n
           a == BindAll(S, SubSeq(p.ps, 1, p.at - 1), vs, 1)
           b == IF a.ok THEN BindPat(a.s, p.ps[p.at], Run(p.t, SubSeq(vs, p.at, j))) ELSE a
       IN  IF b.ok THEN BindAll(b.s, SubSeq(p.ps, p.at + 1, k), SubSeq(vs, j + 1, n), 1) ELSE b
RECURSIVE BindKeys(_, _, _, _)
BindKeys(S, p, d, i) == IF i > Len(p.xs) THEN Match(S)
  ELSE IF ~HasKey(d, p.xs[i]) THEN NoMatch(S)
  ELSE LET x == BindPat(S, p.ps[i], DGet(d, p.xs[i])) IN IF ~x.ok THEN x ELSE BindKeys(x.s, p, d, i+1)
RECURSIVE BindCaps(_, _, _, _, _)
BindCaps(S, C, p, caps, i) == IF i > Len(p.xs) THEN S ELSE BindCaps(BindOne(S, p.xs[i], XStr(C, caps[i]), p.xr[i]), C, p, caps, i+1)
BindPat(S, p, v) ==
  CASE p.t = "pany" -> Match(S)
    [] p.t = "pnone" -> IF IsUnit(v) THEN Match(S) ELSE NoMatch(S)
    [] p.t = "plit" -> IF v.t = "str" /\ v.s = p.s THEN Match(S) ELSE NoMatch(S)
    [] p.t = "pvar" -> Match(BindOne(S, p.x, v, p.r))
    [] p.t = "pand" -> LET a == BindPat(S, p.a, v) IN IF a.ok THEN BindPat(a.s, p.b, v) ELSE a
    [] p.t = "por" -> LET a == BindPat(S, p.a, v)
                          b == IF a.ok THEN a ELSE BindPat(UnsetAll(a.s, p.xs), p.b, v)
                      IN  IF b.ok THEN Match(FillAll(b.s, p.xs)) ELSE b
    [] p.t = "peq" -> LET o == Eval(S, p.e, Ty("any")) IN IF o.ok /\ VEq(v, o.v) THEN Match(o.s) ELSE NoMatch(o.s)
    [] p.t = "ptype" -> IF HasType(v, p.ty) THEN Match(S) ELSE NoMatch(S)
    [] p.t = "ptypeof" -> Match(BindOne(S, p.x, VS(TyStr(TypeOf(v))), p.r))
    [] p.t = "plist" -> IF v.t # "list" THEN NoMatch(S) ELSE BindSeq(S, p, v.xs)
    [] p.t = "phtml" -> IF v.t \notin {"html", "str"} THEN NoMatch(S)
                        ELSE LET ns == HNodes(HtmlOf(v)) IN BindSeq(S, p, [i \in DOMAIN ns |-> VH(ns[i])])
    [] p.t = "pdict" ->
         IF v.t # "dict" THEN NoMatch(S)
         ELSE IF ~p.sp /\ Len(v.ks) # Len(p.xs) THEN NoMatch(S)
         ELSE LET a == BindKeys(S, p, v, 1) IN
              IF ~a.ok \/ ~p.sp \/ p.rest.t = "pany" THEN a
              ELSE LET I == SelectSeq([i \in DOMAIN v.ks |-> i], LAMBDA i : IndexOf(p.xs, v.ks[i]) = 0) IN
                   BindPat(a.s, p.rest, VD([j \in DOMAIN I |-> v.ks[I[j]]], [j \in DOMAIN I |-> v.vs[I[j]]]))
    [] p.t = "ptag" ->
         IF v.t # "html" THEN NoMatch(S) ELSE IF v.h.k # "tag" THEN NoMatch(S)
         ELSE LET h == v.h
                  n == BindPat(S, p.n, VS(h.n))
                  ks == [i \in DOMAIN h.as |-> h.as[i].x]
                  vs == [i \in DOMAIN h.as |-> IF h.as[i].f THEN VUnit ELSE VS(h.as[i].v)]
                  a == IF n.ok THEN BindPat(n.s, p.at, VD(ks, vs)) ELSE n
              IN  IF a.ok THEN BindPat(a.s, p.c, VH(h.c)) ELSE a
    [] OTHER ->   \* pregex
         IF v.t # "str" THEN NoMatch(S)
         ELSE LET C == Chars(v.s)
                  m == XTry(C, <<TplNodes(p.rx)>>, 1, [g \in 1..Len(p.xs) |-> <<>>])
              IN  IF m.ok THEN Match(BindCaps(S, C, p, m.caps, 1)) ELSE NoMatch(S)
RECURSIVE Branches(_, _, _, _, _)
Branches(S, e, v, i, ty) ==
  IF i > Len(e.bs) THEN AR(Log(S, "NoMatchingBranch", e.r))
  ELSE LET b == BindPat(Push(S), e.bs[i].p, v) IN
       IF b.ok THEN PopR(Eval(b.s, e.bs[i].e, ty)) ELSE Branches(Pop(b.s), e, v, i+1, ty)
EvalMatch(S, e, ty) == LET v == Eval(S, e.e, Ty("any")) IN IF ~v.ok THEN v ELSE Branches(v.s, e, v.v, 1, ty)

--------------------------------------------------------------------------
(* tags *)
TagNameOf(S, e) ==
  IF ~e.var THEN OkR(S, e.x)
  ELSE LET n == EvalName(S, e.n, Ty("str")) IN
       IF ~n.ok THEN n
       ELSE IF IsIdent(n.v.s) THEN OkR(n.s, Low(n.v.s))
       ELSE IF Low(n.v.s) = "!doctype" THEN OkR(n.s, "!DOCTYPE")
       ELSE AR(Log(n.s, "InvalidTag", e.n.r))
PutAttr(S, as, x, v, r) == IF AttrOf(as, x) > 0 THEN AR(Log(S, "AttrMultipleValues", r))
  ELSE OkR(S, Append(as, [x |-> x, f |-> IsUnit(v), v |-> IF IsUnit(v) THEN "" ELSE v.s]))
RECURSIVE PutAttrs(_, _, _, _, _)
PutAttrs(S, as, d, i, r) == IF i > Len(d.ks) THEN OkR(S, as)
  ELSE LET a == PutAttr(S, as, d.ks[i], d.vs[i], r) IN IF ~a.ok THEN a ELSE PutAttrs(a.s, a.v, d, i+1, r)
RECURSIVE EvalAttrs(_, _, _, _)
EvalAttrs(S, as, i, out) ==
  IF i > Len(as) THEN OkR(S, out)
  ELSE LET a == as[i]
           v == CASE a.k = "flag" -> OkR(S, VUnit)
                  [] a.k = "val" -> Eval(S, a.e, IF a.q THEN TyOpt(Ty("str")) ELSE Ty("str"))
                  [] OTHER -> Eval(S, a.e, TyDict(TyOpt(Ty("str"))))
           w == CASE ~v.ok -> v
                  [] a.k = "spread" -> PutAttrs(v.s, out, v.v, 1, a.r)
                  [] a.k = "val" /\ IsUnit(v.v) -> OkR(v.s, out)
                  [] OTHER -> PutAttr(v.s, out, a.x, v.v, a.r)
       IN  IF ~w.ok THEN w ELSE EvalAttrs(w.s, as, i+1, w.v)
EvalTag(S, e) ==
  LET n == TagNameOf(S, e)
      a == IF n.ok THEN EvalAttrs(n.s, e.as, 1, <<>>) ELSE n
  IN  IF ~a.ok THEN a
      ELSE LET c == CompileSeq(a.s, e.cs, ContentOf(n.v), n.v) IN OkR(c.s, VH(HTag(n.v, a.v, c.v)))

--------------------------------------------------------------------------
(* expressions *)
RECURSIVE EvalTpl(_, _, _, _)
EvalTpl(S, ps, i, acc) ==
  IF i > Len(ps) THEN OkR(S, VS(acc))
  ELSE CASE ps[i].t = "lit" -> EvalTpl(S, ps, i+1, acc \o ps[i].s)
         [] ps[i].t = "ws" -> EvalTpl(S, ps, i+1, acc \o " ")
         [] OTHER -> LET v == EvalName(S, ps[i].n, TyOpt(Ty("str"))) IN
                     IF ~v.ok THEN v ELSE EvalTpl(v.s, ps, i+1, IF IsUnit(v.v) THEN acc ELSE acc \o v.v.s)
RECURSIVE EvalItems(_, _, _, _, _)
EvalItems(S, es, i, hint, acc) ==
  IF i > Len(es) THEN OkR(S, VL(acc))
  ELSE LET v == Eval(S, es[i].e, IF es[i].sp THEN TyList(hint) ELSE hint) IN
       IF ~v.ok THEN v ELSE EvalItems(v.s, es, i+1, hint, IF es[i].sp THEN acc \o v.v.xs ELSE Append(acc, v.v))
Eval(S, e, ty) ==
  CASE e.t = "unit" -> RepE(CoR(OkR(S, VUnit), ty), e.r)
    [] e.t = "bool" -> RepE(CoR(OkR(S, VB(e.b)), ty), e.r)
    [] e.t = "int" -> RepE(CoR(OkR(S, VI(e.i)), ty), e.r)
    [] e.t \in {"bare", "verb"} -> RepE(CoR(OkR(S, VS(e.s)), ty), e.r)
    [] e.t \in {"var", "attr", "idx"} -> EvalName(S, e, ty)
    [] e.t = "call" -> EvalCall(S, e, ty)
    [] e.t \in {"fn", "fndef"} -> LET f == EvalFnDef(S, e) IN
         IF ty.t \in HtmlTypes THEN AR(Log(f.s, "ExpectedWas", e.r)) ELSE RepE(CoR(f, ty), e.r)
    [] e.t = "let" -> EvalLet(S, e, ty, FALSE)
    [] e.t = "match" -> EvalMatch(S, e, ty)
    [] e.t = "tpl" -> LET t == EvalTpl(S, e.ps, 1, "") IN IF ~t.ok THEN t ELSE RepE(CoR(t, ty), e.r)
    [] e.t = "group" -> LET h == CompileSeq(S, e.ns, AllowP, "") IN RepE(CoR(OkR(h.s, VH(h.v)), ty), e.r)
    [] e.t = "tag" -> LET h == EvalTag(S, e) IN IF ~h.ok THEN h ELSE RepE(CoR(h, ty), e.r)
    [] OTHER -> LET l == EvalItems(S, e.es, 1, Component(ty), <<>>) IN IF ~l.ok THEN l ELSE RepE(CoR(l, ty), e.r)

--------------------------------------------------------------------------
(* content *)
CN(S, b, e) == [s |-> S, b |-> b, e |-> e]
PushV(x, b) == IF ~x.ok THEN CN(x.s, b, x.e) ELSE LET p == PushB(b, HtmlOf(x.v)) IN CN(x.s, p.b, p.e)
PushH(S, b, h) == LET p == PushB(b, h) IN CN(S, p.b, p.e)
Fence(S, n) ==
  LET f == CoR(GetVar(S, IF n.m THEN "code_block" ELSE "code"), Ty("function")) IN
  IF ~f.ok THEN f
  ELSE LET b == Synthetic(f.s, f.v, TRUE, VS(TrimTicks(n.s))) IN
       IF ~b.ok THEN ErrR(f.s, b.e) ELSE CallWith(f.s, f.v, b.v, Ty(IF n.m THEN "block" ELSE "inline"), n.r)
CompileNode(S, b, n) ==
  CASE n.t = "export" -> LET x == EvalExport(S, n) IN CN(x.s, b, x.e)
    [] n.t = "fndef" -> LET f == EvalFnDef(S, n) IN CN(SetVar(f.s, n.x, f.v, FALSE, n.sig.r), b, "")
    [] n.t = "fence" -> PushV(Fence(S, n), b)
    [] n.t \in {"text", "char"} -> PushH(S, b, HText(n.s))
    [] n.t = "ws" -> PushH(S, b, HText(" "))
    [] n.t = "para" -> LET p == NewlineB(b) IN CN(S, p.b, p.e)
    [] OTHER -> PushV(Eval(S, n, Ty("html")), b)
SeqAll(S, b, ns) ==
  Fold(LAMBDA q, n : LET x == CompileNode(q.s, q.b, n) IN CN(IF x.e = "" THEN x.s ELSE Log(x.s, x.e, n.r), x.b, ""), CN(S, b, ""), ns)
\* [s, v]
CompileSeq(S, ns, kind, par) ==
  LET x == SeqAll(S, NewB(kind, par), ns)  h == IntoHtml(x.b) IN
  IF h.e = "" THEN [s |-> x.s, v |-> h.h] ELSE [s |-> Log(x.s, h.e, ns[1].r), v |-> HE]

--------------------------------------------------------------------------
(* files *)
\* compile a file: [s, v |-> [out, ex]]
CompileFile(S, name, src, kind) ==
  LET p == ParseFile(name, Chars(src))
      S1 == NewFrame([S EXCEPT !.d = @ \o p.d], S.init, NoMap)
      S2 == [S1 EXCEPT !.st = <<[f |-> Len(S1.fr), has |-> FALSE, n |-> "", r |-> <<"", 0>>]>>, !.ex = NoEx]
      x == CompileSeq(S2, p.ns, kind, "")
  IN  [s |-> [x.s EXCEPT !.st = S.st, !.ex = S.ex], v |-> [out |-> x.v, ex |-> x.s.ex]]
LoadUncached(S, path) ==
  LET t == ReadFile(S.fs, path) IN
  IF ~t.ok THEN ErrR(S, "IOError")
  ELSE LET c == CompileFile(S, path, t.v, ReqP) IN OkR(c.s, c.v)
ModState(S, k) == IF k \in DOMAIN S.mods THEN S.mods[k].st ELSE "none"
SetMod(S, k, m) == [S EXCEPT !.mods = (k :> m) @@ @]
LoadCached(S, path) ==
  LET c == Canon(S.fs, path)  k == c.v IN
  IF ~c.ok THEN ErrR(S, "IOError")
  ELSE CASE ModState(S, k) = "busy" -> ErrR(S, "CircularImport")
         [] ModState(S, k) = "error" -> ErrR(S, "PreviousError")
         [] ModState(S, k) = "loaded" -> OkR(S, S.mods[k].v)
         [] OTHER ->
              LET S1 == [SetMod(S, k, [st |-> "busy", v |-> 0]) EXCEPT !.of = [@ EXCEPT !.on = FALSE]]
                  l == LoadUncached(S1, path)
                  S2 == [SetMod(l.s, k, [st |-> IF l.ok THEN "loaded" ELSE "error", v |-> l.v]) EXCEPT !.of = S.of]
              IN  [l EXCEPT !.s = S2]

--------------------------------------------------------------------------
(* the standard library *)
STDLIB == JsonDeserialize(IOEnv.PAPYRI_SPEC \o "/stdlib.json")[1]
S0 == [fr |-> <<NatFrame>>, st |-> <<>>, ex |-> NoEx, d |-> <<>>, uid |-> {}, init |-> 1, mods |-> NoMap,
       fs |-> NoFS, of |-> [on |-> FALSE, base |-> <<>>, fs |-> <<>>], deep |-> FALSE, hl |-> <<>>, dom |-> <<>>,
       net |-> [on |-> FALSE, web |-> <<>>, asked |-> <<>>]]
StdRun == CompileFile(S0, "<stdlib>", STDLIB, Emp)
\* the state in which a context starts
InitState == LET x == StdRun  ex == x.v.ex IN
  [x.s EXCEPT !.fr = Append(@, [par |-> 1, imp |-> {}, loc |-> [k \in SeqSet(ex.ks) |-> DGet(ex, k)]]), !.init = Len(x.s.fr) + 1]
\* what a compilation starts with again (Context::reset)
Reset(S) == [S EXCEPT !.d = <<>>, !.uid = {}]
ErrorsOf(S) == SelectSeq(S.d, LAMBDA x : x.k \notin WARNINGS \cup {"AlreadyReported"})
WarningsOf(S) == SelectSeq(S.d, LAMBDA x : x.k \in WARNINGS)
Reported(S) == SelectSeq(S.d, LAMBDA x : x.k # "AlreadyReported")
=============================================================================
