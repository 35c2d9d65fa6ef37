-------------------------------- MODULE Conf --------------------------------
(* Conformance of recorded observations of the real implementation with the  *)
(* specification.  Each line of the file IOEnv.PAPYRI_CASES is one case: what *)
(* was done, and what was observed.  The cases are dealt out to chunks; each  *)
(* chunk is a behaviour that judges one case per step, and prints a verdict.  *)
EXTENDS PHist

Cases == ndJsonDeserialize(IOEnv.PAPYRI_CASES)
CHUNKS == 64

VARIABLES chunk, at
vars == <<chunk, at>>

--------------------------------------------------------------------------
(* verdicts: "" if the observation is the specified one, and else the first  *)
(* aspect that differs                                                        *)
V(v, why, exp) == [v |-> v, why |-> why, exp |-> exp]
\* comparing sequences of records whose elements are alike
OLocs(d) == SelectSeq(d.locs, LAMBDA l : LocShown(l.file))
DiagDiff(e, o) ==
  IF e.errs # o.errs THEN "number of errors"
  ELSE IF e.warns # o.warns THEN "number of warnings"
  ELSE IF e.sum # o.sum THEN "summary"
  ELSE IF Len(e.diags) # Len(o.diags) THEN "number of diagnostics shown"
  ELSE IF \E i \in DOMAIN e.diags : e.diags[i].k # o.diags[i].k \/ e.diags[i].w # o.diags[i].w THEN "kind of diagnostic"
  ELSE IF \E i \in DOMAIN e.diags : e.diags[i].tb # o.diags[i].tb \/ Len(e.diags[i].locs) # Len(OLocs(o.diags[i])) THEN "traceback"
  ELSE IF \E i \in DOMAIN e.diags : \E j \in DOMAIN e.diags[i].locs : LET a == e.diags[i].locs[j]  b == OLocs(o.diags[i])[j] IN
            a.file # b.file \/ a.line # b.line \/ a.col # b.col \/ a.in # b.in THEN "location"
  ELSE ""
OutDiff(h, o) ==
  IF Render(h) # o.out THEN "output" ELSE IF RenderText(h) # o.txt THEN "text output"
  ELSE IF (h.k = "empty") # o.empty THEN "emptiness" ELSE IF IsBlock(h) # o.block THEN "blockness" ELSE ""
Observed(e, h, o) ==
  LET d == DiagDiff(e, o) IN
  IF d # "" THEN d ELSE IF ~o.nf THEN "normal form" ELSE IF e.errs > 0 THEN "" ELSE OutDiff(h, o)
Expected(e, h) == [e |-> e, out |-> Render(h), txt |-> RenderText(h), block |-> IsBlock(h)]
\* the first difference in a sequence of aspects
RECURSIVE FirstBad(_, _)
FirstBad(ws, i) == IF i > Len(ws) THEN "" ELSE IF ws[i] # "" THEN ToString(i) \o ": " \o ws[i] ELSE FirstBad(ws, i+1)
Outcome(w, ok, exp) == IF w = "" THEN V("ok", ok, "") ELSE V("bad", w, exp)

JCompile(c) ==
  LET o == c.obs
      x == CompileFile(Facts(c), c.name, c.src, ReqP)
      e == SeenDiags(x.s, c.name :> c.src, c.lvl)
      h == x.v.out
      l == IF c.laws THEN Law(x.s, x.v, ReqP) ELSE ""
      w == IF l # "" THEN "law: " \o l ELSE IF o.st # "ok" THEN o.st
           ELSE IF "web" \in DOMAIN c /\ o.hits # x.s.net.asked THEN "requests" ELSE Observed(e, h, o)
  IN  IF x.s.deep THEN V("skip", "unmodelled", "")
      ELSE IF w = "" THEN V("ok", IF e.errs > 0 THEN "errors" ELSE "", "") ELSE V("bad", w, Expected(e, h))

\* what is known not to hold: the content model in the cells of dictionaries
JStrict(c) ==
  LET x == CompileFile(Reset(Start), c.name, c.src, ReqP)
      e == SeenDiags(x.s, c.name :> c.src, c.lvl)
  IN  IF c.obs.st = "ok" /\ Observed(e, x.v.out, c.obs) = "" /\ ErrorsOf(x.s) = <<>> /\ ~ObeysStrictly(x.v.out, ReqP)
      THEN V("bad", "content model", "") ELSE V("ok", "", "")

\* the one-call interface: the output if nothing at all was reported, and otherwise the diagnostics
JCompileStr(c) ==
  LET o == c.obs
      x == CompileFile(Reset(Start), "<string>", c.src, ReqP)
      e == SeenDiags(x.s, "<string>" :> c.src, "Warning")
      ok == e.errs = 0 /\ e.warns = 0
      w == IF o.st # "ok" THEN o.st
           ELSE IF o.ok # ok THEN "success"
           ELSE IF ok THEN (IF Render(x.v.out) = o.out THEN "" ELSE "output") ELSE DiagDiff(e, o)
  IN  IF x.s.deep THEN V("skip", "unmodelled", "") ELSE Outcome(w, "", Expected(e, x.v.out))

--------------------------------------------------------------------------
(* a history of calls on one context, in a small file system *)
CtxDiff(S, M, c, x, st, o) == \* the observation o of step st, whose result is x
  LET e == SeenDiags(x.s, M, c.lvl) IN
  CASE st.op = "synth" -> Observed(e, x.v.out, o)
    [] st.op = "load" -> IF x.ok # o.ok THEN "success" ELSE IF ~x.ok THEN (IF x.e # o.k THEN "error" ELSE DiagDiff(e, o)) ELSE Observed(e, x.v.out, o)
    [] st.op = "cached" -> IF x.ok # o.ok THEN "success" ELSE IF ~x.ok THEN (IF x.e # o.k THEN "error" ELSE DiagDiff(e, o))
                           ELSE IF Len(x.v.ex.ks) # o.nexports THEN "exports" ELSE Observed(e, x.v.out, o)
    [] st.op = "reset" -> DiagDiff(e, o)
    [] OTHER -> LET f == S.of.fs IN
                IF Len(f) # Len(o.files) THEN "number of files"
                ELSE IF \E i \in DOMAIN f : JoinP(c.outdir, f[i][1]) # o.files[i][1] THEN "path of a file"
                ELSE IF \E i \in DOMAIN f : Render(f[i][2]) # o.files[i][2] THEN "contents of a file" ELSE ""
RECURSIVE CtxRun(_, _, _, _)
CtxRun(S, c, M, i) ==
  IF i > Len(c.steps) THEN (IF "web" \in DOMAIN c /\ c.obs.hits # S.net.asked THEN V("bad", "requests", S.net.asked) ELSE V("ok", "", ""))
  ELSE LET st == c.steps[i]  x == TLCEval(CtxStep(S, st))  w == CtxDiff(S, M, c, x, st, c.obs.steps[i]) IN
       IF x.s.deep THEN V("skip", "unmodelled", "")
       ELSE IF w # "" THEN V("bad", "step " \o ToString(i) \o ": " \o w,
              [e |-> SeenDiags(x.s, M, c.lvl), ok |-> x.ok, k |-> x.e, of |-> S.of.fs,
               out |-> IF st.op \in {"synth", "load", "cached"} /\ x.ok THEN Render(x.v.out) ELSE ""])
       ELSE CtxRun(x.s, c, M, i+1)
RECURSIVE CtxDeep(_, _, _)
CtxDeep(S, c, i) == IF i > Len(c.steps) THEN S.deep ELSE LET x == TLCEval(CtxStep(S, c.steps[i])) IN x.s.deep \/ CtxDeep(x.s, c, i+1)
JCtx(c) == IF c.obs.st # "ok" THEN (IF CtxDeep(CtxStart(c), c, 1) THEN V("skip", "unmodelled", "") ELSE V("bad", c.obs.st, ""))
           ELSE CtxRun(CtxStart(c), c, SynthSrc(c), 1)

--------------------------------------------------------------------------
(* the helpers that are public *)
RECURSIVE UidRun(_, _, _, _)
UidRun(c, used, i, out) ==
  IF i > Len(c.calls) THEN out
  ELSE IF c.calls[i].clear THEN UidRun(c, {}, i+1, Append(out, ""))
  ELSE LET id == UniqueId(used, c.calls[i].base, c.calls[i].max) IN UidRun(c, used \cup {id}, i+1, Append(out, id))
JUid(c) == IF c.obs.st # "ok" THEN V("bad", c.obs.st, "")
           ELSE LET e == UidRun(c, {}, 1, <<>>) IN IF e = c.obs.ids THEN V("ok", "", "") ELSE V("bad", "identifiers", e)
JFn(c) ==
  IF c.obs.st # "ok" THEN V("bad", c.obs.st, "")
  ELSE LET r == c.obs.r  s == c.s
           e == CASE c.f = "make_identifier" -> <<MakeIdent(s, c.n)>>
                  [] c.f = "is_identifier" -> <<IsIdent(s)>>
                  [] c.f = "is_whitespace" -> <<AllWs(s)>>
                  [] c.f = "looks_like_glob" -> <<LooksLikeGlob(s)>>
                  [] c.f = "encode_entities" -> <<Escape(s, c.q)>>
                  [] c.f = "fix_indentation" -> <<FixIndent(s)>>
                  [] c.f = "lang_hint" -> <<LangHint(s, c.d)>>
                  [] OTHER -> LET b == Norm1(IF Abs(c.base) THEN <<>> ELSE c.cwd, Comps(c.base), 1)  q == OutPath(b, s) IN
                              <<[ok |-> q.ok, p |-> q.v]>>
       IN  IF e = <<r>> THEN V("ok", "", "") ELSE V("bad", c.f, e)
RECURSIVE OfRun(_, _, _, _)
OfRun(c, fs, i, base) ==
  IF i > Len(c.calls) THEN ""
  ELSE LET q == c.calls[i]  o == c.obs.res[i] IN
       IF q.take THEN (IF [j \in DOMAIN fs |-> <<JoinP(c.base, fs[j][1]), fs[j][2]>>] = o.files THEN OfRun(c, <<>>, i+1, base) ELSE ToString(i) \o ": files")
       ELSE LET p == OutPath(base, q.path)  g == IF p.ok THEN Append(fs, <<p.v, q.v>>) ELSE fs IN
            IF o.ok # p.ok THEN ToString(i) \o ": acceptance" ELSE IF o.empty # (g = <<>>) THEN ToString(i) \o ": emptiness" ELSE OfRun(c, g, i+1, base)
JOutfiles(c) == IF c.obs.st # "ok" THEN V("bad", c.obs.st, "")
  ELSE LET w == OfRun(c, <<>>, 1, Norm1(IF Abs(c.base) THEN <<>> ELSE c.cwd, Comps(c.base), 1)) IN Outcome(w, "", "")
JHtml(c) == IF c.obs.st # "ok" THEN V("bad", c.obs.st, "")
  ELSE LET h == TreeH(c.h)
           sh == CASE h.k = "empty" -> "empty" [] h.k = "text" -> (IF h.s = " " THEN "ws" ELSE IF h.s = "\n" THEN "nl" ELSE "text:" \o h.s) [] OTHER -> "seq"
       IN  IF sh # c.obs.sh THEN V("bad", "normal form", sh)
           ELSE IF <<h.k = "empty", IsBlock(h), IsInline(h), HIsWs(h)>> # c.obs.preds THEN V("bad", "tests", "") ELSE V("ok", "", "")

--------------------------------------------------------------------------
(* a history of edits and runs of the command-line compiler *)
ErrLines(o) == SelectSeq(o.err, LAMBDA l : ~HasPrefix(l, "    File \"<stdlib>\"") \/ LocShown("<stdlib>"))
CliDiff(x, o) ==
  IF o.st # "ok" THEN o.st
  ELSE IF "hits" \in DOMAIN o /\ x.r.asked # o.hits THEN "requests"
  ELSE IF x.r.code # o.code THEN "exit status"
  ELSE IF x.r.out # o.out THEN "standard output"
  ELSE IF x.r.text # o.text THEN "document on standard output"
  ELSE IF x.r.err # ErrLines(o) THEN "standard error"
  ELSE IF SeenTree(x.w) # {<<o.tree[i][1], o.tree[i][2], o.tree[i][3]>> : i \in DOMAIN o.tree} THEN "files"
  ELSE ""
RECURSIVE CliRuns(_, _, _)
CliRuns(W, c, i) ==
  IF i > Len(c.steps) THEN V("ok", "", "")
  ELSE LET st == c.steps[i]  x == TLCEval(CliStep(W, c, st)) IN
       IF st.op # "run" THEN CliRuns(x.w, c, i+1)
       ELSE IF x.r.deep THEN V("skip", "unmodelled", "")
       ELSE LET w == CliDiff(x, c.obs.steps[i]) IN
            IF w # "" THEN V("bad", "step " \o ToString(i) \o ": " \o w, [code |-> x.r.code, out |-> x.r.out, err |-> x.r.err, text |-> x.r.text, tree |-> SeenTree(x.w)])
            ELSE CliRuns(x.w, c, i+1)
JCli(c) == CliRuns(World(c), c, 1)

Judge(c) ==
  CASE c.op = "compile" -> JCompile(c)
    [] c.op = "compile_str" -> JCompileStr(c)
    [] c.op = "strict" -> JStrict(c)
    [] c.op = "ctx" -> JCtx(c)
    [] c.op = "uid" -> JUid(c)
    [] c.op = "fn" -> JFn(c)
    [] c.op = "cli" -> JCli(c)
    [] c.op = "outfiles" -> JOutfiles(c)
    [] OTHER -> JHtml(c)

Verdict(i) == LET j == Judge(Cases[i]) IN
  PrintT(ToJson([id |-> i, v |-> j.v, why |-> j.why, exp |-> IF j.v = "bad" THEN ToJson(j.exp) ELSE ""]))

--------------------------------------------------------------------------
Init == chunk \in 1..CHUNKS /\ at = chunk
Next == /\ at <= Len(Cases)
        /\ Verdict(at)
        /\ at' = at + CHUNKS
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_vars
=============================================================================
