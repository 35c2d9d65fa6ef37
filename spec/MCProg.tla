------------------------------- MODULE MCProg -------------------------------
(* Every program that a template describes.  A template is a sequence of     *)
(* slots; an alternative of a slot is a pair of texts, one put before and one *)
(* after what the later slots give.  A behaviour fills the slots one by one;  *)
(* the laws of Props are invariants of the full states, and what is observed  *)
(* of the program is printed, to be compared with the real compiler.          *)
EXTENDS PHist

Model == JsonDeserialize(IOEnv.PAPYRI_MODEL)
Slots == Model.slots
VARIABLE ch
Init == ch = <<>>
Next == Len(ch) < Len(Slots) /\ \E i \in DOMAIN Slots[Len(ch) + 1] : ch' = Append(ch, i)

Full == Len(ch) = Len(Slots)
Src == Cat([i \in DOMAIN ch |-> Slots[i][ch[i]][1]], 1, Len(ch)) \o
       Cat([i \in DOMAIN ch |-> Slots[Len(ch) + 1 - i][ch[Len(ch) + 1 - i]][2]], 1, Len(ch))
\* facts about HTML source come with some models, for each document
Doc == Cat([i \in 1..(Len(ch)-1) |-> Slots[i+1][ch[i+1]][1]], 1, Len(ch)-1) \o
       Cat([i \in 1..(Len(ch)-1) |-> Slots[Len(ch) + 1 - i][ch[Len(ch) + 1 - i]][2]], 1, Len(ch)-1)
Facts0 == IF "docs" \in DOMAIN Model THEN [Reset(Start) EXCEPT !.dom = <<Model.docs[Doc]>>]
          ELSE IF "codes" \in DOMAIN Model THEN [Reset(Start) EXCEPT !.hl = Model.codes[Src]] ELSE Reset(Start)
x == CompileFile(Facts0, "<string>", Src, ReqP)
Emit(r, l) == LET e == SeenDiags(r.s, "<string>" :> Src, "All") IN
  PrintT(ToJson([ch |-> ch, law |-> l, deep |-> r.s.deep, e |-> e,
                 out |-> IF e.errs = 0 THEN Render(r.v.out) ELSE "", txt |-> IF e.errs = 0 THEN RenderText(r.v.out) ELSE "",
                 empty |-> r.v.out.k = "empty", block |-> IsBlock(r.v.out)]))
Laws == Full =>
  LET r == TLCEval(x)
      l == IF r.s.deep \/ "docs" \in DOMAIN Model THEN "" ELSE IF ~LexLaw(Src) THEN "tokens" ELSE Law(r.s, r.v, ReqP)
  IN  Emit(r, l) /\ l = ""
=============================================================================
