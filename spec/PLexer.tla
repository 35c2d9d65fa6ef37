------------------------------- MODULE PLexer -------------------------------
(* The lexical grammar of Papyri: source text -> tokens, plus the lexical    *)
(* errors.  A source is a TLA+ string; positions are 0-based character       *)
(* positions.  Chars is a table of per-character facts.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt

(* Fold: apply op to the elements of a sequence, from the left.  Iter: apply *)
(* step to a record until its field done holds, at most n times.  They stand *)
(* for recursion where TLC would otherwise evaluate at a great depth.         *)
Fold(op(_, _), base, seq) == FoldLeft(op, base, seq)
Iter(step(_), s0, n) == FoldLeft(LAMBDA s, j : IF s.done THEN s ELSE step(s), s0, [j \in 1..n |-> j])

CH == JsonDeserialize(IOEnv.PAPYRI_SPEC \o "/chars.json")

(* cl: "sp" space-like ASCII whitespace, "nl" newline, "id" letter or         *)
(* underscore, "dg" digit, "pu" ASCII that ends raw text, "rw" anything else *)
Chars(str) == TLCEval([i \in 1..Len(str) |-> SubSeq(str, i, i)])
Cls(c) == CH[c].cl

RECURSIVE Cat(_, _, _)
Cat(C, i, j) == IF i > j THEN "" ELSE IF i = j THEN C[i]
                ELSE LET m == (i + j) \div 2 IN Cat(C, i, m) \o Cat(C, m+1, j)

(* scan: the first position >= i whose class is not in K *)
RECURSIVE ScanIn(_, _, _)
ScanIn(L, i, K) == IF i <= Len(L) /\ L[i] \in K THEN ScanIn(L, i+1, K) ELSE i
RECURSIVE ScanNot(_, _, _)
ScanNot(L, i, K) == IF i <= Len(L) /\ L[i] \notin K THEN ScanNot(L, i+1, K) ELSE i

WS == {"sp", "nl"}
ID == {"id", "dg"}

At(C, i) == IF i <= Len(C) THEN C[i] ELSE ""
AtIs(C, i, S) == i <= Len(C) /\ C[i] \in S
ClAt(L, i) == IF i <= Len(L) THEN L[i] ELSE ""

RECURSIVE CountNL(_, _, _)
CountNL(L, i, j) == IF i >= j THEN 0 ELSE (IF L[i] = "nl" THEN 1 ELSE 0) + CountNL(L, i+1, j)

(* does the string pat (a sequence of chars) start at position i of C *)
StartsAt(C, i, pat) == /\ i + Len(pat) - 1 <= Len(C)
                       /\ \A j \in 1..Len(pat) : C[i + j - 1] = pat[j]
RECURSIVE FindFrom(_, _, _)
FindFrom(C, i, pat) == IF i + Len(pat) - 1 > Len(C) THEN 0
                       ELSE IF StartsAt(C, i, pat) THEN i ELSE FindFrom(C, i+1, pat)

HEX == {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","A","B","C","D","E","F"}
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}

Tk(e, k, err) == [e |-> e, k |-> k, err |-> err]

(* one token at position i (1-based); e is the position after it *)
NextTok(C, L, i) ==
  LET c == C[i]  n == At(C, i+1)  nc == ClAt(L, i+1) IN
  IF c = "#" THEN
     LET a == ScanNot(L, i+1, {"nl"})  b == ScanIn(L, a, WS)
     IN  Tk(IF CountNL(L, a, b) >= 2 THEN a ELSE b, "Comment", "")
  ELSE IF L[i] \in WS THEN
     LET b == ScanIn(L, i+1, WS)
     IN  Tk(b, IF CountNL(L, i, b) >= 2 THEN "Newline" ELSE "Whitespace", "")
  ELSE IF L[i] = "id" THEN
     LET b == ScanIn(L, i+1, ID)  w == Cat(C, i, b-1)
     IN  Tk(b, IF w = "True" THEN "True" ELSE IF w = "False" THEN "False"
               ELSE IF w = "_" THEN "Underscore" ELSE "Name", "")
  ELSE IF L[i] = "dg" THEN Tk(ScanIn(L, i+1, {"dg"}), "Number", "")
  ELSE IF c \in {"$", "@"} /\ nc = "id" THEN
     LET b == ScanIn(L, i+2, ID)  w == Cat(C, i+1, b-1)
     IN  Tk(b, IF c = "$" THEN "VarName"
               ELSE IF w = "export" THEN "KwExport" ELSE IF w = "fn" THEN "KwFn"
               ELSE IF w = "implicit" THEN "KwImplicit" ELSE IF w = "let" THEN "KwLet"
               ELSE IF w = "match" THEN "KwMatch" ELSE "FuncName", "")
  ELSE IF c = "&" /\ (n = "#" \/ n \in Letters) THEN
     LET b == CHOOSE b \in (i+2)..(Len(C)+1) :
                /\ (b = Len(C)+1 \/ L[b] \in WS \/ C[b] = ";")
                /\ \A j \in (i+2)..(b-1) : L[j] \notin WS /\ C[j] # ";"
     IN  IF At(C, b) = ";" THEN Tk(b+1, "Entity", "")
         ELSE Tk(b, "Entity", "TokenEntityMissingSemicolon")
  ELSE IF c = "\\" THEN
     IF n = "" THEN Tk(i+1, "RawText", "TokenExpectedWasEOF")
     ELSE IF nc = "nl" THEN Tk(i+1, "Escape", "TokenInvalidEscape")
     ELSE IF n \in {"x", "u", "U"} THEN
        LET w == IF n = "x" THEN 4 ELSE IF n = "u" THEN 6 ELSE 10 IN
        IF i + w - 1 <= Len(C) /\ \A j \in (i+2)..(i+w-1) : C[j] \in HEX
        THEN Tk(i+w, "Escape", "") ELSE Tk(i+2, "Escape", "TokenInvalidEscape")
     ELSE Tk(i+2, "Escape", "")
  ELSE IF c = "`" THEN
     LET RECURSIVE Bt(_)
         Bt(j) == IF At(C, j) = "`" THEN Bt(j+1) ELSE j
         o == Bt(i)                       \* after the opening delimiter
         w == o - i
         q == FindFrom(C, o, [j \in 1..w |-> "`"])
         k == IF w >= 3 THEN "VerbM" ELSE "VerbS"
     IN  IF q = 0 THEN Tk(Len(C)+1, k, "TokenVerbatimEOF")
         ELSE LET z == Bt(q) IN
              Tk(z, k, IF z - q > w THEN "TokenVerbatimTooManyBackticks"
                       ELSE IF w < 3 /\ \E j \in o..(q-1) : L[j] = "nl"
                            THEN "TokenVerbatimMultilineNotEnoughBackticks" ELSE "")
  ELSE IF c = "<" THEN
     IF n = "!" /\ StartsAt(C, i, <<"<","!","-","-">>) THEN
        LET q == FindFrom(C, i+4, <<"-","-",">">>)
        IN  Tk(IF q = 0 THEN Len(C)+1 ELSE q+3, "Comment", "")
     ELSE IF n = "/" THEN
        IF ClAt(L, i+2) = "id" THEN
           LET b == ScanIn(L, i+3, ID)
           IN  IF At(C, b) = ">" THEN Tk(b+1, "CloseTag", "") ELSE Tk(b, "RawText", "TagCloseMalformed")
        ELSE IF At(C, i+2) = ">" THEN Tk(i+3, "CloseTag", "")
        ELSE Tk(i+2, "RawText", "TagCloseMalformed")
     ELSE Tk(i+1, "LAngle", "")
  ELSE IF c = "-" /\ n = ">" THEN Tk(i+2, "Arrow", "")
  ELSE IF c = "-" /\ nc = "dg" THEN Tk(ScanIn(L, i+2, {"dg"}), "Number", "")
  ELSE IF c = "(" THEN Tk(i+1, "LPar", "")
  ELSE IF c = ")" THEN Tk(i+1, "RPar", "")
  ELSE IF c = "[" THEN Tk(i+1, "LSqb", "")
  ELSE IF c = "]" THEN Tk(i+1, "RSqb", "")
  ELSE IF c = "{" THEN Tk(i+1, "LBrace", "")
  ELSE IF c = "}" THEN Tk(i+1, "RBrace", "")
  ELSE IF c = ">" THEN Tk(i+1, "RAngle", "")
  ELSE IF c = "/" /\ n = ">" THEN Tk(i+2, "RAngle", "")
  ELSE IF c = "&" THEN Tk(i+1, "Ampersand", "")
  ELSE IF c = "|" THEN Tk(i+1, "Bar", "")
  ELSE IF c = "," THEN Tk(i+1, "Comma", "")
  ELSE IF c = "=" THEN Tk(i+1, "Equals", "")
  ELSE IF c = "!" THEN Tk(i+1, "ExclamationMark", "")
  ELSE IF c = "*" THEN IF n = "*" THEN Tk(i+2, "DoubleAsterisk", "") ELSE Tk(i+1, "Asterisk", "")
  ELSE IF c = ":" THEN IF n = ":" THEN Tk(i+2, "DoubleColon", "") ELSE Tk(i+1, "Colon", "")
  ELSE IF c = "?" THEN IF n = ":" /\ At(C, i+2) = ":" THEN Tk(i+3, "QuestionMarkDoubleColon", "")
                       ELSE Tk(i+1, "QuestionMark", "")
  ELSE IF c = "." THEN IF n = "." /\ At(C, i+2) = "." THEN Tk(i+3, "Ellipsis", "") ELSE Tk(i+1, "Dot", "")
  ELSE IF c = "'" THEN Tk(i+1, "QuoteS", "")
  ELSE IF c = "\"" THEN Tk(i+1, "QuoteD", "")
  ELSE Tk(ScanIn(L, i+1, {"rw"}), "RawText", "")

LeftAfter == {"Equals", "LBrace", "LPar", "LSqb", "RAngle", "Newline", "Whitespace"}
IsWsTok(k) == k \in {"Whitespace", "Newline"}

(* errors: [k, p] with p the 0-based start of the offending token *)
LexStep(C, L, strip, st) ==
  LET i == st.i
      n == NextTok(C, L, i)
      toks == st.toks
      tok == [k |-> n.k, a |-> i-1, b |-> n.e-1, s |-> Cat(C, i, n.e-1), d |-> st.d]
      last == IF toks = <<>> THEN "" ELSE toks[Len(toks)].k
      toks2 == IF n.k = "Comment" /\ strip THEN toks
               ELSE IF IsWsTok(n.k) /\ IsWsTok(last) THEN
                    IF n.k = "Newline" THEN Append(SubSeq(toks, 1, Len(toks)-1), tok) ELSE toks
               ELSE Append(toks, tok)
  IN  [i |-> n.e, d |-> IF n.k \in LeftAfter THEN "L" ELSE "R", toks |-> toks2,
       errs |-> IF n.err = "" THEN st.errs ELSE Append(st.errs, [k |-> n.err, p |-> i-1])]
Lex(C, strip) ==
  LET L == TLCEval([i \in DOMAIN C |-> Cls(C[i])])
      st == Fold(LAMBDA q, j : IF q.i = j THEN LexStep(C, L, strip, q) ELSE q,
                 [i |-> 1, d |-> "L", toks |-> <<>>, errs |-> <<>>], [j \in DOMAIN C |-> j])
  IN  [toks |-> st.toks, errs |-> st.errs]

Tokenize(C) == Lex(C, TRUE)
\* with the comments kept, as the highlighter sees it
TokenizeAll(C) == Lex(C, FALSE).toks

(* 1-based line and column, in characters, of the 0-based position p *)
LineCol(C, p) ==
  LET q == IF p > Len(C) THEN Len(C) ELSE p
      nl == {j \in 1..q : C[j] = "\n"}
      RECURSIVE Back(_)
      Back(j) == IF j = 0 THEN 0 ELSE IF C[j] = "\n" THEN j ELSE Back(j-1)
  IN  <<1 + Cardinality(nl), q - Back(q) + 1>>
=============================================================================
