------------------------------- MODULE PInt -------------------------------
(* Signed 64-bit integers.  TLC's own integers have 32 bits, so a Papyri     *)
(* integer is a record: sign and three base-10^9 limbs, least significant    *)
(* first, canonical (zero is not negative), so that = is numerical equality. *)
EXTENDS Integers, Sequences, TLC

LB == 1000000000
MkI(n, l) == [neg |-> n /\ l # <<0, 0, 0>>, l |-> l]
IZ == [neg |-> FALSE, l |-> <<0, 0, 0>>]
\* of a TLC integer (|k| < 10^9)
IOf(k) == MkI(k < 0, <<IF k < 0 THEN -k ELSE k, 0, 0>>)

DigitOf == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
   CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
     [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]

RECURSIVE SmallNat(_, _, _, _)
SmallNat(s, i, j, acc) == IF i > j THEN acc ELSE SmallNat(s, i+1, j, acc*10 + DigitOf[SubSeq(s, i, i)])

RECURSIVE StripZ(_)
StripZ(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN StripZ(SubSeq(s, 2, Len(s))) ELSE s

\* magnitude comparison of limb triples
LLt(a, b) == \/ a[3] < b[3]
             \/ a[3] = b[3] /\ a[2] < b[2]
             \/ a[3] = b[3] /\ a[2] = b[2] /\ a[1] < b[1]
IMaxL == <<854775807, 223372036, 9>>
IMinL == <<854775808, 223372036, 9>>
InI64(x) == IF x.neg THEN ~LLt(IMinL, x.l) ELSE ~LLt(IMaxL, x.l)

\* a digit string (optional leading sign), as Rust's i64 parser reads it
IParse(s) ==
  LET c == IF s = "" THEN "" ELSE SubSeq(s, 1, 1)
      neg == c = "-"
      body == IF c \in {"-", "+"} THEN SubSeq(s, 2, Len(s)) ELSE s
      bad == body = "" \/ \E i \in 1..Len(body) : SubSeq(body, i, i) \notin DOMAIN DigitOf
  IN  IF bad THEN [ok |-> FALSE, v |-> IZ]
      ELSE LET z == StripZ(body)  n == Len(z) IN
           IF n > 20 THEN [ok |-> FALSE, v |-> IZ]
           ELSE LET v == MkI(neg, <<SmallNat(z, IF n > 9 THEN n-8 ELSE 1, n, 0),
                                    IF n > 9 THEN SmallNat(z, IF n > 18 THEN n-17 ELSE 1, n-9, 0) ELSE 0,
                                    IF n > 18 THEN SmallNat(z, 1, n-18, 0) ELSE 0>>)
                IN  [ok |-> InI64(v), v |-> v]

Pad9(k) == LET t == ToString(k) IN SubSeq("000000000", 1, 9 - Len(t)) \o t
IStr(x) == (IF x.neg THEN "-" ELSE "") \o
           (IF x.l[3] > 0 THEN ToString(x.l[3]) \o Pad9(x.l[2]) \o Pad9(x.l[1])
            ELSE IF x.l[2] > 0 THEN ToString(x.l[2]) \o Pad9(x.l[1])
            ELSE ToString(x.l[1]))

LAdd(a, b) == LET s1 == a[1] + b[1]  c1 == s1 \div LB
                  s2 == a[2] + b[2] + c1  c2 == s2 \div LB
              IN  <<s1 % LB, s2 % LB, a[3] + b[3] + c2>>
LSub(a, b) == LET s1 == a[1] - b[1]  b1 == IF s1 < 0 THEN 1 ELSE 0
                  s2 == a[2] - b[2] - b1  b2 == IF s2 < 0 THEN 1 ELSE 0
              IN  <<s1 + b1*LB, s2 + b2*LB, a[3] - b[3] - b2>>
INeg(x) == MkI(~x.neg, x.l)
IAdd(x, y) == IF x.neg = y.neg THEN MkI(x.neg, LAdd(x.l, y.l))
              ELSE IF LLt(x.l, y.l) THEN MkI(y.neg, LSub(y.l, x.l))
              ELSE MkI(x.neg, LSub(x.l, y.l))
ILt(x, y) == IF x.neg # y.neg THEN x.neg
             ELSE IF x.neg THEN LLt(y.l, x.l) ELSE LLt(x.l, y.l)
\* clamp to a small TLC integer (for indexing): anything beyond 10^9 is +-10^9
ISmall(x) == IF x.l[2] # 0 \/ x.l[3] # 0 THEN (IF x.neg THEN -LB ELSE LB)
             ELSE IF x.neg THEN -x.l[1] ELSE x.l[1]
=============================================================================
