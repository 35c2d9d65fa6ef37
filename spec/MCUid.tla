------------------------------- MODULE MCUid -------------------------------
(* Requests for identifiers: every sequence up to a length.                   *)
EXTENDS PHist
Model == JsonDeserialize(IOEnv.PAPYRI_MODEL)
VARIABLES used, n, hist
Asks == Model.asks          \* sequence of [base, max]
Init == used = {} /\ n = 0 /\ hist = <<>>
Ask(i) == LET a == Asks[i] u == UniqueId(used, a.base, a.max) IN
  /\ used' = used \cup {u} /\ n' = n + 1
  /\ hist' = Append(hist, [base |-> a.base, max |-> a.max, clear |-> FALSE, id |-> u])
Clear == hist # <<>> /\ used' = {} /\ n' = 0 /\ hist' = Append(hist, [base |-> "", max |-> 0, clear |-> TRUE, id |-> ""])
Next == Len(hist) < Model.depth /\ (Clear \/ \E i \in DOMAIN Asks : Ask(i))
Unique == Cardinality(used) = n
Valid == \A i \in DOMAIN hist : hist[i].clear \/ (ValidId(hist[i].id) /\ (hist[i].max >= 4 => Len(hist[i].id) <= hist[i].max))
\* the identifier asked for is given when it is free, and a counted variant of it otherwise
Derived == \A i \in DOMAIN hist : hist[i].clear \/ LET b == BaseId(hist[i].base, hist[i].max)  c == hist[i].id IN
  \/ c = b \/ \E k \in 1..Len(b) : HasPrefix(c, SubSeq(b, 1, k) \o "_")
Emit == Len(hist) = Model.depth => PrintT(ToJson([hist |-> hist]))
=============================================================================
