------------------------------- MODULE MCHtml -------------------------------
(* HTML values put together from texts in every way, up to a size.            *)
EXTENDS PHist
Model == JsonDeserialize(IOEnv.PAPYRI_MODEL)
VARIABLE t
Leaf(s) == [leaf |-> TRUE, s |-> s, ch |-> <<>>]
Node(c) == [leaf |-> FALSE, s |-> "", ch |-> c]
Leaves == {Leaf(Model.texts[i]) : i \in DOMAIN Model.texts}
RECURSIVE Size(_)
Size(u) == IF u.leaf THEN 1 ELSE 1 + Fold(LAMBDA a, b : a + b, 0, [i \in DOMAIN u.ch |-> Size(u.ch[i])])
Init == t \in Leaves \cup {Node(<<>>)}
Next == /\ Size(t) < Model.size
        /\ \/ t' = Node(<<t>>)
           \/ ~t.leaf /\ \E l \in Leaves \cup {Node(<<>>)} : t' = Node(Append(t.ch, l)) \/ t' = Node(<<l>> \o t.ch)
           \/ ~t.leaf /\ \E l \in Leaves : t' = Node(<<Node(t.ch), Node(<<l>>)>>)
H(u) == TreeH(u)
Normal == IsNormal(H(t))
\* grouping of the parts makes no difference, and nothing is lost
Associative == ~t.leaf => \A k \in 0..Len(t.ch) : H(Node(<<Node(SubSeq(t.ch, 1, k)), Node(SubSeq(t.ch, k+1, Len(t.ch)))>>)) = H(t)
Identity == H(Node(<<t, Leaf("")>>)) = H(t) /\ H(Node(<<Node(<<>>), t>>)) = H(t)
RECURSIVE AllText(_)
AllText(u) == IF u.leaf THEN u.s ELSE LET X == [i \in DOMAIN u.ch |-> AllText(u.ch[i])] IN Cat(X, 1, Len(X))
Lossless == TextOf(H(t)) = AllText(t)
Emit == PrintT(ToJson([t |-> t]))
=============================================================================
