------------------------------ MODULE NamesMC ------------------------------
(* All histories of up to MaxLen calls on an element, with names given as strings or enumerators. *)
EXTENDS Names
CONSTANT MaxLen
VARIABLES n, el, saved
Refs(kind, S) == [e : {0}, s : S] \cup [e : {i \in 1..Len(Tbl[kind]) : Tbl[kind][i] \in S}, s : {<<>>}]
NsRef == Refs("ns", {<<>>, Tbl.ns[1], <<120>>})
AtRef == Refs("attr", {Tbl.attr[1], <<105, 100>>, <<120>>})
TagRef == Refs("tag", {Tbl.tag[1], <<120>>})
Pre == {<<>>, <<112>>}
C0 == [k |-> "", ns |-> [e |-> 0, s |-> <<>>], pre |-> <<>>, n |-> [e |-> 0, s |-> <<>>], v |-> <<>>, i |-> 0]
Calls == [k : {"new"}, ns : NsRef, pre : {<<>>}, n : TagRef, v : {<<>>}, i : {0}] \cup [k : {"newhtml", "setname"}, ns : {C0.ns}, pre : {<<>>}, n : TagRef, v : {<<>>}, i : {0}]
         \cup [k : {"push"}, ns : NsRef, pre : Pre, n : AtRef, v : {<<>>, <<49>>}, i : {0}]
         \cup [k : {"aname"}, ns : {C0.ns}, pre : {<<>>}, n : AtRef, v : {<<>>}, i : 1..2] \cup [k : {"aval"}, ns : {C0.ns}, pre : {<<>>}, n : {C0.n}, v : {<<50>>}, i : 1..2]
Init == n = 0 /\ el = El(<<>>, <<>>, <<>>) /\ saved = el
Call == n < MaxLen /\ n' = n + 1 /\ UNCHANGED saved /\ \E c \in Calls : (c.i <= Len(el.a)) /\ el' = After(el, c)
Save == n < MaxLen /\ n' = n + 1 /\ saved' = el /\ el' = El(<<>>, <<>>, <<>>)
Next == Call \/ Save
Spec == Init /\ [][Next]_<<n, el, saved>>
\* a name is found by string and by enumerator alike, and the first of its kind is found
FindOk == \A r1, r2 \in AtRef, ns \in NsRef, p \in Pre : Name("attr", r1) = Name("attr", r2) =>
    LET x == Find(el, Name("ns", ns), p, Name("attr", r1)) IN
    /\ x = Find(el, Name("ns", ns), p, Name("attr", r2))
    /\ (x <= Len(el.a) => el.a[x].n = Name("attr", r1) /\ \A j \in 1..(x - 1) : ~SameName(el.a[x], el.a[j]))
\* equality of elements with distinct attributes is an equivalence
EqOk == (Distinct(el) /\ Distinct(saved)) => Equal(el, el) /\ (Equal(el, saved) <=> Equal(saved, el))
ASSUME Tbl.attr[1] # <<105, 100>>
\* enumerators are for known names only, one each
KnownOk == \A k \in {"ns", "tag", "attr"} : /\ Cardinality(DOMAIN Idx[k]) = Len(Tbl[k])
                                            /\ \A i \in 1..Len(Tbl[k]) : Known(k, Tbl[k][i]) = i /\ Tbl[k][i] # <<>>
ASSUME KnownOk
=============================================================================
