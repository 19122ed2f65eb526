---------------------------- MODULE HtmlTreeShow ----------------------------
(* Prints the trees of the Standard for recorded inputs (a debugging aid: not part of any check). *)
EXTENDS HtmlTree
VARIABLE l
HTrace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1
Next == /\ l <= Len(HTrace) /\ l' = l + 1
        /\ LET s == RunDoc(HTrace[l].in, HTrace[l].sc, FALSE) IN PrintT("SHOW " \o ToJson([c |-> HTrace[l].c, q |-> s.quirks, m |-> s.mode, r |-> FlatDoc(s)]))
Spec == Init /\ [][Next]_l
=============================================================================
