----------------------------- MODULE NamesTrace -----------------------------
(* Recorded calls on elements, attributes and nodes against Names. *)
EXTENDS Names
VARIABLES l, bad, el, saved
NTrace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, bad, el, saved>>
ev == NTrace[l]
None == El(<<>>, <<>>, <<>>)
Clean == ev.op = "reset"
Els == [k |-> IF ev.k = "npush" THEN "push" ELSE ev.k, ns |-> ev.ns, pre |-> ev.pre, n |-> ev.n, v |-> ev.v, i |-> ev.i]
E2 == IF ev.op = "call" THEN After(el, Els) ELSE None
S2 == IF ev.op # "call" THEN None ELSE IF ev.k = "save" THEN el ELSE saved
\* the getters of the element and of a node made of it
OkShown == LET s == Shown(E2) IN
    /\ ev.sh = s
    /\ ev.nd.ns = s.ns /\ ev.nd.nse = s.nse /\ ev.nd.n = s.n /\ ev.nd.ne = s.ne /\ ev.nd.q = s.q /\ ev.nd.a = s.a /\ ev.nd.type = 1 /\ ev.nd.el
\* every form in which the question was asked gives the one answer
OkAnswer == LET a == IF ev.k = "isattr" THEN (IF el.a[ev.i].n = Name("attr", ev.n) THEN 1 ELSE 0) ELSE Answer(el, saved, Els) IN
    ((ev.k = "eq" => Distinct(el) /\ Distinct(saved)) => \A j \in 1..Len(ev.rs) : ev.rs[j] = a)
Bit(b) == IF b THEN 1 ELSE 0
OkKind == LET k == ev.k  t == Kind(k) IN
    /\ ev.type = k /\ ev.is = <<Bit(k = 1), Bit(k = 3), Bit(k = 7), Bit(k = 8), Bit(k = 9), Bit(k = 10)>> /\ ~ev.other
    /\ ev.data = (IF "data" \in t THEN ev.a ELSE <<>>) /\ ev.target = (IF "target" \in t THEN ev.b ELSE <<>>)
    /\ ev.name = (IF "name" \in t THEN (IF ev.how = 1 THEN ev.cc ELSE ev.a) ELSE <<>>)
    /\ ev.pub = (IF "ids" \in t THEN (IF ev.how = 1 THEN ev.a ELSE ev.b) ELSE <<>>) /\ ev.sys = (IF "ids" \in t THEN (IF ev.how = 1 THEN ev.b ELSE ev.cc) ELSE <<>>)
    /\ ("mode" \in t => ev.odt = ev.dt /\ ev.odm = ev.dm)
Ok == CASE ev.op = "reset" -> TRUE [] ev.op = "call" -> OkAnswer /\ OkShown [] ev.op = "kind" -> OkKind [] OTHER -> FALSE
Init == l = 1 /\ bad = FALSE /\ el = None /\ saved = None
Next == /\ l <= Len(NTrace) /\ l' = l + 1
        /\ IF bad /\ ev.op # "reset" THEN UNCHANGED <<bad, el, saved>>
           ELSE LET ok == Ok IN
                /\ bad' = IF ok THEN FALSE ELSE PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op \o (IF ev.op = "call" THEN " " \o ev.k ELSE ""))
                /\ el' = (IF ok THEN E2 ELSE None) /\ saved' = (IF ok THEN S2 ELSE None)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
