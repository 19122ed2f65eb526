--------------------------- MODULE HtmlTreeTrace ---------------------------
(* Trees recorded from the library against the parser of the Standard. *)
EXTENDS HtmlTree
CONSTANT Strict         \* FALSE: the known reading of CDATA sections (in HTML content instead of foreign content) is let through
VARIABLES l, bad
HTrace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, bad>>
ev == HTrace[l]
\* the identifiers of a DOCTYPE are known only where the parser was watched
Seen(f) == IF ev.ids THEN f ELSE [i \in 1..Len(f) |-> [f[i] EXCEPT !.p = <<>>, !.s = <<>>]]
DocOk(dev) == LET s == RunDoc(ev.in, ev.sc, dev) IN ev.q = s.quirks /\ ev.r = Seen(FlatDoc(s))
OkDoc == DocOk(FALSE) \/ (~Strict /\ HasCdata(ev.in) /\ DocOk(TRUE))
Ok == CASE ev.op = "reset" -> TRUE [] ev.op = "doc" -> OkDoc [] OTHER -> FALSE
Init == l = 1 /\ bad = FALSE
Next == /\ l <= Len(HTrace) /\ l' = l + 1
        /\ bad' = IF bad /\ ev.op # "reset" THEN TRUE ELSE IF Ok THEN FALSE ELSE PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
