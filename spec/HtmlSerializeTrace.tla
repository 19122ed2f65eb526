------------------------- MODULE HtmlSerializeTrace -------------------------
(* Texts written by the library for trees, and the trees it reads from them, against the Standard's algorithm. *)
EXTENDS HtmlSerialize
VARIABLES l, bad
STrace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, bad>>
ev == STrace[l]
SerOk == /\ ev.out = Ser(ev.r, ev.pre, ev.i)
         \* a tree that can be written and read again without loss is
         /\ ev.again => (ev.re = ev.r \/ HasCdata(ev.out) \/ ~RoundTrips(ev.r))
Ok == CASE ev.op = "reset" -> TRUE [] ev.op = "ser" -> SerOk [] OTHER -> FALSE
Init == l = 1 /\ bad = FALSE
Next == /\ l <= Len(STrace) /\ l' = l + 1
        /\ bad' = IF bad /\ ev.op # "reset" THEN TRUE ELSE IF Ok THEN FALSE ELSE PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
