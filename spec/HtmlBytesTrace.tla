--------------------------- MODULE HtmlBytesTrace ---------------------------
(* Trees made of bytes by the library, and encodings extracted from meta elements, against the Standard's reading of them. *)
EXTENDS HtmlBytes
VARIABLES l, bad
HTrace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, bad>>
ev == HTrace[l]
Seen(f) == [i \in 1..Len(f) |-> [f[i] EXCEPT !.p = <<>>, !.s = <<>>]]
OkBytes == LET s == Read(ev.in, ev.e, ev.conf).tree IN ev.q = s.quirks /\ ev.r = Seen(FlatDoc(s))
Ok == CASE ev.op = "reset" -> TRUE [] ev.op = "bytes" -> OkBytes [] ev.op = "extract" -> ev.r = ExtractMeta(ev.in) [] OTHER -> FALSE
Init == l = 1 /\ bad = FALSE
Next == /\ l <= Len(HTrace) /\ l' = l + 1
        /\ bad' = IF bad /\ ev.op # "reset" THEN TRUE ELSE IF Ok THEN FALSE ELSE PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
