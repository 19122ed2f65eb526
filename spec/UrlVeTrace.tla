----------------------------- MODULE UrlVeTrace -----------------------------
(* What the library's parsers report about texts and hosts, against the Standard's validation errors. *)
EXTENDS UrlVe
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]

OkVe ==
  LET base == IF ev.hb THEN ParseUrl(ev.base, <<>>, UTF8) ELSE <<>>
      bok == ~ev.hb \/ base # <<>>
      j == Judge(ev.in, base, ev.e)
  IN /\ ev.bok = bok
     /\ bok => ev.ok = j.ok /\ ev.err = (~j.ok \/ j.ve)
OkHostVe == LET h == ParseHost(ev.in, ev.ns) IN ev.ok = (h.t # -1) /\ ev.err = (h.t = -1 \/ HostErrs(ev.in, ev.ns))
OkCps == ev.m = [i \in 1..(ev.b - ev.a) |-> IF UrlCp(ev.a + i - 1) THEN 1 ELSE 0]
Ok == CASE ev.op = "reset" -> TRUE [] ev.op = "ve" -> OkVe [] ev.op = "hostve" -> OkHostVe [] ev.op = "cps" -> OkCps [] OTHER -> FALSE

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Ok \/ PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op))
TraceSpec == Init /\ [][Next]_l
=============================================================================
