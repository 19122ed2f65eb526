--------------------------- MODULE HostWriteTrace ---------------------------
(* What the library says of texts as hosts, and what it makes of domains, event by event. *)
EXTENDS HostWrite
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]

OkWrite ==
  LET in == ev.in  cov == DomainCovered(in)  jud == DomainJudged(in)
      a == IdnaAscii(in, FALSE)  t == IdnaAscii(in, TRUE)  u == DomainToUnicode(in)
  IN /\ ev.v4 = ValidV4(in)
     /\ ev.v6 = ValidV6(in)
     /\ ev.opaque = ValidOpaque(in)
     /\ jud => ev.domain = ValidDomain(in) /\ ev.host = ValidHost(in) /\ ev.tok = t.ok /\ (t.ok => ev.t = t.s)
     /\ ~jud => ev.host = (ev.domain \/ ValidV4(in) \/ Bracketed(in))
     /\ cov => /\ ev.aok = a.ok /\ (a.ok => ev.a = a.s)
               /\ ev.uok = u.ok /\ (u.ok => ev.u = u.s)
     /\ ev.kept /\ ev.back
OkHost == LET h == ParseHost(ev.in, ev.ns) IN
  /\ HostCovered(ev.in, ev.ns) => ev.h = h
  /\ (HostCovered(ev.in, ev.ns) /\ h.t # -1) => "ser" \in DOMAIN ev /\ ev.ser = SerHost(h) /\ ev.rt = h /\ ev.eq
  /\ ~ev.err
Ok == CASE ev.op = "reset" -> TRUE [] ev.op = "write" -> OkWrite [] ev.op = "host" -> OkHost [] OTHER -> FALSE

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Ok \/ PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op))
TraceSpec == Init /\ [][Next]_l
=============================================================================
