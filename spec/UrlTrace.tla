------------------------------ MODULE UrlTrace ------------------------------
(* Behaviours recorded from the library, event by event: parses, histories of assignments, hosts, percent-encoding. *)
EXTENDS Url
VARIABLES l, bad, cur       \* cur: the URL record of the running history
Trace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, bad, cur>>
ev == Trace[l]
Has(k) == k \in DOMAIN ev

Getters(u) == [href |-> SerUrl(u, FALSE), protocol |-> Append(u.s, 58), username |-> u.u, password |-> u.w, host |-> GHost(u), hostname |-> GHostname(u),
               port |-> GPort(u), pathname |-> SerPath(u), search |-> GSearch(u), hash |-> GHash(u), str |-> SerUrl(u, FALSE), strx |-> SerUrl(u, TRUE)]
(* the empty host and an opaque host of no characters read the same; other hosts must agree in kind *)
Same(a, b) == SameUrl(a, b)

OkParse ==
  LET base == IF ev.hb THEN ParseUrl(ev.base, <<>>, UTF8) ELSE <<>>
      bok == ~ev.hb \/ base # <<>>
      r == IF bok THEN ParseUrl(ev.in, base, ev.e) ELSE <<>>
      r8 == IF ev.e = UTF8 THEN r ELSE IF bok THEN ParseUrl(ev.in, base, UTF8) ELSE <<>>
  IN /\ ev.ok = (r # <<>>) /\ ev.api = (r8 # <<>>) /\ ev.pok = ev.ok /\ ev.ty
     /\ r # <<>> => /\ Has("r") /\ Same(ev.r, r[1]) /\ ev.ser = SerUrl(r[1], FALSE) /\ ev.serx = SerUrl(r[1], TRUE)
                    /\ ev.rt # <<>> /\ Same(ev.rt[1], r[1])
     /\ r8 # <<>> => ev.api /\ Same(ev.ar, r8[1]) /\ ev.g = Getters(r8[1])

OkOpen == LET r == ParseUrl(ev.in, <<>>, UTF8) IN ev.ok = (r # <<>>) /\ (r # <<>> => Has("r") /\ Same(ev.r, r[1]) /\ ev.g = Getters(r[1]))
NextUrl == Set(ev.k, cur, ev.v)
OkSet == LET u == NextUrl IN
  /\ ev.ty
  /\ ev.threw = (ev.k = 9 /\ ParseUrl(ev.v, <<>>, UTF8) = <<>>)
  /\ Same(ev.r, u) /\ ev.g = Getters(u)
  /\ ev.rt # <<>>
  /\ RoundTrip(u) => Same(ev.rt[1], u)

OkHost == LET h == IF ev.in = <<>> /\ ~ev.ns THEN Fail ELSE ParseHost(ev.in, ev.ns)  judged == HostCovered(ev.in, ev.ns) IN
  /\ judged => ev.h = h
  /\ (judged /\ h.t # -1) => Has("ser") /\ ev.ser = SerHost(h) /\ ev.rt = h /\ ev.eq
  /\ ~ev.err                       \* a failure is reported through the error code
\* hosts are equal when they are of one kind and have one value (an empty text is left to the URL parser, except as an opaque host)
OkHostEq == LET x == ParseHost(ev.a, ev.n1)  y == ParseHost(ev.b, ev.n2) IN
  (HostCovered(ev.a, ev.n1) /\ HostCovered(ev.b, ev.n2)) =>
    /\ ev.x = x /\ ev.y = y
    /\ ev.eq = (x.t # -1 /\ y.t # -1 /\ x = y) /\ ev.qe = ev.eq
OkAddr == LET h == IF Len(ev.v) = 4 THEN V4(ev.v) ELSE V6(ev.v) IN ev.ser = SerHost(h) /\ ev.rt = h
OkPenc == LET b == Utf8Bytes(ev.in, 1, <<>>) IN
  /\ ev.out = PctText(ev.e, ev.k, ev.plus, ev.in)
  /\ ev.u8 = Utf8Pct(ev.k, ev.in) /\ ev.u8c = ev.u8
  /\ ev.back = UnpctText(ev.u8)
  /\ (ev.k \in {KComponent, KForm} \/ \A i \in 1..Len(ev.in) : ev.in[i] # 37) => ev.back = b
OkMember == ev.m = [k \in 1..8 |-> [i \in 1..(ev.b - ev.a) |-> IF InSet(k - 1, ev.a + i - 1) THEN 1 ELSE 0]]
OkPdec == ev.o1 = Unpct([i \in 1..Len(ev.in) |-> ev.in[i] % 256]) /\ ev.o2 = UnpctText(ev.in)
OkEq == LET a == ParseUrl(ev.a, <<>>, UTF8)  b == ParseUrl(ev.b, <<>>, UTF8) IN
  /\ ev.aok = (a # <<>>) /\ ev.bok = (b # <<>>)
  /\ (a # <<>> /\ b # <<>>) => /\ ev.eq = (SerUrl(a[1], FALSE) = SerUrl(b[1], FALSE)) /\ ev.qe = ev.eq
                               /\ ev.eqx = (SerUrl(a[1], TRUE) = SerUrl(b[1], TRUE))

Ok == CASE ev.op = "reset" -> TRUE [] ev.op = "parse" -> OkParse [] ev.op = "open" -> OkOpen [] ev.op = "set" -> OkSet [] ev.op = "host" -> OkHost [] ev.op = "hosteq" -> OkHostEq
        [] ev.op = "addr" -> OkAddr [] ev.op = "penc" -> OkPenc [] ev.op = "member" -> OkMember [] ev.op = "pdec" -> OkPdec [] ev.op = "eq" -> OkEq
        [] OTHER -> FALSE

Init == l = 1 /\ bad = FALSE /\ cur = NoUrl
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET ok == ~(bad /\ ev.op # "reset") /\ Ok IN
           /\ bad' = IF ok THEN FALSE ELSE IF bad /\ ev.op # "reset" THEN TRUE ELSE PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op \o (IF Has("k") THEN " " \o ToString(ev.k) ELSE ""))
           /\ cur' = IF ~ok THEN cur ELSE IF ev.op = "open" /\ ev.ok THEN ParseUrl(ev.in, <<>>, UTF8)[1] ELSE IF ev.op = "set" THEN NextUrl ELSE cur
TraceSpec == Init /\ [][Next]_vars
=============================================================================
