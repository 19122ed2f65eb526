----------------------------- MODULE InfraTrace -----------------------------
(* Recorded results of the library's string operations against Infra. *)
EXTENDS Infra
VARIABLES l, bad
ITrace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, bad>>
ev == ITrace[l]
\* one text, in one of the string types (w: 8, 16 or 32)
OkText == LET t == ev.in IN
    /\ ev.asc = (\A i \in 1..Len(t) : t[i] < 128)
    /\ ev.low = Lowercase(t) /\ ev.up = Uppercase(t)
    /\ ev.m1 = Match(t, ev.o) /\ ev.m2 = Match(t, Uppercase(t)) /\ ev.m3 = Match(ev.o, t)
    /\ ev.snl = StripNewlines(t) /\ ev.nnl = Normalize(t)
    /\ ev.strip = Strip(t) /\ ev.coll = Collapse(t)
    /\ ev.col = Collect(t, {44}) /\ ev.coln = Size(Collect(t, {44}), ev.w)
    /\ ev.skip = Size(SubSeq(t, 1, Past(t, 1, W) - 1), ev.w)
    /\ ev.strict = StrictSplit(t, ev.d) /\ ev.sws = SplitWs(t) /\ ev.scom = SplitCommas(t)
OkBytes == LET t == ev.in  all == \A i \in 1..Len(t) : t[i] < 128 IN
    /\ ev.low = Lowercase(t) /\ ev.up = Uppercase(t) /\ ev.m = Match(t, ev.o) /\ ev.iso = t /\ ev.enc = t
    /\ (all => ev.ad = t /\ ev.ae = t)
    /\ ev.asc = [i \in 1..Len(t) |-> t[i] < 128]
OkClass == ev.r = Classes[ev.k]
\* every scalar value of a plane written and read back: a run is first, last, the units of first, what first reads back as;
\* along a run the last unit and the value read grow by one
SameBlock(a, b, w) == IF w = 8 THEN b < 128 \/ (a >= 128 /\ a \div 64 = b \div 64) ELSE b < 65536 \/ (a - 65536) \div 1024 = (b - 65536) \div 1024
OkUnits == LET r == ev.r  w == ev.w  lo == ev.p * 65536  hi == lo + 65535 IN
    /\ Len(r) > 0 /\ r[1][1] = lo /\ r[Len(r)][2] = hi
    /\ \A i \in 1..Len(r) : /\ r[i][1] <= r[i][2] /\ SameBlock(r[i][1], r[i][2], w) /\ r[i][3] = Units(r[i][1], w) /\ r[i][4] = r[i][1]
                            /\ (i > 1 => r[i][1] = IF r[i - 1][2] = 55295 THEN 57344 ELSE r[i - 1][2] + 1)
RECURSIVE Steps(_, _)
Steps(s, i) == IF i > Len(ev.in) THEN TRUE
               ELSE LET u == Append(s, ev.in[i]) IN ev.r[i] = MatchState(ev.words, u) /\ ev.data[i] = u /\ Steps(IF ev.r[i] = "partial" THEN u ELSE <<>>, i + 1)
Ok == CASE ev.op = "reset" -> TRUE [] ev.op = "text" -> OkText [] ev.op = "bytes" -> OkBytes [] ev.op = "class" -> OkClass [] ev.op = "units" -> OkUnits [] ev.op = "match" -> Steps(<<>>, 1) [] OTHER -> FALSE
Init == l = 1 /\ bad = FALSE
Next == /\ l <= Len(ITrace) /\ l' = l + 1
        /\ bad' = IF bad /\ ev.op # "reset" THEN TRUE ELSE IF Ok THEN FALSE ELSE PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
