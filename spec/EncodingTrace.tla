---------------------------- MODULE EncodingTrace ----------------------------
EXTENDS Encoding
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, bad>>
ev == Trace[l]
Has(k) == k \in DOMAIN ev

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* feeding chunks in turn, then the end of the queue: what comes out after each feed *)
RECURSIVE Feeds(_, _, _, _)
Feeds(e, s, cs, acc) ==
  IF cs = <<>> THEN LET r == Run(e, s, <<>>, 1, TRUE, <<>>, <<>>) IN [outs |-> Append(acc, r.o), fin |-> r.fin]
  ELSE LET r == Chunk(e, s, Head(cs)) IN
    IF r.fin THEN [outs |-> Append(acc, r.o), fin |-> TRUE] ELSE Feeds(e, r.s, Tail(cs), Append(acc, r.o))

OkDec == LET f == Feeds(ev.e, DecInit(ev.e), ev.in, <<>>)
             w == Whole(ev.e, Flat(ev.in)) IN
  /\ ev.rep = [i \in 1..Len(f.outs) |-> Replace(f.outs[i])] /\ ev.fin = f.fin /\ ev.eoqs = 1
  /\ ev.fat = UpToErr(w) /\ ev.err = HasErr(w)

OkHook == /\ ev.dec = HookDecode(ev.e, ev.in) /\ ev.decfin
          /\ ev.u8 = HookUtf8(ev.in) /\ ev.u8fin
          /\ ev.nobom = Text(UTF8, ev.in) /\ ev.nobomfin
          /\ ev.orfail = UpToErr(Whole(UTF8, ev.in)) /\ ev.orfailerr = HasErr(Whole(UTF8, ev.in))
          /\ ev.bom = BomOf(ev.in) /\ ~ev.bomwait
          /\ ev.pend = (IF Len(ev.in) < 3 THEN -1 ELSE BomOf(ev.in))   \* without an end of queue fewer than three bytes must wait
          /\ ev.waits /\ (\A i \in 1..Len(ev.later) : ev.later[i] = ev.dec) /\ (\A i \in 1..Len(ev.u8later) : ev.u8later[i] = ev.u8)   \* and deciding later changes nothing

RECURSIVE TdAll(_, _, _, _, _)
TdAll(i, st, nf, n, ok) ==
  IF i > n \/ ~ok THEN ok
  ELSE LET c == ev.calls[i]  r == TdCall(ev.e, ev.fatal, ev.ign, st, nf, c.in, c.stream) IN
    IF r.threw THEN c.threw /\ i = n ELSE TdAll(i + 1, r.st, c.stream, n, ~c.threw /\ c.out = r.out)
OkTd == TdAll(1, TdFresh(ev.e), FALSE, Len(ev.calls), ev.label = Data.names[ev.e] /\ ev.same)

OkLabel == /\ ev.name = LabelName(ev.in)
           /\ ev.tdthrow = (ev.name = 0 \/ ev.name = REPL) /\ ev.named = ev.tdthrow
           /\ ev.name # 0 => ev.label = Data.names[ev.name]
           /\ ev.outname = (IF ev.name \in {REPL, UTF16BE, UTF16LE} THEN UTF8 ELSE ev.name)

OkEnc == LET f == EncFatal(ev.e, ASCII, ev.in, 1, <<>>) IN
  /\ ev.html = EncHtml(ev.e, ASCII, ev.in, 1, <<>>) /\ ev.htmlfin
  /\ ev.fat = f.b /\ ev.err = f.cp
  /\ ev.calls = EncCalls(ev.e, ASCII, ev.in, <<>>)
  \* what encodes without error decodes to the same text, one-way mappings of the Standard aside
  /\ (f.cp = -1 /\ ~(ev.e \in {EUCJP, SJIS, ISO2022JP} /\ \E i \in 1..Len(ev.in) : ev.in[i] \in {165, 8254, 8722} \cup 65377..65439)) => ev.rt = ev.in
  /\ (ev.e = UTF8) => ev.u8 = ev.html

Units16(c) == IF c <= 65535 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
OkCast == LET t == ev.in
              b8 == Flat([i \in 1..Len(t) |-> EncUTF8(t[i])])
              b16 == Flat([i \in 1..Len(t) |-> Units16(t[i])]) IN
  /\ ev.s = b8 /\ ev.u8 = b8 /\ ev.u16 = b16 /\ ev.u32 = t
  /\ ev.r1 = t /\ ev.r2 = t /\ ev.r3 = t /\ ev.x1 = b16 /\ ev.x2 = b8

(* the I/O queue: contents q (end of queue = -1), operations push(1) read(2) readn(3) peek(4) prepend(5) *)
HasEoq(q) == Len(q) > 0 /\ q[Len(q)] = EOQ
RECURSIVE ReadN(_, _, _)
ReadN(q, n, acc) == IF n = 0 \/ Head(q) = EOQ THEN [q |-> q, r |-> acc] ELSE ReadN(Tail(q), n - 1, Append(acc, Head(q)))
Items(q) == IF HasEoq(q) THEN SubSeq(q, 1, Len(q) - 1) ELSE q
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Ioq(_, _, _)
Ioq(q, i, n) ==
  IF i > n THEN TRUE
  ELSE LET o == ev.ops[i] IN
    CASE o.k = 1 -> /\ o.r = <<>> /\ Ioq(IF HasEoq(q) THEN (IF o.x = EOQ THEN q ELSE Append(Items(q), o.x) \o <<EOQ>>) ELSE Append(q, o.x), i + 1, n)
      [] o.k = 2 -> IF q = <<>> THEN o.wait /\ Ioq(q, i + 1, n)
                    ELSE ~o.wait /\ o.r = <<Head(q)>> /\ Ioq(IF Head(q) = EOQ THEN q ELSE Tail(q), i + 1, n)
      [] o.k = 3 -> IF ~HasEoq(q) /\ Len(q) < o.x THEN o.wait /\ Ioq(q, i + 1, n)
                    ELSE LET r == ReadN(q, o.x, <<>>) IN ~o.wait /\ o.r = r.r /\ Ioq(r.q, i + 1, n)
      [] o.k = 4 -> IF ~HasEoq(q) /\ Len(q) < o.x THEN o.wait /\ Ioq(q, i + 1, n)
                    ELSE ~o.wait /\ o.r = SubSeq(Items(q), 1, Min(o.x, Len(Items(q)))) /\ Ioq(q, i + 1, n)
      [] o.k = 6 -> o.r = Items(q) /\ Ioq(q, i + 1, n)
      [] OTHER -> Ioq(o.s \o q, i + 1, n)

Ok == CASE ev.op = "reset" -> TRUE
        [] ev.op = "dec" -> OkDec
        [] ev.op = "hook" -> OkHook
        [] ev.op = "td" -> OkTd
        [] ev.op = "label" -> OkLabel
        [] ev.op = "enc" -> OkEnc
        [] ev.op = "cast" -> OkCast
        [] ev.op = "ioq" -> Ioq(<<>>, 1, Len(ev.ops))
        [] OTHER -> FALSE

Init == l = 1 /\ bad = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok THEN FALSE ELSE PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op \o (IF Has("e") THEN " e=" \o ToString(ev.e) ELSE ""))
TraceSpec == Init /\ [][Next]_vars
=============================================================================
