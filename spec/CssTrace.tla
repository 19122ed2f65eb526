------------------------------ MODULE CssTrace ------------------------------
(* Behaviours recorded from the library: tokens of a text, results of the entry points, style sheets from bytes. *)
EXTENDS CssParser, Encoding
VARIABLES l, bad
CTrace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, bad>>
ev == CTrace[l]
Has(k) == k \in DOMAIN ev

Results(ts) == <<ParseStylesheet(ts), ParseRules(ts), ParseRule(ts), ParseDecl(ts), ParseDecls(ts), ParseValue(ts), ParseValues(ts), ParseCommaList(ts)>>
OkTok == LET p == Preprocess(ev.in) IN ev.pre = p /\ ev.t = Tokenize(p) /\ ev.same
OkParse == ev.r = Results(TokenizeText(ev.in)) /\ ev.st /\ ev.sv /\ ev.cp

(* section 3.2 *)
CHARSET == <<64, 99, 104, 97, 114, 115, 101, 116, 32, 34>>
RECURSIVE QuoteAt(_, _)
QuoteAt(q, p) == IF p > Len(q) THEN 0 ELSE IF q[p] = 34 THEN p ELSE IF q[p] >= 128 THEN 0 ELSE QuoteAt(q, p + 1)
Fallback(fb, b) ==
  LET q == IF Len(b) > 1024 THEN SubSeq(b, 1, 1024) ELSE b
      k == IF Len(q) >= 10 /\ SubSeq(q, 1, 10) = CHARSET THEN QuoteAt(q, 11) ELSE 0
      e == IF k > 0 /\ k < Len(q) /\ q[k + 1] = 59 THEN LabelName(SubSeq(q, 11, k - 1)) ELSE 0
  IN IF fb # 0 THEN fb ELSE IF e = 0 \/ e = UTF16BE \/ e = UTF16LE THEN UTF8 ELSE e
OkBytes == LET e == Fallback(ev.fb, ev.in)  t == HookDecode(e, ev.in) IN ev.e = e /\ ev.out = t /\ ev.r = ParseStylesheet(TokenizeText(t))

Ok == CASE ev.op = "reset" -> TRUE [] ev.op = "tok" -> OkTok [] ev.op = "parse" -> OkParse [] ev.op = "bytes" -> OkBytes [] OTHER -> FALSE
Init == l = 1 /\ bad = FALSE
Next == /\ l <= Len(CTrace) /\ l' = l + 1
        /\ bad' = IF bad /\ ev.op # "reset" THEN TRUE ELSE IF Ok THEN FALSE ELSE PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
