---------------------------- MODULE HtmlTokTrace ----------------------------
(* Token sequences recorded from the library against the tokeniser of the Standard. *)
EXTENDS HtmlTokenizer
CONSTANT Strict         \* FALSE: the known reading of CDATA sections (in HTML content instead of foreign content) is let through
VARIABLES l, bad
HTrace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, bad>>
ev == HTrace[l]
\* end tags: attributes and the self-closing flag have no effect, and are not compared
View(x) == [t |-> x.t, n |-> x.n, d |-> x.d, a |-> IF x.t = "e" THEN <<>> ELSE x.a, sc |-> (x.t # "e" /\ x.sc), p |-> x.p, s |-> x.s, q |-> x.q]
\* stk: 0 no open element, 1 an HTML element, 2 an SVG element
RunOk(cd) == LET ts == Tokens(ev.in, ev.st, ev.last, cd) IN ev.r = [i \in 1..Len(ts) |-> View(ts[i])]
OkRun == RunOk(ev.stk = 2) \/ (~Strict /\ RunOk(ev.stk = 1))
\* a text that leaves the tokeniser in the data state, and neither begins nor ends with characters: repeating it repeats its tokens
RECURSIVE Upto(_, _, _)
Upto(t, In, cd) == IF t.pos > Len(In) THEN t ELSE Upto(Step(t, In, cd), In, cd)
Returns(In, cd) == LET t == Upto(Tok0("data", <<>>), In, cd) IN t.st = "data" /\ t.out # <<>> /\ (t.out[1].t # "c" \/ t.out[Len(t.out)].t # "c")
RepOk(cd) == LET ts == Tokens(ev.in, "data", <<>>, cd) IN Returns(ev.in, cd) /\ ev.same /\ ev.r = [i \in 1..Len(ts) |-> View(ts[i])]
OkRep == RepOk(ev.stk = 2) \/ (~Strict /\ RepOk(ev.stk = 1))
Ok == CASE ev.op = "reset" -> TRUE [] ev.op = "run" -> OkRun [] ev.op = "rep" -> OkRep [] OTHER -> FALSE
Init == l = 1 /\ bad = FALSE
Next == /\ l <= Len(HTrace) /\ l' = l + 1
        /\ bad' = IF bad /\ ev.op # "reset" THEN TRUE ELSE IF Ok THEN FALSE ELSE PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
