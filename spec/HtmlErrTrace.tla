---------------------------- MODULE HtmlErrTrace ----------------------------
(* Parse errors recorded from the library's tokeniser and input stream against those of the Standard. *)
EXTENDS HtmlErrors
CONSTANT Strict         \* FALSE: the known reading of CDATA sections (in HTML content instead of foreign content) is let through
VARIABLES l, bad
HTrace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, bad>>
ev == HTrace[l]
InputCodes == {ControlInput, NoncharInput, SurrogateInput}
OfInput(x) == x \in InputCodes
OfTokens(x) == x \notin InputCodes
Acked == {<<98, 114>>}                                      \* the consumer of the harness acknowledges <br/>
\* the two errors of one end tag come in either order
RECURSIVE Canon(_, _, _)
Canon(s, i, acc) == IF i > Len(s) THEN acc
                    ELSE IF s[i] = EndTagSlash /\ i < Len(s) /\ s[i + 1] = EndTagAttrs THEN Canon(s, i + 2, acc \o <<EndTagAttrs, EndTagSlash>>)
                    ELSE Canon(s, i + 1, Append(acc, s[i]))
TokOk(cd) == Canon(SelectSeq(ev.e, OfTokens), 1, <<>>) = Errors(ev.in, ev.st, ev.last, cd, Acked)
OkRun == /\ SelectSeq(ev.e, OfInput) = InputErrs(ev.in, 1, <<>>)
         /\ TokOk(ev.stk = 2) \/ (~Strict /\ TokOk(ev.stk = 1))
\* the whole parser, on a document of HTML elements whose insertion mode takes them: the solidus is acknowledged for void elements and foreign ones
Void == {<<98, 114>>, <<104, 114>>, <<105, 109, 103>>, <<119, 98, 114>>, <<101, 109, 98, 101, 100>>, <<105, 110, 112, 117, 116>>, <<109, 101, 116, 97>>, <<108, 105, 110, 107>>, <<98, 97, 115, 101>>, <<97, 114, 101, 97>>,
         <<105, 109, 97, 103, 101>>, <<112, 97, 114, 97, 109>>, <<115, 111, 117, 114, 99, 101>>, <<116, 114, 97, 99, 107>>, <<115, 118, 103>>, <<109, 97, 116, 104>>}
OkWhole == LET es == Errors(ev.in, "data", <<>>, FALSE, Void) IN ev.n = Cardinality({i \in 1..Len(es) : es[i] = SelfClosing})
Ok == CASE ev.op = "reset" -> TRUE [] ev.op = "run" -> OkRun [] ev.op = "whole" -> OkWhole [] OTHER -> FALSE
Init == l = 1 /\ bad = FALSE
Next == /\ l <= Len(HTrace) /\ l' = l + 1
        /\ bad' = IF bad /\ ev.op # "reset" THEN TRUE ELSE IF Ok THEN FALSE ELSE PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op)
TraceSpec == Init /\ [][Next]_vars
=============================================================================
