------------------------------ MODULE SelTrace -------------------------------
(* Behaviours recorded from the library: parsing of selector strings; queries on a document (the "doc" event sets the document the next ones ask). *)
EXTENDS SelectorMatch, TLC, IOUtils, Json
CONSTANT Strict         \* FALSE: the known reading of [attr|=value] is let through
VARIABLES l, bad, doc
CTrace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<l, bad, doc>>
ev == CTrace[l]
Has(k) == k \in DOMAIN ev

Values(t) == ParseValues(TokenizeText(t))
OkParse ==
  LET v == Values(ev.in)  ns == {ev.ns[i] : i \in 1..Len(ev.ns)} IN
  /\ ev.copy /\ ev.ok = (ev.s # <<>>) /\ ev.rok = (ev.r # <<>>)
  /\ Open(v) \/ (ev.s = SelectorList(v, ns) /\ ev.r = RelativeList(v, ns))
Ctx(dash) == [html |-> doc.html, quirks |-> doc.quirks, ns |-> doc.ns, dash |-> dash]
Answers(dash) ==
  LET x == Ctx(dash)
      s == SelectorList(Values(ev.in), Declared(doc.ns))
      m == {e \in 1..Len(doc.d) : MatchList(doc.d, x, s, e)}
      q == [np \in 1..Len(doc.d) |-> Ascending({e \in m : np \in Ancestors(doc.d, e)})]
  IN /\ ev.tree = Ascending(m)
     /\ ev.kid = q /\ ev.sco = q         \* over the children of a node; over the whole tree with a scoping root
     /\ ev.sub = [np \in 1..Len(doc.d) |-> (IF np \in m THEN <<np>> ELSE <<>>) \o q[np]]
     /\ Has("all") => ev.same /\ ev.all = q /\ ev.one = [np \in 1..Len(doc.d) |-> IF q[np] = <<>> THEN 0 ELSE q[np][1]]
OkQuery == Answers(TRUE) \/ (~Strict /\ Answers(FALSE))

Ok == CASE ev.op = "reset" -> TRUE [] ev.op = "parse" -> OkParse [] ev.op = "doc" -> TRUE [] ev.op = "q" -> OkQuery [] OTHER -> FALSE
Init == l = 1 /\ bad = FALSE /\ doc = <<>>
Next == /\ l <= Len(CTrace) /\ l' = l + 1
        /\ doc' = IF ev.op = "doc" THEN ev ELSE doc
        /\ bad' = IF bad /\ ev.op # "reset" THEN TRUE ELSE IF Ok THEN FALSE ELSE PrintT("REJECT " \o ToString(ev.c) \o " " \o ev.op)
TraceSpec == Init /\ [][Next]_vars
==============================================================================
