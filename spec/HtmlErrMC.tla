----------------------------- MODULE HtmlErrMC -----------------------------
(* The runs of HtmlTokMC with the errors they report: what every run must satisfy.                                           *)
EXTENDS HtmlTokMC, HtmlErrors
VARIABLE errs
EInit == Init /\ errs = <<>>
ENext == Next /\ errs' = errs \o Errs(t, input, cd, {})
ESpec == EInit /\ [][ENext]_<<input, start, cd, t, idle, errs>>

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Read == SubSeq(input, 1, t.pos - 1)
Eofs == {EofTagName, EofCdata, EofComment, EofDoctype, EofScriptComment, EofTag}
Tags(k) == {i \in 1..Len(t.out) : t.out[i].t = k}
RECURSIVE Dropped(_)
Dropped(i) == IF i = 0 THEN 0 ELSE Dropped(i - 1) + (IF t.tag.a[i].om THEN 1 ELSE 0)

ErrType == \A i \in 1..Len(errs) : errs[i] \in 1..49 \ {ControlInput, NoncharInput, SurrogateInput}
\* a U+0000 that is read is reported, once, outside CDATA sections
NulOnce == Family # "cdata" => Count(errs, UnexpectedNull) = Count(Read, 0)
\* the end of the file is reported at the end, once
EofOnce == \A i \in 1..Len(errs) : errs[i] \in Eofs => (t.done /\ i = Len(errs))
\* the end of the file is silent only where the text around markup can end
EofSilent == (t.done /\ (errs = <<>> \/ errs[Len(errs)] \notin Eofs)) => t.st \in TextStates \cup {"bc", "bdt"}
\* a DOCTYPE that forces quirks, and the errors of it
Quirked == \A i \in Tags("d") : t.out[i].q => \E j \in 1..Len(errs) : errs[j] \in {EofDoctype, NoDoctypeName, AfterDoctypeName, NoPublicId, NoPublicQuote, AbruptPublic, NoSystemQuote, NoSystemId, AbruptSystem}
\* a self-closing start tag, an end tag with a slash or with attributes
Solidus == Count(errs, SelfClosing) = Cardinality({i \in Tags("s") : t.out[i].sc})
EndTags == /\ Count(errs, EndTagSlash) = Cardinality({i \in Tags("e") : t.out[i].sc})
           /\ Count(errs, EndTagAttrs) = Cardinality({i \in Tags("e") : t.out[i].a # <<>>})
\* the attributes dropped from the tag being read are those reported
Dups == (Family = "tag" /\ \A i \in 1..Len(t.out) : t.out[i].t \notin {"s", "e"}) => Count(errs, DupAttr) = Dropped(Len(t.tag.a))
\* a comment that opened with "<!--" and closed with "-->" reports nothing but what is inside it
Clean == (t.done /\ Family = "comment" /\ Looks(input, 1, <<60, 33, 45, 45>>, FALSE) /\ \A i \in 1..Len(input) : (input[i] # 0 /\ input[i] # 33) \/ i = 2) =>
         (errs = <<>> => (Len(t.out) >= 1 /\ t.out[1].t = "m" /\ Looks(input, 5 + Len(t.out[1].d), <<45, 45, 62>>, FALSE)))
GrowErr == [][Len(errs') >= Len(errs) /\ Len(errs') <= Len(errs) + 3 /\ SubSeq(errs', 1, Len(errs)) = errs]_errs
=============================================================================
