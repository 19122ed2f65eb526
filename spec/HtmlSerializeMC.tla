-------------------------- MODULE HtmlSerializeMC --------------------------
(* Every tree of up to MaxNodes nodes of a family, built node by node in document order: written and read again it is the    *)
(* same tree.                                                                                                                *)
EXTENDS HtmlSerialize
CONSTANTS Family, MaxNodes
VARIABLE f

N == "html" :> <<104, 116, 109, 108>> @@ "head" :> <<104, 101, 97, 100>> @@ "body" :> <<98, 111, 100, 121>> @@ "div" :> <<100, 105, 118>> @@ "br" :> <<98, 114>> @@ "span" :> <<115, 112, 97, 110>> @@ "b" :> <<98>> @@ "i" :> <<105>> @@ "a" :> <<97>> @@ "p" :> <<112>> @@ "ul" :> <<117, 108>> @@ "li" :> <<108, 105>> @@ "svg" :> <<115, 118, 103>> @@ "g" :> <<103>> @@ "desc" :> <<100, 101, 115, 99>> @@ "math" :> <<109, 97, 116, 104>> @@ "mi" :> <<109, 105>> @@ "table" :> <<116, 97, 98, 108, 101>> @@ "caption" :> <<99, 97, 112, 116, 105, 111, 110>> @@ "colgroup" :> <<99, 111, 108, 103, 114, 111, 117, 112>> @@ "col" :> <<99, 111, 108>> @@ "tbody" :> <<116, 98, 111, 100, 121>> @@ "tr" :> <<116, 114>> @@ "td" :> <<116, 100>> @@ "script" :> <<115, 99, 114, 105, 112, 116>> @@ "style" :> <<115, 116, 121, 108, 101>> @@ "xmp" :> <<120, 109, 112>> @@ "iframe" :> <<105, 102, 114, 97, 109, 101>> @@ "noembed" :> <<110, 111, 101, 109, 98, 101, 100>> @@ "noframes" :> <<110, 111, 102, 114, 97, 109, 101, 115>> @@ "textarea" :> <<116, 101, 120, 116, 97, 114, 101, 97>> @@ "title" :> <<116, 105, 116, 108, 101>> @@ "meta" :> <<109, 101, 116, 97>> @@ "template" :> <<116, 101, 109, 112, 108, 97, 116, 101>> @@ "rect" :> <<114, 101, 99, 116>>
Nd0 == [l |-> 0, k |-> "el", ns |-> "html", n |-> <<>>, a |-> <<>>, d |-> <<>>, p |-> <<>>, s |-> <<>>]
H(g) == [Nd0 EXCEPT !.n = N[g]]
F(ns, g) == [Nd0 EXCEPT !.ns = ns, !.n = N[g]]
T(t) == [Nd0 EXCEPT !.k = "text", !.ns = "", !.d = t]
C(t) == [Nd0 EXCEPT !.k = "com", !.ns = "", !.d = t]
A(nd, ns, pre, n, v) == [nd EXCEPT !.a = Append(@, [ns |-> ns, pre |-> pre, n |-> n, v |-> v])]
Id(g, v) == A(H(g), "", <<>>, <<105, 100>>, v)
Skeleton == <<H("html"), [H("head") EXCEPT !.l = 1], [H("body") EXCEPT !.l = 1]>>
Start == IF Family = "head" THEN SubSeq(Skeleton, 1, 2) ELSE Skeleton
Floor == 2
Closing == IF Family = "head" THEN <<[H("body") EXCEPT !.l = 1]>> ELSE <<>>

EscTexts == {<<38>>, <<60>>, <<62>>, <<160>>, <<34, 97>>, <<97>>, <<38, 108, 116, 59>>, <<60, 47, 100, 105, 118, 62>>, <<60, 33, 45, 45>>, <<38, 97, 109, 112>>, <<38, 110, 98, 115, 112, 59>>, <<39, 61, 96>>}
RawTexts == {<<97, 60, 98, 62, 38, 97, 109, 112, 59>>, <<60, 33, 45, 45, 120, 45, 45, 62>>, <<39, 34, 38, 108, 116>>, <<160, 120, 60, 47>>, <<93, 93, 62>>}
Pieces == CASE Family = "esc" -> {H("div"), H("br"), C(<<99>>), C(<<60, 98, 62, 38, 45>>)} \cup {Id("div", v) : v \in EscTexts \cup {<<>>}} \cup {T(t) : t \in EscTexts}
            [] Family = "raw" -> {H(g) : g \in {"div", "script", "style", "xmp", "iframe", "noembed", "noframes", "textarea", "title"}} \cup {T(t) : t \in RawTexts}
            [] Family = "for" -> {H("div"), F("svg", "svg"), F("svg", "g"), F("svg", "desc"), F("math", "math"), F("math", "mi"), F("svg", "script"), T(<<60, 38>>), H("br"),
                                  A(A(F("svg", "svg"), "xlink", <<120, 108, 105, 110, 107>>, <<104, 114, 101, 102>>, <<34>>), "xmlns", <<>>, XmlnsName, <<97>>), A(F("math", "math"), "xml", <<120, 109, 108>>, <<108, 97, 110, 103>>, <<38>>)}
            [] Family = "tbl" -> {H("table"), H("caption"), H("colgroup"), H("col"), H("tbody"), H("tr"), H("td"), T(<<120>>), H("div")}
            [] Family = "fmt" -> {H("b"), H("i"), H("a"), H("p"), H("ul"), H("li"), H("div"), T(<<120>>), Id("b", <<97>>), H("br")}
            [] Family = "head" -> {H("title"), H("meta"), H("style"), H("script"), H("template"), H("div"), H("b"), C(<<99>>), T(<<60, 38>>), T(<<120>>)}
Under(pa, names) == pa.ns = "html" /\ Str(pa.n) \in names
RawParents == {"script", "style", "xmp", "iframe", "noembed", "noframes"}
\* may nd stand in pa, whose ancestors are anc?
Allowed(pa, anc, nd) ==
    LET phr == {"p"}
        inP == \E q \in anc : Under(q, {"p"})
    IN /\ pa.k = "el" /\ ~IsHtml(pa, VoidTags)
       /\ Under(pa, RawParents \cup {"textarea", "title"}) => nd.k = "text"
       /\ (nd.k = "el" /\ nd.ns = "html") =>
            /\ pa.ns # "html" => Str(pa.n) \in {"desc", "mi"}
            /\ Str(nd.n) \in {"p", "ul", "div", "li"} => ~inP
            /\ Under(nd, {"a"}) => ~\E q \in anc : Under(q, {"a"})
            /\ Under(nd, {"li"}) <=> Under(pa, {"ul"})
            /\ Under(nd, {"caption", "colgroup", "tbody"}) <=> Under(pa, {"table"})
            /\ Under(nd, {"col"}) <=> Under(pa, {"colgroup"})
            /\ Under(nd, {"tr"}) <=> Under(pa, {"tbody"})
            /\ Under(nd, {"td"}) <=> Under(pa, {"tr"})
            /\ Under(nd, {"div", "b"}) => ~Under(pa, {"head"})
            /\ Family = "head" => (Str(nd.n) \in {"title", "meta"} => ~\E q \in anc : Under(q, {"template"}))
       /\ nd.k = "text" => ~Under(pa, {"table", "colgroup", "tbody", "tr", "head", "ul"})
       /\ (nd.k = "el" /\ nd.ns = "svg") => (IF Str(nd.n) = "svg" THEN pa.ns = "html" \/ Str(pa.n) \in {"desc", "mi"} ELSE pa.ns = "svg" /\ Str(pa.n) # "desc" /\ Str(pa.n) # "script")
       /\ (nd.k = "el" /\ nd.ns = "math") => (IF Str(nd.n) = "math" THEN pa.ns = "html" \/ Str(pa.n) \in {"desc", "mi"} ELSE pa.ns = "math" /\ Str(pa.n) # "mi")
Last(d) == CHOOSE i \in 1..Len(f) : f[i].l = d /\ \A j \in i + 1..Len(f) : f[j].l > d       \* the open node of depth d
Open(d) == d <= f[Len(f)].l
Anc(d) == {f[Last(e)] : e \in 0..d}
Init == f = Start
Add(nd, d) == /\ Open(d - 1)
              /\ Allowed(f[Last(d - 1)], Anc(d - 1), nd)
              /\ nd.k = "text" => ~(f[Len(f)].l >= d /\ f[Last(d)].k = "text")              \* no text beside text
              /\ f' = Append(f, [nd EXCEPT !.l = d])
Next == /\ Len(f) < Len(Start) + MaxNodes
        /\ \E nd \in Pieces, d \in Floor..f[Len(f)].l + 1 : Add(nd, d)
Spec == Init /\ [][Next]_f
Doc == f \o Closing
Inverse == RoundTrips(Doc)
\* writing is injective on what it writes: no markup character of a text or value is left bare
Clean(t, attr) == LET o == Escape(t, 1, attr) IN \A i \in 1..Len(o) : (attr => o[i] # 34) /\ (~attr => o[i] # 60 /\ o[i] # 62) /\ o[i] # 160
Escapes == \A i \in 1..Len(f) : (f[i].k = "text" => Clean(f[i].d, FALSE)) /\ \A j \in 1..Len(f[i].a) : Clean(f[i].a[j].v, TRUE)
=============================================================================
