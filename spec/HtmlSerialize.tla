--------------------------- MODULE HtmlSerialize ---------------------------
(* Serialisation of the HTML Standard (13.3), and its inverse: parsing what was written.                                    *)
(* A tree is given as the list of its nodes in document order with their depths (FlatDoc of HtmlTree).                      *)
EXTENDS HtmlTree

VoidTags == {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr", "basefont", "bgsound", "frame", "keygen"}
RawTags == {"style", "script", "xmp", "iframe", "noembed", "noframes", "plaintext"}
IsHtml(nd, names) == nd.k = "el" /\ nd.ns = "html" /\ Str(nd.n) \in names
Amp == <<38, 97, 109, 112, 59>>
Nbsp == <<38, 110, 98, 115, 112, 59>>
Quot == <<38, 113, 117, 111, 116, 59>>
Lt == <<38, 108, 116, 59>>
Gt == <<38, 103, 116, 59>>
RECURSIVE Escape(_, _, _)
Escape(t, i, attr) == IF i > Len(t) THEN <<>>
    ELSE (CASE t[i] = 38 -> Amp [] t[i] = 160 -> Nbsp [] attr /\ t[i] = 34 -> Quot [] ~attr /\ t[i] = 60 -> Lt [] ~attr /\ t[i] = 62 -> Gt [] OTHER -> <<t[i]>>) \o Escape(t, i + 1, attr)
Qualified(pre, n) == IF pre = <<>> THEN n ELSE pre \o <<58>> \o n
XmlnsName == <<120, 109, 108, 110, 115>>
AttrName(a) == CASE a.ns = "" -> a.n
                 [] a.ns = "xml" -> <<120, 109, 108, 58>> \o a.n
                 [] a.ns = "xmlns" -> IF a.n = XmlnsName THEN XmlnsName ELSE XmlnsName \o <<58>> \o a.n
                 [] a.ns = "xlink" -> <<120, 108, 105, 110, 107, 58>> \o a.n
                 [] OTHER -> Qualified(a.pre, a.n)
RECURSIVE Attrs(_, _)
Attrs(a, i) == IF i > Len(a) THEN <<>> ELSE <<32>> \o AttrName(a[i]) \o <<61, 34>> \o Escape(a[i].v, 1, TRUE) \o <<34>> \o Attrs(a, i + 1)
\* pre: the namespace prefixes of the elements, beside the nodes
TagName(nd, pre) == IF nd.ns \in {"html", "math", "svg"} THEN nd.n ELSE Qualified(pre, nd.n)
RECURSIVE EndOf(_, _, _)
EndOf(f, i, j) == IF j > Len(f) \/ f[j].l <= f[i].l THEN j ELSE EndOf(f, i, j + 1)      \* the first node after the subtree of i, looking from j
RECURSIVE SerList(_, _, _, _, _)
SerList(f, pre, i, e, parent) == IF i >= e THEN <<>> ELSE
    LET nd == f[i]
        x == EndOf(f, i, i + 1)
        tag == TagName(nd, pre[i])
        out == CASE nd.k = "el" -> <<60>> \o tag \o Attrs(nd.a, 1) \o <<62>>
                                   \o (IF IsHtml(nd, VoidTags) THEN <<>> ELSE SerList(f, pre, i + 1, x, nd) \o <<60, 47>> \o tag \o <<62>>)
                 [] nd.k = "text" -> IF IsHtml(parent, RawTags) THEN nd.d ELSE Escape(nd.d, 1, FALSE)
                 [] nd.k = "com" -> <<60, 33, 45, 45>> \o nd.d \o <<45, 45, 62>>
                 [] nd.k = "pi" -> <<60, 63>> \o nd.n \o <<32>> \o nd.d \o <<62>>
                 [] nd.k = "dt" -> <<60, 33, 68, 79, 67, 84, 89, 80, 69, 32>> \o nd.n \o <<62>>
    IN out \o SerList(f, pre, x, e, parent)
\* the children of the document (i = 0) or of node i
Ser(f, pre, i) == IF i = 0 THEN SerList(f, pre, 1, Len(f) + 1, [Node0 EXCEPT !.k = "doc"])
                  ELSE IF IsHtml(f[i], VoidTags) THEN <<>> ELSE SerList(f, pre, i + 1, EndOf(f, i, i + 1), f[i])
NoPre(f) == [i \in 1..Len(f) |-> <<>>]
\* what a tree becomes when it is written and read again (DOCTYPE identifiers are not written)
Bare2(f) == [i \in 1..Len(f) |-> [f[i] EXCEPT !.p = <<>>, !.s = <<>>]]
Reread(f) == Bare2(FlatDoc(RunDoc(Ser(f, NoPre(f), 0), FALSE, FALSE)))
RoundTrips(f) == Reread(f) = Bare2(f)
=============================================================================
