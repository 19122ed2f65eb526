----------------------------- MODULE HtmlTreeMC -----------------------------
(* All sequences of up to MaxLen tokens of a family, handed to tree construction one by one: what every tree under           *)
(* construction, and every tree at the end of the input, must satisfy.                                                       *)
EXTENDS HtmlTree
CONSTANTS Family, MaxLen
VARIABLES n, s

\* tag names used below, as code points
N == "a" :> <<97>> @@ "b" :> <<98>> @@ "p" :> <<112>> @@ "div" :> <<100, 105, 118>> @@ "table" :> <<116, 97, 98, 108, 101>> @@ "tr" :> <<116, 114>> @@ "td" :> <<116, 100>> @@ "caption" :> <<99, 97, 112, 116, 105, 111, 110>>
     @@ "col" :> <<99, 111, 108>> @@ "tbody" :> <<116, 98, 111, 100, 121>> @@ "template" :> <<116, 101, 109, 112, 108, 97, 116, 101>> @@ "select" :> <<115, 101, 108, 101, 99, 116>> @@ "option" :> <<111, 112, 116, 105, 111, 110>>
     @@ "svg" :> <<115, 118, 103>> @@ "math" :> <<109, 97, 116, 104>> @@ "mi" :> <<109, 105>> @@ "desc" :> <<100, 101, 115, 99>> @@ "html" :> <<104, 116, 109, 108>> @@ "head" :> <<104, 101, 97, 100>>
     @@ "body" :> <<98, 111, 100, 121>> @@ "frameset" :> <<102, 114, 97, 109, 101, 115, 101, 116>> @@ "noframes" :> <<110, 111, 102, 114, 97, 109, 101, 115>> @@ "li" :> <<108, 105>> @@ "ul" :> <<117, 108>> @@ "nobr" :> <<110, 111, 98, 114>>
     @@ "button" :> <<98, 117, 116, 116, 111, 110>> @@ "form" :> <<102, 111, 114, 109>> @@ "dd" :> <<100, 100>> @@ "object" :> <<111, 98, 106, 101, 99, 116>> @@ "textarea" :> <<116, 101, 120, 116, 97, 114, 101, 97>> @@ "title" :> <<116, 105, 116, 108, 101>>
Open(g) == [Token0 EXCEPT !.t = "s", !.n = N[g]]
Close(g) == [Token0 EXCEPT !.t = "e", !.n = N[g]]
Ch(c) == [Token0 EXCEPT !.t = "c", !.d = <<c>>]
Com == [Token0 EXCEPT !.t = "m", !.d = <<99>>]
Pieces == CASE Family = "fmt" -> {Open("a"), Close("a"), Open("b"), Close("b"), Open("p"), Close("p"), Open("div"), Close("div"), Open("nobr"), Ch(120), Open("table"), Open("td")}
            [] Family = "tbl" -> {Open("table"), Close("table"), Open("tr"), Open("td"), Close("td"), Open("caption"), Open("col"), Open("tbody"), Ch(120), Ch(32), Open("b"), Open("form")}
            [] Family = "tmpl" -> {Open("template"), Close("template"), Open("select"), Close("select"), Open("option"), Open("table"), Open("td"), Open("col"), Ch(120), Open("b"), Open("div")}
            [] Family = "for" -> {Open("svg"), Open("math"), Open("desc"), Open("mi"), Open("p"), Close("p"), Close("svg"), Open("b"), Ch(120), Open("table"), Open("td"), Close("b")}
            [] Family = "head" -> {Open("html"), Open("head"), Close("head"), Open("body"), Close("body"), Close("html"), Open("frameset"), Close("frameset"), Ch(120), Ch(32), Com, Open("template"), Open("p")}
            [] Family = "block" -> {Open("ul"), Open("li"), Close("li"), Open("p"), Open("button"), Close("button"), Open("form"), Close("form"), Open("dd"), Open("object"), Open("b"), Ch(120)}

Init == n = 0 /\ s = State0(FALSE)
Next == /\ n < MaxLen
        /\ n' = n + 1
        /\ \E tok \in Pieces : s' = Deliver(s, tok)
Spec == Init /\ [][Next]_<<n, s>>

Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Ids(u) == 1..Len(u.nodes)
\* children and parents agree
TreeWF(u) == \A i \in Ids(u) :
    /\ \A j \in 1..Len(u.nodes[i].ch) : u.nodes[u.nodes[i].ch[j]].pa = i
    /\ u.nodes[i].pa # 0 => Count(u.nodes[u.nodes[i].pa].ch, i) = 1
RECURSIVE Root(_, _, _)
Root(u, i, fuel) == IF fuel = 0 THEN 0 - 1 ELSE IF u.nodes[i].pa = 0 THEN i ELSE Root(u, u.nodes[i].pa, fuel - 1)
Acyclic(u) == \A i \in Ids(u) : Root(u, i, Len(u.nodes) + 1) > 0
Inside(u, i) == Root(u, i, Len(u.nodes) + 1) = 1
\* the document holds one element at most, and no text
RootOk(u) == /\ \A j \in 1..Len(u.nodes[1].ch) : u.nodes[u.nodes[1].ch[j]].k # "text"
             /\ \A j, k \in 1..Len(u.nodes[1].ch) : (u.nodes[u.nodes[1].ch[j]].k = "el" /\ u.nodes[u.nodes[1].ch[k]].k = "el") => j = k
\* the stack: html first, elements of the tree, each once
StackOk(u) == \A i \in 1..Len(u.stack) :
    /\ (i = 1) <=> Is(u, u.stack[i], {"html"})
    /\ u.nodes[u.stack[i]].k = "el" /\ Inside(u, u.stack[i])
    /\ Count(u.stack, u.stack[i]) = 1
\* one template insertion mode per open template; the mode that uses them has one
TemplatesOk(u) == /\ Len(u.tm) = Cardinality({i \in 1..Len(u.stack) : Is(u, u.stack[i], {"template"})})
                  /\ u.mode = "template" => u.tm # <<>>
\* only white space directly in a table or a row (text elsewhere in a table is foster-parented); nothing directly in a column
TableOk(u) == \A i \in Ids(u) : (u.nodes[i].k = "text" /\ u.nodes[i].pa # 0 /\ Is(u, u.nodes[i].pa, {"table", "tbody", "tr"})) => \A k \in 1..Len(u.nodes[i].d) : IsWs(u.nodes[i].d[k])
VoidOk(u) == \A i \in Ids(u) : Is(u, i, {"col"}) => u.nodes[i].ch = <<>>
TextOk(u) == \A i \in Ids(u) : u.nodes[i].k = "text" => (u.nodes[i].d # <<>> /\ u.nodes[i].ch = <<>>)
\* table cells in rows, rows in sections or templates
NestOk(u) == \A i \in Ids(u) : u.nodes[i].pa > 0 =>
    /\ Is(u, i, {"td"}) => Is(u, u.nodes[i].pa, {"tr", "template"})
    /\ Is(u, i, {"tr"}) => Is(u, u.nodes[i].pa, {"tbody", "template"})
    /\ Is(u, i, {"caption", "tbody"}) => Is(u, u.nodes[i].pa, {"table", "template"})
    /\ Is(u, i, {"head"}) => Is(u, u.nodes[i].pa, {"html"})
    /\ Is(u, i, {"body"}) => Is(u, u.nodes[i].pa, {"html"})
Good(u) == TreeWF(u) /\ Acyclic(u) /\ RootOk(u) /\ StackOk(u) /\ TemplatesOk(u) /\ TextOk(u) /\ VoidOk(u) /\ NestOk(u)
Inv == Good(s)
Tables == TableOk(s)
\* at the end of every input: html with head first and body or frameset second, and no other element
AtEndOk == LET u == Deliver(s, EofTok) IN
    /\ u.stop /\ Good(u)
    /\ LET h == CHOOSE i \in Ids(u) : u.nodes[i].pa = 1 /\ u.nodes[i].k = "el"
           els == SelectSeq(u.nodes[h].ch, LAMBDA i : u.nodes[i].k = "el")
       IN /\ Is(u, h, {"html"})
          /\ Len(els) = 2 /\ Is(u, els[1], {"head"}) /\ Is(u, els[2], {"body", "frameset"})
=============================================================================
