------------------------------ MODULE HtmlTree ------------------------------
(* Tree construction of the HTML Standard (13.2.6) as a state machine over tokens: the tree under construction, the stack of *)
(* open elements, the list of active formatting elements, the insertion modes and the flags.  One step takes one token.     *)
(* Together with HtmlTokenizer it is the whole parser: text in, tree out (RunDoc).                                           *)
EXTENDS HtmlTokenizer

Data == JsonDeserialize(IOEnv.SPECDATA \o "/htmltree.json")

\* --- names as strings, for the rules (names of other characters than these take part in no rule) ---
Chars0 == <<"-", "", "", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "", "", "", "", "", "", "", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
           "", "", "", "", "", "", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>   \* U+002D to U+007A
Plain(c) == c >= 45 /\ c <= 122 /\ Chars0[c - 44] # ""
RECURSIVE StrFrom(_, _)
StrFrom(n, i) == IF i > Len(n) THEN "" ELSE Chars0[n[i] - 44] \o StrFrom(n, i + 1)
Str(n) == IF Len(n) <= 24 /\ \A i \in 1..Len(n) : Plain(n[i]) THEN StrFrom(n, 1) ELSE "?"
LowerSeq(n) == [i \in 1..Len(n) |-> Lower(n[i])]
RECURSIVE MapName(_, _, _)
MapName(tbl, n, i) == IF i > Len(tbl) THEN n ELSE IF tbl[i][1] = n THEN tbl[i][2] ELSE MapName(tbl, n, i + 1)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

\* --- the state ---
Node0 == [k |-> "doc", ns |-> "", n |-> <<>>, tg |-> "", a |-> <<>>, d |-> <<>>, p |-> <<>>, s |-> <<>>, pa |-> 0, ch |-> <<>>]
State0(scripting) == [nodes |-> <<Node0>>, stack |-> <<>>, afe |-> <<>>, mode |-> "initial", orig |-> "initial", tm |-> <<>>, head |-> 0, form |-> 0, fok |-> TRUE,
                      foster |-> FALSE, pend |-> <<>>, quirks |-> "no", skip |-> FALSE, scripting |-> scripting, ts |-> "", stop |-> FALSE, metas |-> <<>>]    \* metas: the attributes of the meta elements met

Cur(s) == s.stack[Len(s.stack)]
Nd(s, id) == s.nodes[id]
Is(s, id, names) == s.nodes[id].k = "el" /\ s.nodes[id].ns = "html" /\ s.nodes[id].tg \in names
CurIs(s, names) == s.stack # <<>> /\ Is(s, Cur(s), names)
Pop(s) == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Mode(s, m) == [s EXCEPT !.mode = m]
NotOk(s) == [s EXCEPT !.fok = FALSE]
InSeq(q, x) == \E i \in 1..Len(q) : q[i] = x
IndexOf(q, x) == IF InSeq(q, x) THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
RemoveAt0(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
InsertAt0(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Without(q, x) == IF InSeq(q, x) THEN RemoveAt0(q, IndexOf(q, x)) ELSE q
RECURSIVE PopUntil(_, _)
PopUntil(s, names) == IF s.stack = <<>> THEN s ELSE IF CurIs(s, names) THEN Pop(s) ELSE PopUntil(Pop(s), names)
RECURSIVE PopThrough(_, _)
PopThrough(s, id) == IF s.stack = <<>> THEN s ELSE IF Cur(s) = id THEN Pop(s) ELSE PopThrough(Pop(s), id)
RECURSIVE PopTo(_, _)
PopTo(s, names) == IF CurIs(s, names) THEN s ELSE PopTo(Pop(s), names)
HasOnStack(s, names) == \E i \in 1..Len(s.stack) : Is(s, s.stack[i], names)

\* --- the tree ---
Detach(s, id) == LET pa == s.nodes[id].pa IN
    IF pa = 0 THEN s ELSE [s EXCEPT !.nodes[pa].ch = Without(@, id), !.nodes[id].pa = 0]
\* a place is a parent and the child to insert before (0: at the end)
Insert(s, id, pl) == LET u == Detach(s, id) IN
    [u EXCEPT !.nodes[id].pa = pl.par,
              !.nodes[pl.par].ch = IF pl.ref = 0 THEN Append(@, id) ELSE InsertAt0(@, IndexOf(@, pl.ref), id)]
NewNode(s, nd) == [s EXCEPT !.nodes = Append(@, nd)]
InsertNew(s, nd, pl) == LET u == NewNode(s, nd) IN Insert(u, Len(u.nodes), pl)
AtEnd(id) == [par |-> id, ref |-> 0]
\* the appropriate place for inserting a node
TableParts == {"table", "tbody", "tfoot", "thead", "tr"}
LastOnStack(s, names) == LET RECURSIVE L(_)
                             L(i) == IF i = 0 THEN 0 ELSE IF Is(s, s.stack[i], names) THEN i ELSE L(i - 1)
                         IN L(Len(s.stack))
Place(s, target) ==
    IF s.foster /\ Is(s, target, TableParts) THEN
        LET lt == LastOnStack(s, {"template"})
            lb == LastOnStack(s, {"table"})
        IN IF lt # 0 /\ (lb = 0 \/ lt > lb) THEN AtEnd(s.stack[lt])
           ELSE IF lb = 0 THEN AtEnd(s.stack[1])
           ELSE IF s.nodes[s.stack[lb]].pa # 0 THEN [par |-> s.nodes[s.stack[lb]].pa, ref |-> s.stack[lb]]
           ELSE AtEnd(s.stack[lb - 1])
    ELSE AtEnd(target)
InsertChar(s, c) ==
    LET pl == Place(s, Cur(s))
        ch == s.nodes[pl.par].ch
        i == IF pl.ref = 0 THEN Len(ch) ELSE IndexOf(ch, pl.ref) - 1
    IN IF s.nodes[pl.par].k = "doc" THEN s
       ELSE IF i > 0 /\ s.nodes[ch[i]].k = "text" THEN [s EXCEPT !.nodes[ch[i]].d = Append(@, c)]
       ELSE InsertNew(s, [Node0 EXCEPT !.k = "text", !.d = <<c>>], pl)
InsertComment(s, tok, pl) == InsertNew(s, [Node0 EXCEPT !.k = "com", !.d = tok.d], pl)
Comment(s, tok) == InsertComment(s, tok, Place(s, Cur(s)))
\* attributes: namespace, prefix, local name, value
PlainAttrs(tok) == [i \in 1..Len(tok.a) |-> [ns |-> "", pre |-> <<>>, n |-> tok.a[i].n, v |-> tok.a[i].v]]
ElementOf(tok, ns, attrs) == [Node0 EXCEPT !.k = "el", !.ns = ns, !.n = tok.n, !.tg = Str(tok.n), !.a = attrs]
InsertEl(s, tok, ns, attrs) ==
    LET u == InsertNew(s, ElementOf(tok, ns, attrs), Place(s, Cur(s))) IN [u EXCEPT !.stack = Append(@, Len(u.nodes))]
InsertHtml(s, tok) == InsertEl(s, tok, "html", PlainAttrs(tok))
ChInv(ch) == CHOOSE i \in 1..Len(Chars0) : Chars0[i] = ch
Tags == "html" :> <<104, 116, 109, 108>> @@ "head" :> <<104, 101, 97, 100>> @@ "body" :> <<98, 111, 100, 121>> @@ "p" :> <<112>> @@ "tbody" :> <<116, 98, 111, 100, 121>> @@ "tr" :> <<116, 114>>
        @@ "colgroup" :> <<99, 111, 108, 103, 114, 111, 117, 112>> @@ "br" :> <<98, 114>> @@ "img" :> <<105, 109, 103>>
Bare(name) == [Token0 EXCEPT !.t = "s", !.n = Tags[name]]
Implied(s, name) == InsertHtml(s, Bare(name))

\* --- scopes ---
StopBase == {"applet", "caption", "html", "table", "td", "th", "marquee", "object", "template"}
MathTip == {"mi", "mo", "mn", "ms", "mtext"}
SvgIp == {"foreignObject", "desc", "title"}
ForeignStop(nd) == (nd.ns = "math" /\ nd.tg \in (MathTip \cup {"annotation-xml"})) \/ (nd.ns = "svg" /\ nd.tg \in SvgIp)
StopsAt(nd, kind) ==
    CASE kind = "any" -> (nd.ns = "html" /\ nd.tg \in StopBase) \/ ForeignStop(nd)
      [] kind = "list" -> (nd.ns = "html" /\ nd.tg \in (StopBase \cup {"ol", "ul"})) \/ ForeignStop(nd)
      [] kind = "button" -> (nd.ns = "html" /\ nd.tg \in (StopBase \cup {"button"})) \/ ForeignStop(nd)
      [] kind = "table" -> nd.ns = "html" /\ nd.tg \in {"html", "table", "template"}
      [] kind = "select" -> ~(nd.ns = "html" /\ nd.tg \in {"optgroup", "option"})
InScope(s, names, kind) == LET RECURSIVE W(_)
                               W(i) == IF i = 0 THEN FALSE ELSE IF Is(s, s.stack[i], names) THEN TRUE ELSE IF StopsAt(s.nodes[s.stack[i]], kind) THEN FALSE ELSE W(i - 1)
                           IN W(Len(s.stack))
IdInScope(s, id) == LET RECURSIVE W(_)
                        W(i) == IF i = 0 THEN FALSE ELSE IF s.stack[i] = id THEN TRUE ELSE IF StopsAt(s.nodes[s.stack[i]], "any") THEN FALSE ELSE W(i - 1)
                    IN W(Len(s.stack))
Special == {"address", "applet", "area", "article", "aside", "base", "basefont", "bgsound", "blockquote", "body", "br", "button", "caption", "center", "col", "colgroup", "dd", "details", "dir", "div", "dl", "dt", "embed",
    "fieldset", "figcaption", "figure", "footer", "form", "frame", "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "iframe", "img", "input", "keygen", "li", "link", "listing",
    "main", "marquee", "menu", "meta", "nav", "noembed", "noframes", "noscript", "object", "ol", "p", "param", "plaintext", "pre", "script", "section", "select", "source", "style", "summary", "table", "tbody", "td",
    "template", "textarea", "tfoot", "th", "thead", "title", "tr", "track", "ul", "wbr", "xmp"}
IsSpecial(s, id) == LET nd == s.nodes[id] IN (nd.ns = "html" /\ nd.tg \in Special) \/ ForeignStop(nd)

\* --- implied end tags ---
ImpliedEnd == {"dd", "dt", "li", "optgroup", "option", "p", "rb", "rp", "rt", "rtc"}
RECURSIVE GenImplied(_, _)
GenImplied(s, except) == IF CurIs(s, ImpliedEnd \ except) THEN GenImplied(Pop(s), except) ELSE s
RECURSIVE GenThoroughly(_)
GenThoroughly(s) == IF CurIs(s, ImpliedEnd \cup {"caption", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr"}) THEN GenThoroughly(Pop(s)) ELSE s
CloseP(s) == PopUntil(GenImplied(s, {"p"}), {"p"})
ClosePIf(s) == IF InScope(s, {"p"}, "button") THEN CloseP(s) ELSE s

\* --- the list of active formatting elements ---
Marker == [mk |-> TRUE, id |-> 0, tok |-> Token0]
Entry(id, tok) == [mk |-> FALSE, id |-> id, tok |-> tok]
PutMarker(s) == [s EXCEPT !.afe = Append(@, Marker)]
RECURSIVE ClearAfe(_)
ClearAfe(s) == IF s.afe = <<>> THEN s ELSE LET e == s.afe[Len(s.afe)] u == [s EXCEPT !.afe = SubSeq(@, 1, Len(@) - 1)] IN IF e.mk THEN u ELSE ClearAfe(u)
LastMarker(s) == LET RECURSIVE L(_)
                     L(i) == IF i = 0 THEN 0 ELSE IF s.afe[i].mk THEN i ELSE L(i - 1)
                 IN L(Len(s.afe))
AfeIndex(s, id) == IF \E i \in 1..Len(s.afe) : s.afe[i].id = id THEN CHOOSE i \in 1..Len(s.afe) : s.afe[i].id = id ELSE 0
AttrSet(tok) == {tok.a[i] : i \in 1..Len(tok.a)}
PushAfe(s, id, tok) ==
    LET same == {i \in (LastMarker(s) + 1)..Len(s.afe) : s.afe[i].tok.n = tok.n /\ AttrSet(s.afe[i].tok) = AttrSet(tok)}
        u == IF Cardinality(same) >= 3 THEN [s EXCEPT !.afe = RemoveAt0(@, CHOOSE i \in same : \A j \in same : i <= j)] ELSE s
    IN [u EXCEPT !.afe = Append(@, Entry(id, tok))]
Formatting(s, tok) == LET u == InsertHtml(s, tok) IN PushAfe(u, Cur(u), tok)
AfeOpen(s, i) == s.afe[i].mk \/ InSeq(s.stack, s.afe[i].id)
RECURSIVE ReopenFrom(_, _)
ReopenFrom(s, i) == IF i > Len(s.afe) THEN s
                    ELSE LET u == InsertHtml(s, s.afe[i].tok) IN ReopenFrom([u EXCEPT !.afe[i].id = Cur(u)], i + 1)
Reconstruct(s) ==
    IF s.afe = <<>> THEN s ELSE IF AfeOpen(s, Len(s.afe)) THEN s
    ELSE LET RECURSIVE R(_)
             R(i) == IF i = 1 THEN 1 ELSE IF AfeOpen(s, i - 1) THEN i ELSE R(i - 1)
         IN ReopenFrom(s, R(Len(s.afe)))
DropAfe(s, id) == IF AfeIndex(s, id) = 0 THEN s ELSE [s EXCEPT !.afe = RemoveAt0(@, AfeIndex(s, id))]
DropStack(s, id) == [s EXCEPT !.stack = Without(@, id)]

\* --- any other end tag ---
AnyOtherEnd(s, tok) ==
    LET g == Str(tok.n)
        RECURSIVE W(_)
        W(i) == IF i = 0 THEN s
                ELSE LET nd == s.nodes[s.stack[i]] IN
                     IF nd.ns = "html" /\ nd.n = tok.n THEN PopThrough(GenImplied(s, {g}), s.stack[i])
                     ELSE IF IsSpecial(s, s.stack[i]) THEN s
                     ELSE W(i - 1)
    IN W(Len(s.stack))

\* --- the adoption agency ---
\* inner loop: node index ni in the stack (of u) of the element last looked at; returns the state and the last node
RECURSIVE Inner(_, _, _, _, _, _, _, _)
Inner(u, fe, fb, ni, cnt, last, bm, ca) ==            \* bm: index in afe
    LET i == ni - 1
        node == u.stack[i]
    IN IF node = fe THEN [s |-> u, last |-> last, bm |-> bm]
       ELSE LET k == AfeIndex(u, node)
                drop == k # 0 /\ cnt > 3
                u1 == IF drop THEN [u EXCEPT !.afe = RemoveAt0(@, k)] ELSE u
                bm1 == IF drop /\ k < bm THEN bm - 1 ELSE bm
            IN IF k = 0 \/ drop THEN Inner([u1 EXCEPT !.stack = RemoveAt0(@, i)], fe, fb, i, cnt + 1, last, bm1, ca)
               ELSE LET tok == u.afe[k].tok
                        u2 == NewNode(u, ElementOf(tok, "html", PlainAttrs(tok)))
                        nn == Len(u2.nodes)
                        u3 == [u2 EXCEPT !.afe[k].id = nn, !.stack[i] = nn]
                        u4 == Insert(u3, last, AtEnd(nn))
                    IN Inner(u4, fe, fb, i, cnt + 1, nn, IF last = fb THEN k + 1 ELSE bm, ca)
RECURSIVE MoveChildren(_, _, _)
MoveChildren(s, from, to) == IF s.nodes[from].ch = <<>> THEN s ELSE MoveChildren(Insert(s, s.nodes[from].ch[1], AtEnd(to)), from, to)
RECURSIVE Outer(_, _, _)
Outer(s, tok, n) ==
    IF n >= 8 THEN s
    ELSE LET cand == {i \in (LastMarker(s) + 1)..Len(s.afe) : s.afe[i].tok.n = tok.n} IN
    IF cand = {} THEN AnyOtherEnd(s, tok)
    ELSE LET k == CHOOSE i \in cand : \A j \in cand : j <= i
             fe == s.afe[k].id
             si == IndexOf(s.stack, fe)
         IN IF si = 0 THEN [s EXCEPT !.afe = RemoveAt0(@, k)]
            ELSE IF ~IdInScope(s, fe) THEN s
            ELSE LET below == {i \in (si + 1)..Len(s.stack) : IsSpecial(s, s.stack[i])} IN
                 IF below = {} THEN [PopThrough(s, fe) EXCEPT !.afe = RemoveAt0(@, k)]
                 ELSE LET bi == CHOOSE i \in below : \A j \in below : i <= j
                          fb == s.stack[bi]
                          ca == s.stack[si - 1]
                          x == Inner(s, fe, fb, bi, 1, fb, k, ca)
                          u1 == Insert(x.s, x.last, Place(x.s, ca))
                          ftok == s.afe[k].tok
                          u2 == NewNode(u1, ElementOf(ftok, "html", PlainAttrs(ftok)))
                          nn == Len(u2.nodes)
                          u3 == Insert(MoveChildren(u2, fb, nn), nn, AtEnd(fb))
                          fk == AfeIndex(u3, fe)
                          bm == IF fk < x.bm THEN x.bm - 1 ELSE x.bm
                          u4 == [u3 EXCEPT !.afe = InsertAt0(RemoveAt0(@, fk), bm, Entry(nn, ftok))]
                          st == Without(u4.stack, fe)
                          u5 == [u4 EXCEPT !.stack = InsertAt0(st, IndexOf(st, fb) + 1, nn)]
                      IN Outer(u5, tok, n + 1)
Adopt(s, tok) == IF Nd(s, Cur(s)).ns = "html" /\ Nd(s, Cur(s)).n = tok.n /\ AfeIndex(s, Cur(s)) = 0 THEN Pop(s) ELSE Outer(s, tok, 0)

\* --- resetting the insertion mode ---
SelectMode(s, i) == LET RECURSIVE A(_)
                        A(j) == IF j <= 1 THEN "select" ELSE IF Is(s, s.stack[j - 1], {"template"}) THEN "select" ELSE IF Is(s, s.stack[j - 1], {"table"}) THEN "selecttable" ELSE A(j - 1)
                    IN A(i)
ResetMode(s) ==
    LET RECURSIVE R(_)
        R(i) == LET id == s.stack[i] lastp == i = 1
                    I(names) == Is(s, id, names)
                IN IF I({"select"}) THEN SelectMode(s, i)
                   ELSE IF I({"td", "th"}) /\ ~lastp THEN "cell"
                   ELSE IF I({"tr"}) THEN "row"
                   ELSE IF I({"tbody", "thead", "tfoot"}) THEN "tablebody"
                   ELSE IF I({"caption"}) THEN "caption"
                   ELSE IF I({"colgroup"}) THEN "colgroup"
                   ELSE IF I({"table"}) THEN "table"
                   ELSE IF I({"template"}) THEN s.tm[Len(s.tm)]
                   ELSE IF I({"head"}) /\ ~lastp THEN "head"
                   ELSE IF I({"body"}) THEN "body"
                   ELSE IF I({"frameset"}) THEN "frameset"
                   ELSE IF I({"html"}) THEN (IF s.head = 0 THEN "beforehead" ELSE "afterhead")
                   ELSE IF lastp THEN "body"
                   ELSE R(i - 1)
    IN [s EXCEPT !.mode = R(Len(s.stack))]

\* --- text elements ---
RawText(s, tok, ts) == LET u == InsertHtml(s, tok) IN [u EXCEPT !.ts = ts, !.orig = s.mode, !.mode = "text"]

\* --- the DOCTYPE ---
QuirksOf(tok) ==
    LET pub == LowerSeq(tok.p) sys == LowerSeq(tok.s)
        Begins(list) == \E i \in 1..Len(list) : StartsWith(pub, list[i])
    IN IF tok.q \/ tok.n # Tags["html"] \/ (\E i \in 1..Len(Data.qexact) : pub = Data.qexact[i]) \/ (\E i \in 1..Len(Data.qsys) : sys = Data.qsys[i])
          \/ Begins(Data.qprefix) \/ (~tok.hs /\ Begins(Data.q401)) THEN "quirks"
       ELSE IF Begins(Data.lprefix) \/ (tok.hs /\ Begins(Data.q401)) THEN "limited"
       ELSE "no"

\* --- foreign content ---
AdjustForeign(attrs) == [i \in 1..Len(attrs) |->
    LET hits == {j \in 1..Len(Data.foreign) : Data.foreign[j].n = attrs[i].n} IN
    IF hits = {} THEN attrs[i] ELSE LET f == Data.foreign[CHOOSE j \in hits : TRUE] IN [ns |-> f.ns, pre |-> f.pre, n |-> f.l, v |-> attrs[i].v]]
Rename(attrs, tbl) == [i \in 1..Len(attrs) |-> [attrs[i] EXCEPT !.n = MapName(tbl, attrs[i].n, 1)]]
MathAttrs(tok) == AdjustForeign(Rename(PlainAttrs(tok), Data.mathattrs))
SvgAttrs(tok) == AdjustForeign(Rename(PlainAttrs(tok), Data.svgattrs))
InsertForeign(s, tok, ns, attrs) == LET u == InsertEl(s, tok, ns, attrs) IN IF tok.sc THEN Pop(u) ELSE u
AttrVal(tok, name) == LET hits == {i \in 1..Len(tok.a) : Str(tok.a[i].n) = name} IN IF hits = {} THEN <<>> ELSE tok.a[CHOOSE i \in hits : TRUE].v
HasAttr(tok, name) == \E i \in 1..Len(tok.a) : Str(tok.a[i].n) = name
HiddenV == <<104, 105, 100, 100, 101, 110>>
IsHidden(tok) == LowerSeq(AttrVal(tok, "type")) = HiddenV
TextHtmlV == <<116, 101, 120, 116, 47, 104, 116, 109, 108>>
XhtmlV == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 104, 116, 109, 108, 43, 120, 109, 108>>
IsTip(nd) == nd.ns = "math" /\ nd.tg \in MathTip
IsHip(nd) == \/ nd.ns = "svg" /\ nd.tg \in SvgIp
             \/ nd.ns = "math" /\ nd.tg = "annotation-xml" /\ \E i \in 1..Len(nd.a) : Str(nd.a[i].n) = "encoding" /\ LowerSeq(nd.a[i].v) \in {TextHtmlV, XhtmlV}
UseHtml(s, tok) ==
    \/ s.stack = <<>>
    \/ tok.t = "f"
    \/ LET nd == Nd(s, Cur(s)) IN
       \/ nd.ns = "html"
       \/ IsTip(nd) /\ tok.t = "s" /\ Str(tok.n) \notin {"mglyph", "malignmark"}
       \/ IsTip(nd) /\ tok.t = "c"
       \/ nd.ns = "math" /\ nd.tg = "annotation-xml" /\ tok.t = "s" /\ Str(tok.n) = "svg"
       \/ IsHip(nd) /\ tok.t \in {"s", "c"}
Breakout == {"b", "big", "blockquote", "body", "br", "center", "code", "dd", "div", "dl", "dt", "em", "embed", "h1", "h2", "h3", "h4", "h5", "h6", "head", "hr", "i", "img", "li", "listing", "menu", "meta", "nobr", "ol",
             "p", "pre", "ruby", "s", "small", "span", "strong", "strike", "sub", "sup", "table", "tt", "u", "ul", "var"}
RECURSIVE LeaveForeign(_)
LeaveForeign(s) == LET nd == Nd(s, Cur(s)) IN IF nd.ns = "html" \/ IsTip(nd) \/ IsHip(nd) THEN s ELSE LeaveForeign(Pop(s))

\* add the attributes an element does not have
RECURSIVE AddAttrs(_, _, _, _)
AddAttrs(s, id, attrs, i) == IF i > Len(attrs) THEN s
    ELSE AddAttrs(IF \E j \in 1..Len(s.nodes[id].a) : s.nodes[id].a[j].n = attrs[i].n THEN s ELSE [s EXCEPT !.nodes[id].a = Append(@, attrs[i])], id, attrs, i + 1)

HeadTags == {"base", "basefont", "bgsound", "link", "meta", "noframes", "script", "style", "template", "title"}
BlockStart == {"address", "article", "aside", "blockquote", "center", "details", "dialog", "dir", "div", "dl", "fieldset", "figcaption", "figure", "footer", "header", "hgroup", "main", "menu", "nav", "ol", "p", "section", "summary", "ul"}
BlockEnd == (BlockStart \ {"p"}) \cup {"button", "listing", "pre"}
Headings == {"h1", "h2", "h3", "h4", "h5", "h6"}
FormatTags == {"b", "big", "code", "em", "font", "i", "s", "small", "strike", "strong", "tt", "u"}
TableStart == {"caption", "col", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr"}

RECURSIVE Proc(_, _), Html(_, _, _), Foster(_, _), FosterAll(_, _), InsertAll(_, _)
\* the first insertion modes
EarlyMode(s, m, tok, g) ==
    LET ws == tok.t = "c" /\ IsWs(tok.d[1]) IN
    CASE m = "initial" ->
           (IF ws THEN s
            ELSE IF tok.t = "m" THEN InsertComment(s, tok, AtEnd(1))
            ELSE IF tok.t = "d" THEN [Mode(InsertNew(s, [Node0 EXCEPT !.k = "dt", !.n = tok.n, !.p = tok.p, !.s = tok.s], AtEnd(1)), "beforehtml") EXCEPT !.quirks = QuirksOf(tok)]
            ELSE Proc([Mode(s, "beforehtml") EXCEPT !.quirks = "quirks"], tok))
      [] m = "beforehtml" ->
           (LET root(tk) == LET u == InsertNew(s, ElementOf(tk, "html", PlainAttrs(tk)), AtEnd(1)) IN Mode([u EXCEPT !.stack = Append(@, Len(u.nodes))], "beforehead")
            IN IF tok.t = "d" \/ ws THEN s
               ELSE IF tok.t = "m" THEN InsertComment(s, tok, AtEnd(1))
               ELSE IF tok.t = "s" /\ g = "html" THEN root(tok)
               ELSE IF tok.t = "e" /\ g \notin {"head", "body", "html", "br"} THEN s
               ELSE Proc(root(Bare("html")), tok))
      [] m = "beforehead" ->
           (IF tok.t = "d" \/ ws THEN s
            ELSE IF tok.t = "m" THEN Comment(s, tok)
            ELSE IF tok.t = "s" /\ g = "html" THEN Html(s, "body", tok)
            ELSE IF tok.t = "s" /\ g = "head" THEN LET u == InsertHtml(s, tok) IN Mode([u EXCEPT !.head = Cur(u)], "head")
            ELSE IF tok.t = "e" /\ g \notin {"head", "body", "html", "br"} THEN s
            ELSE LET u == Implied(s, "head") IN Proc(Mode([u EXCEPT !.head = Cur(u)], "head"), tok))
      [] m = "head" ->
           (IF ws THEN InsertChar(s, tok.d[1])
            ELSE IF tok.t = "m" THEN Comment(s, tok)
            ELSE IF tok.t = "d" THEN s
            ELSE IF tok.t = "s" /\ g = "html" THEN Html(s, "body", tok)
            ELSE IF tok.t = "s" /\ g \in {"base", "basefont", "bgsound", "link"} THEN Pop(InsertHtml(s, tok))
            ELSE IF tok.t = "s" /\ g = "meta" THEN [Pop(InsertHtml(s, tok)) EXCEPT !.metas = Append(@, tok.a)]
            ELSE IF tok.t = "s" /\ g = "title" THEN RawText(s, tok, "rcdata")
            ELSE IF tok.t = "s" /\ (g \in {"noframes", "style"} \/ (g = "noscript" /\ s.scripting)) THEN RawText(s, tok, "rawtext")
            ELSE IF tok.t = "s" /\ g = "noscript" THEN Mode(InsertHtml(s, tok), "noscript")
            ELSE IF tok.t = "s" /\ g = "script" THEN RawText(s, tok, "script")
            ELSE IF tok.t = "e" /\ g = "head" THEN Mode(Pop(s), "afterhead")
            ELSE IF tok.t = "s" /\ g = "template" THEN [Mode(NotOk(PutMarker(InsertHtml(s, tok))), "template") EXCEPT !.tm = Append(@, "template")]
            ELSE IF tok.t = "e" /\ g = "template" THEN
                   IF ~HasOnStack(s, {"template"}) THEN s
                   ELSE LET u == ClearAfe(PopUntil(GenThoroughly(s), {"template"})) IN ResetMode([u EXCEPT !.tm = SubSeq(@, 1, Len(@) - 1)])
            ELSE IF (tok.t = "s" /\ g = "head") \/ (tok.t = "e" /\ g \notin {"body", "html", "br"}) THEN s
            ELSE Proc(Mode(Pop(s), "afterhead"), tok))
      [] m = "noscript" ->
           (IF tok.t = "d" THEN s
            ELSE IF tok.t = "s" /\ g = "html" THEN Html(s, "body", tok)
            ELSE IF tok.t = "e" /\ g = "noscript" THEN Mode(Pop(s), "head")
            ELSE IF ws \/ tok.t = "m" \/ (tok.t = "s" /\ g \in {"basefont", "bgsound", "link", "meta", "noframes", "style"}) THEN Html(s, "head", tok)
            ELSE IF (tok.t = "s" /\ g \in {"head", "noscript"}) \/ (tok.t = "e" /\ g # "br") THEN s
            ELSE Proc(Mode(Pop(s), "head"), tok))
      [] m = "afterhead" ->
           (IF ws THEN InsertChar(s, tok.d[1])
            ELSE IF tok.t = "m" THEN Comment(s, tok)
            ELSE IF tok.t = "d" THEN s
            ELSE IF tok.t = "s" /\ g = "html" THEN Html(s, "body", tok)
            ELSE IF tok.t = "s" /\ g = "body" THEN Mode(NotOk(InsertHtml(s, tok)), "body")
            ELSE IF tok.t = "s" /\ g = "frameset" THEN Mode(InsertHtml(s, tok), "frameset")
            ELSE IF tok.t = "s" /\ g \in HeadTags THEN DropStack(Html([s EXCEPT !.stack = Append(@, s.head)], "head", tok), s.head)
            ELSE IF tok.t = "e" /\ g = "template" THEN Html(s, "head", tok)
            ELSE IF (tok.t = "s" /\ g = "head") \/ (tok.t = "e" /\ g \notin {"body", "html", "br"}) THEN s
            ELSE Proc(Mode(Implied(s, "body"), "body"), tok))

BodyStart(s, tok, g) ==
    CASE g = "html" -> IF HasOnStack(s, {"template"}) THEN s ELSE AddAttrs(s, s.stack[1], PlainAttrs(tok), 1)
      [] g \in HeadTags -> Html(s, "head", tok)
      [] g = "body" -> IF Len(s.stack) < 2 \/ ~Is(s, s.stack[IF Len(s.stack) < 2 THEN 1 ELSE 2], {"body"}) \/ HasOnStack(s, {"template"}) THEN s ELSE AddAttrs(NotOk(s), s.stack[2], PlainAttrs(tok), 1)
      [] g = "frameset" ->
           IF Len(s.stack) < 2 \/ ~Is(s, s.stack[IF Len(s.stack) < 2 THEN 1 ELSE 2], {"body"}) \/ ~s.fok THEN s
           ELSE LET u == Detach(s, s.stack[2]) IN Mode(InsertHtml([u EXCEPT !.stack = SubSeq(@, 1, 1)], tok), "frameset")
      [] g \in BlockStart -> InsertHtml(ClosePIf(s), tok)
      [] g \in Headings -> LET u == ClosePIf(s) IN InsertHtml(IF CurIs(u, Headings) THEN Pop(u) ELSE u, tok)
      [] g \in {"pre", "listing"} -> [NotOk(InsertHtml(ClosePIf(s), tok)) EXCEPT !.skip = TRUE]
      [] g = "form" ->
           IF s.form # 0 /\ ~HasOnStack(s, {"template"}) THEN s
           ELSE LET u == InsertHtml(ClosePIf(s), tok) IN IF HasOnStack(u, {"template"}) THEN u ELSE [u EXCEPT !.form = Cur(u)]
      [] g \in {"li", "dd", "dt"} ->
           LET u == NotOk(s)
               closes == IF g = "li" THEN {"li"} ELSE {"dd", "dt"}
               RECURSIVE W(_)
               W(i) == IF i = 0 THEN u
                       ELSE IF Is(u, u.stack[i], closes) THEN LET nm == u.nodes[u.stack[i]].tg IN PopUntil(GenImplied(u, {nm}), {nm})
                       ELSE IF IsSpecial(u, u.stack[i]) /\ ~Is(u, u.stack[i], {"address", "div", "p"}) THEN u
                       ELSE W(i - 1)
           IN InsertHtml(ClosePIf(W(Len(u.stack))), tok)
      [] g = "plaintext" -> [InsertHtml(ClosePIf(s), tok) EXCEPT !.ts = "plaintext"]
      [] g = "button" -> LET u == IF InScope(s, {"button"}, "any") THEN PopUntil(GenImplied(s, {}), {"button"}) ELSE s IN NotOk(InsertHtml(Reconstruct(u), tok))
      [] g = "a" ->
           LET hits == {i \in (LastMarker(s) + 1)..Len(s.afe) : Str(s.afe[i].tok.n) = "a"}
               id == s.afe[CHOOSE i \in hits : \A j \in hits : j <= i].id
               u == IF hits = {} THEN s ELSE DropStack(DropAfe(Adopt(s, [tok EXCEPT !.t = "e"]), id), id)
           IN Formatting(Reconstruct(u), tok)
      [] g \in FormatTags -> Formatting(Reconstruct(s), tok)
      [] g = "nobr" -> LET u == Reconstruct(s) IN Formatting(IF InScope(u, {"nobr"}, "any") THEN Reconstruct(Adopt(u, tok)) ELSE u, tok)
      [] g \in {"applet", "marquee", "object"} -> NotOk(PutMarker(InsertHtml(Reconstruct(s), tok)))
      [] g = "table" -> Mode(NotOk(InsertHtml(IF s.quirks # "quirks" THEN ClosePIf(s) ELSE s, tok)), "table")
      [] g \in {"area", "br", "embed", "img", "keygen", "wbr"} -> NotOk(Pop(InsertHtml(Reconstruct(s), tok)))
      [] g = "input" -> LET u == Pop(InsertHtml(Reconstruct(s), tok)) IN IF IsHidden(tok) THEN u ELSE NotOk(u)
      [] g \in {"param", "source", "track"} -> Pop(InsertHtml(s, tok))
      [] g = "hr" -> NotOk(Pop(InsertHtml(ClosePIf(s), tok)))
      [] g = "image" -> Proc(s, [tok EXCEPT !.n = Tags["img"]])
      [] g = "textarea" -> LET u == InsertHtml(s, tok) IN NotOk([u EXCEPT !.skip = TRUE, !.ts = "rcdata", !.orig = s.mode, !.mode = "text"])
      [] g = "xmp" -> RawText(NotOk(Reconstruct(ClosePIf(s))), tok, "rawtext")
      [] g = "iframe" -> RawText(NotOk(s), tok, "rawtext")
      [] g = "noembed" \/ (g = "noscript" /\ s.scripting) -> RawText(s, tok, "rawtext")
      [] g = "select" -> LET u == NotOk(InsertHtml(Reconstruct(s), tok)) IN Mode(u, IF s.mode \in {"table", "caption", "tablebody", "row", "cell"} THEN "selecttable" ELSE "select")
      [] g \in {"optgroup", "option"} -> InsertHtml(Reconstruct(IF CurIs(s, {"option"}) THEN Pop(s) ELSE s), tok)
      [] g \in {"rb", "rtc"} -> InsertHtml(IF InScope(s, {"ruby"}, "any") THEN GenImplied(s, {}) ELSE s, tok)
      [] g \in {"rp", "rt"} -> InsertHtml(IF InScope(s, {"ruby"}, "any") THEN GenImplied(s, {"rtc"}) ELSE s, tok)
      [] g = "math" -> InsertForeign(Reconstruct(s), tok, "math", MathAttrs(tok))
      [] g = "svg" -> InsertForeign(Reconstruct(s), tok, "svg", SvgAttrs(tok))
      [] g \in (TableStart \cup {"frame", "head"}) -> s
      [] OTHER -> InsertHtml(Reconstruct(s), tok)

BodyEnd(s, tok, g) ==
    CASE g = "template" -> Html(s, "head", tok)
      [] g = "body" -> IF InScope(s, {"body"}, "any") THEN Mode(s, "afterbody") ELSE s
      [] g = "html" -> IF InScope(s, {"body"}, "any") THEN Proc(Mode(s, "afterbody"), tok) ELSE s
      [] g \in BlockEnd -> IF InScope(s, {g}, "any") THEN PopUntil(GenImplied(s, {}), {g}) ELSE s
      [] g = "form" ->
           IF HasOnStack(s, {"template"}) THEN (IF InScope(s, {"form"}, "any") THEN PopUntil(GenImplied(s, {}), {"form"}) ELSE s)
           ELSE LET id == s.form u == [s EXCEPT !.form = 0] IN IF id = 0 THEN u ELSE IF ~IdInScope(u, id) THEN u ELSE DropStack(GenImplied(u, {}), id)
      [] g = "p" -> CloseP(IF InScope(s, {"p"}, "button") THEN s ELSE Implied(s, "p"))
      [] g = "li" -> IF InScope(s, {"li"}, "list") THEN PopUntil(GenImplied(s, {"li"}), {"li"}) ELSE s
      [] g \in {"dd", "dt"} -> IF InScope(s, {g}, "any") THEN PopUntil(GenImplied(s, {g}), {g}) ELSE s
      [] g \in Headings -> IF InScope(s, Headings, "any") THEN PopUntil(GenImplied(s, {}), Headings) ELSE s
      [] g \in (FormatTags \cup {"a", "nobr"}) -> Adopt(s, tok)
      [] g \in {"applet", "marquee", "object"} -> IF InScope(s, {g}, "any") THEN ClearAfe(PopUntil(GenImplied(s, {}), {g})) ELSE s
      [] g = "br" -> BodyStart(s, Bare("br"), "br")
      [] OTHER -> AnyOtherEnd(s, tok)

BodyMode(s, tok, g) ==
    CASE tok.t = "c" -> IF tok.d[1] = 0 THEN s ELSE LET u == InsertChar(Reconstruct(s), tok.d[1]) IN IF IsWs(tok.d[1]) THEN u ELSE NotOk(u)
      [] tok.t = "m" -> Comment(s, tok)
      [] tok.t = "d" -> s
      [] tok.t = "f" -> IF s.tm # <<>> THEN Html(s, "template", tok) ELSE [s EXCEPT !.stop = TRUE]
      [] tok.t = "s" -> BodyStart(s, tok, g)
      [] tok.t = "e" -> BodyEnd(s, tok, g)

\* tables
Foster(s, tok) == LET u == Html([s EXCEPT !.foster = TRUE], "body", tok) IN [u EXCEPT !.foster = FALSE]
FosterAll(s, cs) == IF cs = <<>> THEN s ELSE FosterAll(Foster(s, CharTok(Head(cs))), Tail(cs))
InsertAll(s, cs) == IF cs = <<>> THEN s ELSE InsertAll(InsertChar(s, Head(cs)), Tail(cs))
ToTable(s) == PopTo(s, {"table", "template", "html"})
ToBody(s) == PopTo(s, {"tbody", "tfoot", "thead", "template", "html"})
ToRow(s) == PopTo(s, {"tr", "template", "html"})
CloseCell(s) == Mode(ClearAfe(PopUntil(GenImplied(s, {}), {"td", "th"})), "row")
TableModes(s, m, tok, g) ==
    LET S(names) == tok.t = "s" /\ g \in names
        E(names) == tok.t = "e" /\ g \in names
        ws == tok.t = "c" /\ IsWs(tok.d[1])
    IN
    CASE m = "table" ->
           (IF tok.t = "c" /\ CurIs(s, TableParts) THEN Proc([s EXCEPT !.pend = <<>>, !.orig = s.mode, !.mode = "tabletext"], tok)
            ELSE IF tok.t = "m" THEN Comment(s, tok)
            ELSE IF tok.t = "d" THEN s
            ELSE IF S({"caption"}) THEN Mode(InsertHtml(PutMarker(ToTable(s)), tok), "caption")
            ELSE IF S({"colgroup"}) THEN Mode(InsertHtml(ToTable(s), tok), "colgroup")
            ELSE IF S({"col"}) THEN Proc(Mode(Implied(ToTable(s), "colgroup"), "colgroup"), tok)
            ELSE IF S({"tbody", "tfoot", "thead"}) THEN Mode(InsertHtml(ToTable(s), tok), "tablebody")
            ELSE IF S({"td", "th", "tr"}) THEN Proc(Mode(Implied(ToTable(s), "tbody"), "tablebody"), tok)
            ELSE IF S({"table"}) THEN IF InScope(s, {"table"}, "table") THEN Proc(ResetMode(PopUntil(s, {"table"})), tok) ELSE s
            ELSE IF E({"table"}) THEN IF InScope(s, {"table"}, "table") THEN ResetMode(PopUntil(s, {"table"})) ELSE s
            ELSE IF E({"body", "caption", "col", "colgroup", "html", "tbody", "td", "tfoot", "th", "thead", "tr"}) THEN s
            ELSE IF S({"style", "script", "template"}) \/ E({"template"}) THEN Html(s, "head", tok)
            ELSE IF S({"input"}) /\ IsHidden(tok) THEN Pop(InsertHtml(s, tok))
            ELSE IF S({"form"}) THEN
                   IF HasOnStack(s, {"template"}) \/ s.form # 0 THEN s ELSE LET u == InsertHtml(s, tok) IN Pop([u EXCEPT !.form = Cur(u)])
            ELSE IF tok.t = "f" THEN Html(s, "body", tok)
            ELSE Foster(s, tok))
      [] m = "tabletext" ->
           (IF tok.t = "c" THEN IF tok.d[1] = 0 THEN s ELSE [s EXCEPT !.pend = Append(@, tok.d[1])]
            ELSE LET u == IF \E i \in 1..Len(s.pend) : ~IsWs(s.pend[i]) THEN FosterAll(s, s.pend) ELSE InsertAll(s, s.pend) IN Proc(Mode(u, s.orig), tok))
      [] m = "caption" ->
           (LET close == Mode(ClearAfe(PopUntil(GenImplied(s, {}), {"caption"})), "table") IN
            IF E({"caption"}) THEN IF InScope(s, {"caption"}, "table") THEN close ELSE s
            ELSE IF S(TableStart) \/ E({"table"}) THEN IF InScope(s, {"caption"}, "table") THEN Proc(close, tok) ELSE s
            ELSE IF E({"body", "col", "colgroup", "html", "tbody", "td", "tfoot", "th", "thead", "tr"}) THEN s
            ELSE Html(s, "body", tok))
      [] m = "colgroup" ->
           (IF ws THEN InsertChar(s, tok.d[1])
            ELSE IF tok.t = "m" THEN Comment(s, tok)
            ELSE IF tok.t = "d" THEN s
            ELSE IF S({"html"}) THEN Html(s, "body", tok)
            ELSE IF S({"col"}) THEN Pop(InsertHtml(s, tok))
            ELSE IF E({"colgroup"}) THEN IF CurIs(s, {"colgroup"}) THEN Mode(Pop(s), "table") ELSE s
            ELSE IF E({"col"}) THEN s
            ELSE IF S({"template"}) \/ E({"template"}) THEN Html(s, "head", tok)
            ELSE IF tok.t = "f" THEN Html(s, "body", tok)
            ELSE IF CurIs(s, {"colgroup"}) THEN Proc(Mode(Pop(s), "table"), tok) ELSE s)
      [] m = "tablebody" ->
           (IF S({"tr"}) THEN Mode(InsertHtml(ToBody(s), tok), "row")
            ELSE IF S({"th", "td"}) THEN Proc(Mode(Implied(ToBody(s), "tr"), "row"), tok)
            ELSE IF E({"tbody", "tfoot", "thead"}) THEN IF InScope(s, {g}, "table") THEN Mode(Pop(ToBody(s)), "table") ELSE s
            ELSE IF S({"caption", "col", "colgroup", "tbody", "tfoot", "thead"}) \/ E({"table"}) THEN
                   IF InScope(s, {"tbody", "thead", "tfoot"}, "table") THEN Proc(Mode(Pop(ToBody(s)), "table"), tok) ELSE s
            ELSE IF E({"body", "caption", "col", "colgroup", "html", "td", "th", "tr"}) THEN s
            ELSE Html(s, "table", tok))
      [] m = "row" ->
           (IF S({"th", "td"}) THEN PutMarker(Mode(InsertHtml(ToRow(s), tok), "cell"))
            ELSE IF E({"tr"}) THEN IF InScope(s, {"tr"}, "table") THEN Mode(Pop(ToRow(s)), "tablebody") ELSE s
            ELSE IF S({"caption", "col", "colgroup", "tbody", "tfoot", "thead", "tr"}) \/ E({"table"}) THEN
                   IF InScope(s, {"tr"}, "table") THEN Proc(Mode(Pop(ToRow(s)), "tablebody"), tok) ELSE s
            ELSE IF E({"tbody", "tfoot", "thead"}) THEN
                   IF InScope(s, {g}, "table") /\ InScope(s, {"tr"}, "table") THEN Proc(Mode(Pop(ToRow(s)), "tablebody"), tok) ELSE s
            ELSE IF E({"body", "caption", "col", "colgroup", "html", "td", "th"}) THEN s
            ELSE Html(s, "table", tok))
      [] m = "cell" ->
           (IF E({"td", "th"}) THEN IF InScope(s, {g}, "table") THEN Mode(ClearAfe(PopUntil(GenImplied(s, {}), {g})), "row") ELSE s
            ELSE IF S(TableStart) THEN IF InScope(s, {"td", "th"}, "table") THEN Proc(CloseCell(s), tok) ELSE s
            ELSE IF E({"body", "caption", "col", "colgroup", "html"}) THEN s
            ELSE IF E({"table", "tbody", "tfoot", "thead", "tr"}) THEN IF InScope(s, {g}, "table") THEN Proc(CloseCell(s), tok) ELSE s
            ELSE Html(s, "body", tok))
      [] m = "select" ->
           (LET leave == ResetMode(PopUntil(s, {"select"})) IN
            IF tok.t = "c" THEN IF tok.d[1] = 0 THEN s ELSE InsertChar(s, tok.d[1])
            ELSE IF tok.t = "m" THEN Comment(s, tok)
            ELSE IF tok.t = "d" THEN s
            ELSE IF S({"html"}) THEN Html(s, "body", tok)
            ELSE IF S({"option"}) THEN InsertHtml(IF CurIs(s, {"option"}) THEN Pop(s) ELSE s, tok)
            ELSE IF S({"optgroup"}) THEN LET u == IF CurIs(s, {"option"}) THEN Pop(s) ELSE s IN InsertHtml(IF CurIs(u, {"optgroup"}) THEN Pop(u) ELSE u, tok)
            ELSE IF E({"optgroup"}) THEN
                   LET u == IF CurIs(s, {"option"}) /\ Len(s.stack) > 1 /\ Is(s, s.stack[Len(s.stack) - 1], {"optgroup"}) THEN Pop(s) ELSE s IN IF CurIs(u, {"optgroup"}) THEN Pop(u) ELSE u
            ELSE IF E({"option"}) THEN IF CurIs(s, {"option"}) THEN Pop(s) ELSE s
            ELSE IF E({"select"}) \/ S({"select"}) THEN IF InScope(s, {"select"}, "select") THEN leave ELSE s
            ELSE IF S({"input", "keygen", "textarea"}) THEN IF InScope(s, {"select"}, "select") THEN Proc(leave, tok) ELSE s
            ELSE IF S({"script", "template"}) \/ E({"template"}) THEN Html(s, "head", tok)
            ELSE IF tok.t = "f" THEN Html(s, "body", tok)
            ELSE s)
      [] m = "selecttable" ->
           (IF S({"caption", "table", "tbody", "tfoot", "thead", "tr", "td", "th"}) THEN Proc(ResetMode(PopUntil(s, {"select"})), tok)
            ELSE IF E({"caption", "table", "tbody", "tfoot", "thead", "tr", "td", "th"}) THEN
                   IF InScope(s, {g}, "table") THEN Proc(ResetMode(PopUntil(s, {"select"})), tok) ELSE s
            ELSE Html(s, "select", tok))

LateMode(s, m, tok, g) ==
    LET S(names) == tok.t = "s" /\ g \in names
        E(names) == tok.t = "e" /\ g \in names
        ws == tok.t = "c" /\ IsWs(tok.d[1])
        swap(to) == Proc([Mode(s, to) EXCEPT !.tm[Len(s.tm)] = to], tok)
        stop == [s EXCEPT !.stop = TRUE]
    IN
    CASE m = "text" -> (IF tok.t = "c" THEN InsertChar(s, tok.d[1]) ELSE IF tok.t = "f" THEN Proc(Mode(Pop(s), s.orig), tok) ELSE Mode(Pop(s), s.orig))
      [] m = "template" ->
           (IF tok.t \in {"c", "m", "d"} THEN Html(s, "body", tok)
            ELSE IF S(HeadTags) \/ E({"template"}) THEN Html(s, "head", tok)
            ELSE IF S({"caption", "colgroup", "tbody", "tfoot", "thead"}) THEN swap("table")
            ELSE IF S({"col"}) THEN swap("colgroup")
            ELSE IF S({"tr"}) THEN swap("tablebody")
            ELSE IF S({"td", "th"}) THEN swap("row")
            ELSE IF tok.t = "s" THEN swap("body")
            ELSE IF tok.t = "e" THEN s
            ELSE IF ~HasOnStack(s, {"template"}) THEN stop
            ELSE LET u == ClearAfe(PopUntil(s, {"template"})) IN Proc(ResetMode([u EXCEPT !.tm = SubSeq(@, 1, Len(@) - 1)]), tok))
      [] m = "afterbody" ->
           (IF ws THEN Html(s, "body", tok)
            ELSE IF tok.t = "m" THEN InsertComment(s, tok, AtEnd(s.stack[1]))
            ELSE IF tok.t = "d" THEN s
            ELSE IF S({"html"}) THEN Html(s, "body", tok)
            ELSE IF E({"html"}) THEN Mode(s, "afterafterbody")
            ELSE IF tok.t = "f" THEN stop
            ELSE Proc(Mode(s, "body"), tok))
      [] m = "frameset" ->
           (IF ws THEN InsertChar(s, tok.d[1])
            ELSE IF tok.t = "m" THEN Comment(s, tok)
            ELSE IF S({"html"}) THEN Html(s, "body", tok)
            ELSE IF S({"frameset"}) THEN InsertHtml(s, tok)
            ELSE IF E({"frameset"}) THEN IF Len(s.stack) = 1 THEN s ELSE LET u == Pop(s) IN IF CurIs(u, {"frameset"}) THEN u ELSE Mode(u, "afterframeset")
            ELSE IF S({"frame"}) THEN Pop(InsertHtml(s, tok))
            ELSE IF S({"noframes"}) THEN Html(s, "head", tok)
            ELSE IF tok.t = "f" THEN stop
            ELSE s)
      [] m = "afterframeset" ->
           (IF ws THEN InsertChar(s, tok.d[1])
            ELSE IF tok.t = "m" THEN Comment(s, tok)
            ELSE IF S({"html"}) THEN Html(s, "body", tok)
            ELSE IF E({"html"}) THEN Mode(s, "afterafterframeset")
            ELSE IF S({"noframes"}) THEN Html(s, "head", tok)
            ELSE IF tok.t = "f" THEN stop
            ELSE s)
      [] m = "afterafterbody" ->
           (IF tok.t = "m" THEN InsertComment(s, tok, AtEnd(1))
            ELSE IF tok.t = "d" \/ ws \/ S({"html"}) THEN Html(s, "body", tok)
            ELSE IF tok.t = "f" THEN stop
            ELSE Proc(Mode(s, "body"), tok))
      [] m = "afterafterframeset" ->
           (IF tok.t = "m" THEN InsertComment(s, tok, AtEnd(1))
            ELSE IF tok.t = "d" \/ ws \/ S({"html"}) THEN Html(s, "body", tok)
            ELSE IF tok.t = "f" THEN stop
            ELSE IF S({"noframes"}) THEN Html(s, "head", tok)
            ELSE s)

\* the rules of mode m (which need not be the current one) for a token
Html(s, m, tok) ==
    LET g == IF tok.t \in {"s", "e"} THEN Str(tok.n) ELSE "" IN
    CASE m = "body" -> BodyMode(s, tok, g)
      [] m \in {"initial", "beforehtml", "beforehead", "head", "noscript", "afterhead"} -> EarlyMode(s, m, tok, g)
      [] m \in {"table", "tabletext", "caption", "colgroup", "tablebody", "row", "cell", "select", "selecttable"} -> TableModes(s, m, tok, g)
      [] OTHER -> LateMode(s, m, tok, g)

Foreign(s, tok) ==
    LET g == IF tok.t \in {"s", "e"} THEN Str(tok.n) ELSE "" IN
    CASE tok.t = "c" -> IF tok.d[1] = 0 THEN InsertChar(s, FFFD) ELSE LET u == InsertChar(s, tok.d[1]) IN IF IsWs(tok.d[1]) THEN u ELSE NotOk(u)
      [] tok.t = "m" -> Comment(s, tok)
      [] tok.t = "d" -> s
      [] tok.t = "s" ->
           IF g \in Breakout \/ (g = "font" /\ (HasAttr(tok, "color") \/ HasAttr(tok, "face") \/ HasAttr(tok, "size"))) THEN Proc(LeaveForeign(Pop(s)), tok)
           ELSE IF Nd(s, Cur(s)).ns = "math" THEN InsertForeign(s, tok, "math", MathAttrs(tok))
           ELSE InsertForeign(s, [tok EXCEPT !.n = MapName(Data.svgtags, tok.n, 1)], "svg", SvgAttrs(tok))
      [] tok.t = "e" ->
           LET RECURSIVE W(_)
               W(i) == IF i = 1 THEN s
                       ELSE IF LowerSeq(s.nodes[s.stack[i]].n) = tok.n THEN PopThrough(s, s.stack[i])
                       ELSE IF s.nodes[s.stack[i - 1]].ns # "html" THEN W(i - 1)
                       ELSE Html(s, s.mode, tok)
           IN IF g \in {"br", "p"} THEN LET u == LeaveForeign(s) IN Html(u, u.mode, tok) ELSE W(Len(s.stack))

Proc(s, tok) == IF s.stop THEN s ELSE IF UseHtml(s, tok) THEN Html(s, s.mode, tok) ELSE Foreign(s, tok)
\* a token from the tokeniser
Deliver(s, tok) == LET u == [s EXCEPT !.skip = FALSE, !.ts = ""] IN
    IF s.skip /\ tok.t = "c" /\ tok.d[1] = 10 THEN u ELSE Proc(u, tok)

\* --- the parser: tokeniser and tree construction together ---
\* dev: CDATA sections in HTML content instead of foreign content
CdataOk(s, dev) == s.stack # <<>> /\ ((Nd(s, Cur(s)).ns = "html") <=> dev)
HasCdata(In) == \E i \in 1..Len(In) : Looks(In, i, CdataW, FALSE)
RECURSIVE Drain(_, _, _)
Drain(s, out, i) == IF i > Len(out) THEN s ELSE Drain(Deliver(s, out[i]), out, i + 1)
RECURSIVE RunPar(_, _, _, _)
RunPar(t, s, In, dev) ==
    IF t.done THEN s
    ELSE LET t1 == Step(t, In, t.st = "mdo" /\ CdataOk(s, dev)) IN
         IF t1.out = <<>> THEN RunPar(t1, s, In, dev)
         ELSE LET s1 == Drain(s, t1.out, 1)
                  t2 == [t1 EXCEPT !.out = <<>>, !.st = IF s1.ts # "" THEN s1.ts ELSE @]
              IN RunPar(t2, s1, In, dev)
RunDoc(input, scripting, dev) == RunPar(Tok0("data", <<>>), State0(scripting), Normalise(input), dev)

\* the tree in document order: depth, kind, names, attributes, data
RECURSIVE FlatNode(_, _, _), FlatList(_, _, _, _)
FlatNode(s, id, depth) == LET nd == s.nodes[id] IN
    <<[l |-> depth, k |-> nd.k, ns |-> nd.ns, n |-> nd.n, a |-> nd.a, d |-> nd.d, p |-> nd.p, s |-> nd.s]>> \o FlatList(s, nd.ch, depth + 1, 1)
FlatList(s, ch, depth, i) == IF i > Len(ch) THEN <<>> ELSE FlatNode(s, ch[i], depth) \o FlatList(s, ch, depth, i + 1)
FlatDoc(s) == FlatList(s, s.nodes[1].ch, 0, 1)
=============================================================================
