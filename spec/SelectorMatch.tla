---------------------------- MODULE SelectorMatch ----------------------------
(* Which elements of a document a selector list represents.  The document is a sequence of nodes in tree order; node i is
   [u |-> its parent or 0, k |-> 1 element, 3 text, 7 processing instruction, 8 comment, 9 document, 10 document type, 11 fragment,
    ns |-> namespace, n |-> local name, a |-> attributes [ns, n, v]].
   x is [html |-> BOOLEAN, quirks |-> BOOLEAN, ns |-> sequence of <<prefix, namespace>>, dash |-> BOOLEAN]; dash = FALSE is the library's reading of
   [attr|=value] (known finding: an attribute equal to the value does not match). *)
EXTENDS Selectors

Elem(d, e) == d[e].k = 1
Parent(d, e) == d[e].u
RECURSIVE Ancestors(_, _)
Ancestors(d, e) == IF Parent(d, e) = 0 THEN {} ELSE {Parent(d, e)} \cup Ancestors(d, Parent(d, e))
Before(d, e) == {f \in 1..(e - 1) : d[f].u = d[e].u /\ d[e].u # 0 /\ Elem(d, f)}
MaxOf(S) == CHOOSE m \in S : \A y \in S : y <= m
(* the elements a combinator leads to from e, read from right to left *)
Step(d, o, e) ==
  CASE o = 32 -> {f \in Ancestors(d, e) : Elem(d, f)}
    [] o = 62 -> {f \in {Parent(d, e)} : f # 0 /\ Elem(d, f)}
    [] o = 43 -> (IF Before(d, e) = {} THEN {} ELSE {MaxOf(Before(d, e))})
    [] o = 126 -> Before(d, e)
    [] OTHER -> {}

SameText(a, b, fold) == a = b \/ (fold /\ LowerS(a) = LowerS(b))
WsChar(c) == c \in {9, 10, 12, 13, 32}
RECURSIVE WordsFrom(_, _, _, _)
WordsFrom(v, p, cur, a) ==
  IF p > Len(v) THEN (IF cur = <<>> THEN a ELSE a \cup {cur})
  ELSE IF WsChar(v[p]) THEN WordsFrom(v, p + 1, <<>>, IF cur = <<>> THEN a ELSE a \cup {cur}) ELSE WordsFrom(v, p + 1, Append(cur, v[p]), a)
Words(v) == WordsFrom(v, 1, <<>>, {})
Begins(v, w, fold) == Len(w) <= Len(v) /\ SameText(SubSeq(v, 1, Len(w)), w, fold)
Ends(v, w, fold) == Len(w) <= Len(v) /\ SameText(SubSeq(v, Len(v) - Len(w) + 1, Len(v)), w, fold)
Contains(v, w, fold) == \E i \in 1..(Len(v) - Len(w) + 1) : SameText(SubSeq(v, i, i + Len(w) - 1), w, fold)
ValueMatches(x, s, v) ==
  LET w == s.v  fold == s.i = 105 IN
  CASE s.m = 0 -> TRUE
    [] s.m = 61 -> SameText(v, w, fold)
    [] s.m = 126 -> \E y \in Words(v) : SameText(y, w, fold)
    [] s.m = 124 -> (x.dash /\ SameText(v, w, fold)) \/ Begins(v, Append(w, 45), fold)
    [] s.m = 94 -> w # <<>> /\ Begins(v, w, fold)
    [] s.m = 36 -> w # <<>> /\ Ends(v, w, fold)
    [] OTHER -> w # <<>> /\ Contains(v, w, fold)

RECURSIVE Lookup(_, _, _)
Lookup(ns, p, i) == IF i > Len(ns) THEN <<>> ELSE IF ns[i][1] = p THEN <<ns[i][2]>> ELSE Lookup(ns, p, i + 1)
Declared(ns) == {ns[i][1] : i \in 1..Len(ns)}
(* the namespace condition a prefix stands for *)
InNs(x, p, uri) ==
  LET q == p[1] IN
  IF q = <<STAR>> THEN TRUE ELSE IF q = <<>> THEN uri = <<>> ELSE Lookup(x.ns, q, 1) = <<uri>>
ElemNs(x, s, uri) == IF s.p # <<>> THEN InNs(x, s.p, uri) ELSE Lookup(x.ns, <<>>, 1) \in {<<>>, <<uri>>}      \* no prefix: the default namespace, if there is one
AttrNs(x, s, uri) == IF s.p # <<>> THEN InNs(x, s.p, uri) ELSE uri = <<>>
IDN == <<105, 100>>
CLASSN == <<99, 108, 97, 115, 115>>
ROOTN == <<114, 111, 111, 116>>
HasAttr(d, e, x, name, Good(_)) == \E i \in 1..Len(d[e].a) : LET t == d[e].a[i] IN t.ns = <<>> /\ SameText(t.n, name, x.html) /\ Good(t.v)
MatchSimple(d, x, s, e) ==
  /\ Elem(d, e)
  /\ CASE s.k = "type" -> ElemNs(x, s, d[e].ns) /\ SameText(d[e].n, s.n, x.html)
       [] s.k = "any" -> ElemNs(x, s, d[e].ns)
       [] s.k = "id" -> HasAttr(d, e, x, IDN, LAMBDA v : SameText(v, s.n, x.quirks))
       [] s.k = "class" -> HasAttr(d, e, x, CLASSN, LAMBDA v : \E w \in Words(v) : SameText(w, s.n, x.quirks))
       [] s.k = "attr" -> \E i \in 1..Len(d[e].a) : LET t == d[e].a[i] IN AttrNs(x, s, t.ns) /\ SameText(t.n, s.n, x.html) /\ ValueMatches(x, s, t.v)
       [] s.k = "pc" -> LowerS(s.n) = ROOTN /\ Parent(d, e) # 0 /\ d[Parent(d, e)].k = 9
       [] OTHER -> FALSE                 \* other pseudo-classes and the pseudo-elements are accepted but represent no element
MatchCompound(d, x, c, e) == \A i \in 1..Len(c) : MatchSimple(d, x, c[i], e)
RECURSIVE MatchTo(_, _, _, _, _)
MatchTo(d, x, z, i, e) == MatchCompound(d, x, z.s[i], e) /\ (i = 1 \/ \E f \in Step(d, z.o[i - 1], e) : MatchTo(d, x, z, i - 1, f))
MatchComplex(d, x, z, e) == MatchTo(d, x, z, Len(z.s), e)
MatchList(d, x, l, e) == \E i \in 1..Len(l) : MatchComplex(d, x, l[i], e)

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A y \in S : m <= y IN <<m>> \o Ascending(S \ {m})
(* querySelectorAll from node np: its proper descendants; from the whole tree: np = 0 *)
QueryAll(d, x, l, np) == Ascending({e \in 1..Len(d) : (np = 0 \/ np \in Ancestors(d, e)) /\ MatchList(d, x, l, e)})
==============================================================================
