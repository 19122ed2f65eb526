------------------------------ MODULE Selectors ------------------------------
(* The grammar of Selectors Level 4 over component values.
   A simple selector is [k, p, n, m, v, i, c]:
     k  "type" (n), "any" (the universal selector), "id" (n), "class" (n), "attr" (n, m, v, i), "pc" / "pcfn" (pseudo-class n, arguments c), "pe" / "pefn"
     p  <<>> without a namespace prefix, <<prefix>> with one (the empty sequence: no namespace; <<42>>: any namespace)
     m  0 or the matcher's first code point (61 for "="), v the value, i the modifier (0, 105, 115)
   A compound selector is a sequence of those; a complex selector is [l, s, o]: s compound selectors joined by the combinators o (32 descendant,
   62 child, 43 next sibling, 126 following sibling, 124 column), l the leading combinator (relative selectors; 0: none).
   ns is the set of declared prefixes. *)
EXTENDS CssParser

Simple(k, p, n, m, v, i, c) == [k |-> k, p |-> p, n |-> n, m |-> m, v |-> v, i |-> i, c |-> c]
S1(k, n) == Simple(k, <<>>, n, 0, <<>>, 0, <<>>)
IsDelim(t, c) == t.k = "delim" /\ t.v = <<c>>
STAR == 42
BAR == 124
LegacyPe == {<<98, 101, 102, 111, 114, 101>>, <<97, 102, 116, 101, 114>>, <<102, 105, 114, 115, 116, 45, 108, 105, 110, 101>>, <<102, 105, 114, 115, 116, 45, 108, 101, 116, 116, 101, 114>>}
NoSel == <<0, <<>>>>           \* result of a production that does not apply; otherwise <<next position, <<what was read>> >>

(* <ns-prefix>, only where a name or '*' follows: <<position of the name, <<>> or <<prefix>> >> *)
NameNext(ts, p) == Tk(ts, p).k = "ident" \/ IsDelim(Tk(ts, p), STAR)
Prefixed(ts, p, ns) ==
  LET t == Tk(ts, p) IN
  IF IsDelim(t, BAR) /\ NameNext(ts, p + 1) THEN <<p + 1, <<<<>>>>>>
  ELSE IF IsDelim(Tk(ts, p + 1), BAR) /\ NameNext(ts, p + 2) /\ (IsDelim(t, STAR) \/ (t.k = "ident" /\ t.v \in ns))
       THEN <<p + 2, <<IF t.k = "ident" THEN t.v ELSE <<STAR>>>>>>
  ELSE <<p, <<>>>>
TypeSel(ts, p, ns) ==
  LET x == Prefixed(ts, p, ns)  t == Tk(ts, x[1]) IN
  IF t.k = "ident" THEN <<x[1] + 1, <<Simple("type", x[2], t.v, 0, <<>>, 0, <<>>)>>>>
  ELSE IF IsDelim(t, STAR) THEN <<x[1] + 1, <<Simple("any", x[2], <<>>, 0, <<>>, 0, <<>>)>>>>
  ELSE NoSel

(* '[' <wq-name> [ <attr-matcher> [ <string> | <ident> ] <attr-modifier>? ]? ']' over the contents of the block *)
Matchers == {126, 124, 94, 36, 42}
MatcherAt(b, p) ==
  IF IsDelim(Tk(b, p), 61) THEN <<p + 1, 61>>
  ELSE IF Tk(b, p).k = "delim" /\ Tk(b, p).v[1] \in Matchers /\ IsDelim(Tk(b, p + 1), 61) THEN <<p + 2, Tk(b, p).v[1]>> ELSE <<p, 0>>
ModifierAt(b, p) ==
  LET t == Tk(b, p) IN
  IF t.k = "ident" /\ LowerS(t.v) = <<105>> THEN <<p + 1, 105>> ELSE IF t.k = "ident" /\ LowerS(t.v) = <<115>> THEN <<p + 1, 115>> ELSE <<p, 0>>
EndAt(b, p) == Tk(b, SkipWsTok(b, p)).k = "eof"
AttrSel(b, ns) ==
  LET p == SkipWsTok(b, 1)
      x == Prefixed(b, p, ns)
      name == Tk(b, x[1])
      m == MatcherAt(b, SkipWsTok(b, x[1] + 1))
      vp == SkipWsTok(b, m[1])
      val == Tk(b, vp)
      i == ModifierAt(b, SkipWsTok(b, vp + 1))
  IN IF name.k # "ident" THEN <<>>
     ELSE IF m[2] = 0 THEN (IF EndAt(b, x[1] + 1) THEN <<Simple("attr", x[2], name.v, 0, <<>>, 0, <<>>)>> ELSE <<>>)
     ELSE IF val.k \notin {"ident", "string"} \/ ~EndAt(b, i[1]) THEN <<>>
     ELSE <<Simple("attr", x[2], name.v, m[2], val.v, i[2], <<>>)>>

PseudoClass(ts, p) ==
  LET t == Tk(ts, p + 1) IN
  IF Tk(ts, p).k # "colon" THEN NoSel
  ELSE IF t.k = "ident" /\ LowerS(t.v) \notin LegacyPe THEN <<p + 2, <<S1("pc", t.v)>>>>
  ELSE IF t.k = "fn" THEN <<p + 2, <<Simple("pcfn", <<>>, t.v, 0, <<>>, 0, t.c)>>>>
  ELSE NoSel
PseudoElement(ts, p) ==
  LET t == Tk(ts, p + 1)  u == Tk(ts, p + 2) IN
  IF Tk(ts, p).k # "colon" THEN NoSel
  ELSE IF t.k = "ident" /\ LowerS(t.v) \in LegacyPe THEN <<p + 2, <<S1("pe", t.v)>>>>
  ELSE IF t.k = "colon" /\ u.k = "ident" THEN <<p + 3, <<S1("pe", u.v)>>>>
  ELSE IF t.k = "colon" /\ u.k = "fn" THEN <<p + 3, <<Simple("pefn", <<>>, u.v, 0, <<>>, 0, u.c)>>>>
  ELSE NoSel
Subclass(ts, p, ns) ==
  LET t == Tk(ts, p) IN
  IF t.k = "hash" THEN (IF t.f = 1 THEN <<p + 1, <<S1("id", t.v)>>>> ELSE NoSel)
  ELSE IF IsDelim(t, 46) THEN (IF Tk(ts, p + 1).k = "ident" THEN <<p + 2, <<S1("class", Tk(ts, p + 1).v)>>>> ELSE NoSel)
  ELSE IF t.k = "block" /\ t.v = <<91>> THEN LET a == AttrSel(t.c, ns) IN (IF a = <<>> THEN NoSel ELSE <<p + 1, a>>)
  ELSE PseudoClass(ts, p)

(* <type-selector>? <subclass-selector>* [ <pseudo-element-selector> <pseudo-class-selector>* ]*, not empty *)
RECURSIVE Pseudos(_, _, _)
Pseudos(ts, p, a) ==
  LET e == PseudoElement(ts, p)  c == PseudoClass(ts, p) IN
  IF e # NoSel THEN Pseudos(ts, e[1], a \o e[2])
  ELSE IF c # NoSel /\ a # <<>> THEN Pseudos(ts, c[1], a \o c[2]) ELSE <<p, a>>
RECURSIVE Subclasses(_, _, _, _)
Subclasses(ts, p, ns, a) == LET x == Subclass(ts, p, ns) IN IF x # NoSel THEN Subclasses(ts, x[1], ns, a \o x[2]) ELSE Pseudos(ts, p, a)
Compound(ts, p, ns) ==
  LET t == TypeSel(ts, p, ns)
      x == IF t # NoSel THEN Subclasses(ts, t[1], ns, t[2]) ELSE Subclasses(ts, p, ns, <<>>)
  IN IF x[2] = <<>> THEN NoSel ELSE <<x[1], <<x[2]>>>>

CombinatorAt(ts, p) ==
  LET t == Tk(ts, p) IN
  IF t.k = "delim" /\ t.v[1] \in {62, 43, 126} THEN <<p + 1, t.v[1]>>
  ELSE IF IsDelim(t, BAR) /\ IsDelim(Tk(ts, p + 1), BAR) THEN <<p + 2, BAR>> ELSE <<p, 0>>
(* the longest complex selector at p: <<next position, compound selectors, combinators>> *)
RECURSIVE ComplexFrom(_, _, _, _, _)
ComplexFrom(ts, p, ns, s, o) ==
  LET w == SkipWsTok(ts, p)
      c == CombinatorAt(ts, w)
      x == IF c[2] # 0 THEN Compound(ts, SkipWsTok(ts, c[1]), ns) ELSE IF w > p THEN Compound(ts, w, ns) ELSE NoSel
  IN IF x = NoSel THEN <<p, s, o>> ELSE ComplexFrom(ts, x[1], ns, s \o x[2], Append(o, IF c[2] # 0 THEN c[2] ELSE 32))
Complex(l, s, o) == [l |-> l, s |-> s, o |-> o]
ComplexAt(ts, p, ns, l) ==
  LET x == Compound(ts, p, ns)
      y == ComplexFrom(ts, x[1], ns, x[2], <<>>)
  IN IF x = NoSel THEN NoSel ELSE <<y[1], <<Complex(l, y[2], y[3])>>>>
RelativeAt(ts, p, ns) == LET c == CombinatorAt(ts, p) IN ComplexAt(ts, SkipWsTok(ts, c[1]), ns, c[2])

(* the whole of ts: a non-empty comma-separated list, or the empty sequence when ts is not a selector list *)
RECURSIVE ListFrom(_, _, _, _, _)
ListFrom(ts, p, ns, rel, a) ==
  LET q == SkipWsTok(ts, p)
      x == IF rel THEN RelativeAt(ts, q, ns) ELSE ComplexAt(ts, q, ns, 0)
      r == SkipWsTok(ts, x[1])
  IN IF x = NoSel THEN <<>>
     ELSE IF Tk(ts, r).k = "eof" THEN a \o x[2]
     ELSE IF Tk(ts, r).k = "comma" THEN ListFrom(ts, r + 1, ns, rel, a \o x[2]) ELSE <<>>
SelectorList(ts, ns) == ListFrom(ts, 1, ns, FALSE, <<>>)
RelativeList(ts, ns) == ListFrom(ts, 1, ns, TRUE, <<>>)

(* <any-value> keeps these out of the arguments of a functional pseudo; the library leaves the arguments to whoever supports the pseudo, so
   whether such a selector is accepted is left open *)
BadTok(t) == t.k \in {"badstring", "badurl", ")", "]", "}"}
RECURSIVE AnyBad(_)
AnyBad(v) == \E i \in 1..Len(v) : BadTok(v[i]) \/ (v[i].k \in {"block", "fn"} /\ AnyBad(v[i].c))
Open(ts) == \E i \in 1..Len(ts) : ts[i].k = "fn" /\ AnyBad(ts[i].c)
==============================================================================
