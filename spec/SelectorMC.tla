----------------------------- MODULE SelectorMC ------------------------------
(* Mode "grammar": every sequence of up to MaxTok component values (one per kind that matters to the grammar).  The grammar is written a second
   time, production by production, as the set of everything that can be derived; the one-pass reading has to be the only member of that set.
   Mode "match": every tree of up to MaxNode nodes with a few kinds of label, grown one node at a time in tree order, against every complex selector of
   up to three compounds. *)
EXTENDS SelectorMatch, FiniteSets, TLC
CONSTANTS MaxTok, MaxNode, Mode
VARIABLES ts, doc
vars == <<ts, doc>>

A == <<97>>
NSP == <<110>>                  \* the declared prefix
I(v) == T1("ident", v)
Att(c) == Block(91, c)
Kinds == {I(A), I(NSP), I(<<66, 69, 70, 79, 82, 69>>), Delim(STAR), Delim(BAR), Delim(46), Delim(62), T0("colon"), T0("comma"), WsTok,
          Tok("hash", A, <<>>, 1, <<>>), Tok("hash", <<49>>, <<>>, 2, <<>>), Att(<<I(A)>>), Att(<<Delim(61)>>), Fn(A, <<>>)}
(* contents of an attribute block, one level down *)
AttKinds == {I(A), I(NSP), I(<<73>>), Delim(STAR), Delim(BAR), Delim(61), Delim(94), T1("string", A), WsTok}
Ns == {NSP}

Init == ts = <<>> /\ doc = <<>>
NextTok == Mode = "grammar" /\ Len(ts) < MaxTok /\ \E k \in Kinds : ts' = Append(ts, k) /\ UNCHANGED doc
NextAtt == Mode = "attr" /\ Len(ts) < MaxTok /\ \E k \in AttKinds : ts' = Append(ts, k) /\ UNCHANGED doc

------------------------------------------------------------------------------
(* the grammar again: sets of <<position after, what was derived>> *)
At(p) == Tk(ts, p)
GWs(p) == {q \in p..(Len(ts) + 1) : \A i \in p..(q - 1) : ts[i].k = "ws"}
GNs(p) == (IF IsDelim(At(p), BAR) THEN {<<p + 1, <<>>>>} ELSE {})
     \cup (IF At(p).k = "ident" /\ At(p).v \in Ns /\ IsDelim(At(p + 1), BAR) THEN {<<p + 2, At(p).v>>} ELSE {})
     \cup (IF IsDelim(At(p), STAR) /\ IsDelim(At(p + 1), BAR) THEN {<<p + 2, <<STAR>>>>} ELSE {})
GOptNs(p) == {<<p, <<>>>>} \cup {<<x[1], <<x[2]>>>> : x \in GNs(p)}
GWq(p) == {<<x[1] + 1, x[2], At(x[1]).v>> : x \in {y \in GOptNs(p) : At(y[1]).k = "ident"}}
GType(p) == {<<x[1], <<Simple("type", x[2], x[3], 0, <<>>, 0, <<>>)>>>> : x \in GWq(p)}
       \cup {<<x[1] + 1, <<Simple("any", x[2], <<>>, 0, <<>>, 0, <<>>)>>>> : x \in {y \in GOptNs(p) : IsDelim(At(y[1]), STAR)}}
GPc(p) == IF At(p).k # "colon" THEN {}
          ELSE IF At(p + 1).k = "fn" THEN {<<p + 2, <<Simple("pcfn", <<>>, At(p + 1).v, 0, <<>>, 0, At(p + 1).c)>>>>}
          ELSE IF At(p + 1).k = "ident" /\ LowerS(At(p + 1).v) \notin LegacyPe THEN {<<p + 2, <<S1("pc", At(p + 1).v)>>>>} ELSE {}
GPe(p) == IF At(p).k # "colon" THEN {}
          ELSE (IF At(p + 1).k = "ident" /\ LowerS(At(p + 1).v) \in LegacyPe THEN {<<p + 2, <<S1("pe", At(p + 1).v)>>>>} ELSE {})
          \cup (IF At(p + 1).k = "colon" /\ At(p + 2).k = "ident" THEN {<<p + 3, <<S1("pe", At(p + 2).v)>>>>} ELSE {})
          \cup (IF At(p + 1).k = "colon" /\ At(p + 2).k = "fn" THEN {<<p + 3, <<Simple("pefn", <<>>, At(p + 2).v, 0, <<>>, 0, At(p + 2).c)>>>>} ELSE {})
GSub(p) == GPc(p) \cup (IF At(p).k = "hash" /\ At(p).f = 1 THEN {<<p + 1, <<S1("id", At(p).v)>>>>} ELSE {})
      \cup (IF IsDelim(At(p), 46) /\ At(p + 1).k = "ident" THEN {<<p + 2, <<S1("class", At(p + 1).v)>>>>} ELSE {})
      \cup (IF At(p).k = "block" /\ AttrSel(At(p).c, Ns) # <<>> THEN {<<p + 1, AttrSel(At(p).c, Ns)>>} ELSE {})
Then(S, G(_)) == UNION {{<<y[1], x[2] \o y[2]>> : y \in G(x[1])} : x \in S}
RECURSIVE StarSub(_)
StarSub(S) == LET T == S \cup Then(S, GSub) IN IF T = S THEN S ELSE StarSub(T)
RECURSIVE StarPc(_)
StarPc(S) == LET T == S \cup Then(S, GPc) IN IF T = S THEN S ELSE StarPc(T)
RECURSIVE StarPe(_)
StarPe(S) == LET T == S \cup StarPc(Then(S, GPe)) IN IF T = S THEN S ELSE StarPe(T)
GCompound(p) == {x \in StarPe(StarSub({<<p, <<>>>>} \cup GType(p))) : x[2] # <<>>}
GComb(p) == {y \in {CombinatorAt(ts, q) : q \in GWs(p)} : y[2] # 0} \cup {<<q, 32>> : q \in GWs(p) \ {p}}
(* <<position, compounds, combinators>> *)
RECURSIVE StarComplex(_)
StarComplex(S) ==
  LET T == S \cup UNION {UNION {UNION {{<<k[1], x[2] \o <<k[2]>>, Append(x[3], c[2])>> : k \in GCompound(q)} : q \in (IF c[2] = 32 THEN {c[1]} ELSE GWs(c[1]))} : c \in GComb(x[1])} : x \in S}
  IN IF T = S THEN S ELSE StarComplex(T)
GComplex(p, l) == {<<x[1], <<Complex(l, x[2], x[3])>>>> : x \in StarComplex({<<k[1], <<k[2]>>, <<>>>> : k \in GCompound(p)})}
GRelative(p) == GComplex(p, 0) \cup UNION {UNION {GComplex(q, c[2]) : q \in GWs(c[1])} : c \in {y \in {CombinatorAt(ts, p)} : y[2] # 0}}
GOne(p, rel) == IF rel THEN GRelative(p) ELSE GComplex(p, 0)
GPad(p, rel) == UNION {UNION {{<<r, x[2]>> : r \in GWs(x[1])} : x \in GOne(q, rel)} : q \in GWs(p)}
RECURSIVE GListFrom(_, _)
GListFrom(S, rel) ==
  LET T == S \cup UNION {{<<y[1], x[2] \o y[2]>> : y \in GPad(x[1] + 1, rel)} : x \in {z \in S : At(z[1]).k = "comma"}} IN IF T = S THEN S ELSE GListFrom(T, rel)
GList(rel) == {x[2] : x \in {y \in GListFrom(GPad(1, rel), rel) : y[1] = Len(ts) + 1}}
Only(r) == IF r = <<>> THEN {} ELSE {r}
Grammar == Mode = "grammar" => GList(FALSE) = Only(SelectorList(ts, Ns)) /\ GList(TRUE) = Only(RelativeList(ts, Ns))

GMatcher(p) == (IF IsDelim(At(p), 61) THEN {<<p + 1, 61>>} ELSE {}) \cup {<<p + 2, m>> : m \in {y \in Matchers : IsDelim(At(p), y) /\ IsDelim(At(p + 1), 61)}}
GMod(p) == {<<p, 0>>} \cup (IF At(p).k = "ident" /\ LowerS(At(p).v) = <<105>> THEN {<<p + 1, 105>>} ELSE {})
Done(p) == Len(ts) + 1 \in GWs(p)
GNames == UNION {GWq(p) : p \in GWs(1)}
GNameM == UNION {{<<w, m>> : m \in UNION {GMatcher(q) : q \in GWs(w[1])}} : w \in GNames}
GNameMV == UNION {{<<x[1], x[2], v>> : v \in {y \in GWs(x[2][1]) : At(y).k \in {"ident", "string"}}} : x \in GNameM}
GNameMVI == UNION {{<<x[1], x[2], x[3], i>> : i \in {y \in UNION {GMod(q) : q \in GWs(x[3] + 1)} : Done(y[1])}} : x \in GNameMV}
GAttr == {Simple("attr", w[2], w[3], 0, <<>>, 0, <<>>) : w \in {y \in GNames : Done(y[1])}}
    \cup {Simple("attr", x[1][2], x[1][3], x[2][2], At(x[3]).v, x[4][2], <<>>) : x \in GNameMVI}
Attr == Mode = "attr" => {<<a>> : a \in GAttr} = Only(AttrSel(ts, Ns))

------------------------------------------------------------------------------
(* trees in tree order: the new node's parent is the last node or one of its ancestors, and holds children *)
NodeOf(u, k, n, c) == [u |-> u, k |-> k, ns |-> <<>>, n |-> n, a |-> IF c = <<>> THEN <<>> ELSE <<[ns |-> <<>>, n |-> CLASSN, v |-> c]>>]
B == <<98>>
Labels == {<<1, A, <<>>>>, <<1, B, <<>>>>, <<1, A, B>>, <<3, <<>>, <<>>>>}
NextNode ==
  /\ Mode = "match" /\ Len(doc) < MaxNode
  /\ IF doc = <<>> THEN doc' = <<NodeOf(0, 9, <<>>, <<>>)>>
     ELSE \E u \in {Len(doc)} \cup Ancestors(doc, Len(doc)) : \E lab \in Labels : doc[u].k \in {1, 9} /\ doc' = Append(doc, NodeOf(u, lab[1], lab[2], lab[3]))
  /\ UNCHANGED ts
Next == NextTok \/ NextAtt \/ NextNode
Spec == Init /\ [][Next]_vars

X == [html |-> TRUE, quirks |-> FALSE, ns |-> <<>>, dash |-> TRUE]
Comps == {<<S1("type", A)>>, <<S1("type", B)>>, <<S1("any", <<>>)>>, <<S1("class", B)>>}
Ops == {32, 62, 43, 126}
Sels1 == {Complex(0, <<c>>, <<>>) : c \in Comps}
Sels2 == {Complex(0, <<c[1], c[2]>>, <<o>>) : c \in Comps \X Comps, o \in Ops}
Comps3 == {<<S1("type", A)>>, <<S1("any", <<>>)>>, <<S1("class", B)>>}
Sels3 == {Complex(0, <<c[1], c[2], c[3]>>, o) : c \in Comps3 \X Comps3 \X Comps3, o \in Ops \X Ops}
N == 1..Len(doc)
(* read from the left: the elements the first k compounds can end at *)
RECURSIVE Forward(_, _)
Forward(z, i) == LET M == {e \in N : MatchCompound(doc, X, z.s[i], e)} IN
                 IF i = 1 THEN M ELSE {e \in M : Step(doc, z.o[i - 1], e) \cap Forward(z, i - 1) # {}}
(* a witness for every compound *)
Assigned(z, e) == \E g \in [1..Len(z.s) -> N] : g[Len(z.s)] = e /\ (\A i \in 1..Len(z.s) : MatchCompound(doc, X, z.s[i], g[i])) /\ \A i \in 1..(Len(z.s) - 1) : g[i] \in Step(doc, z.o[i], g[i + 1])
Matching == Mode = "match" => \A z \in Sels1 \cup Sels2 \cup Sels3 : LET F == Forward(z, Len(z.s)) IN \A e \in N : (e \in F) = MatchComplex(doc, X, z, e)
Witness == Mode = "match" /\ Len(doc) <= MaxNode - 1 => \A z \in Sels2 : \A e \in N : MatchComplex(doc, X, z, e) = Assigned(z, e)
(* the definitions of the combinators from the parent and child relation alone *)
Kids(u) == SelectSeq([i \in N |-> i], LAMBDA i : doc[i].u = u /\ doc[i].k = 1)
Relations == Mode = "match" => \A e \in N : Elem(doc, e) =>
  /\ Step(doc, 62, e) \subseteq Step(doc, 32, e) /\ Step(doc, 43, e) \subseteq Step(doc, 126, e)
  /\ LET k == Kids(doc[e].u)  i == CHOOSE i \in 1..Len(k) : k[i] = e IN
       Step(doc, 43, e) = (IF i = 1 THEN {} ELSE {k[i - 1]}) /\ Step(doc, 126, e) = {k[j] : j \in 1..(i - 1)}
  /\ \A f \in Step(doc, 32, e) : f \in Step(doc, 62, e) \/ f \in UNION {Step(doc, 32, g) : g \in Step(doc, 62, e)}
Queries == Mode = "match" => \A np \in N : LET q == QueryAll(doc, X, <<Complex(0, <<<<S1("any", <<>>)>>>>, <<>>), Complex(0, <<<<S1("type", A)>>>>, <<>>)>>, np) IN
  /\ \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
  /\ {q[i] : i \in 1..Len(q)} = {e \in N : Elem(doc, e) /\ np \in Ancestors(doc, e)}
==============================================================================
