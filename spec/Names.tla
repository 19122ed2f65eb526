------------------------------- MODULE Names -------------------------------
(* Names and attributes of elements.  A name (of a namespace, a tag, an attribute) is a string; some strings are known and   *)
(* have an enumerator, and a name given by the one or the other is the same name.  An element is its names and a sequence    *)
(* of attributes; one step is one call on it.                                                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils, Json
Tbl == JsonDeserialize(IOEnv.SPECDATA \o "/names.json")          \* the known names, kind -> sequence of strings
IndexOf(q) == [x \in {q[i] : i \in 1..Len(q)} |-> CHOOSE i \in 1..Len(q) : q[i] = x]
Idx == [ns |-> IndexOf(Tbl.ns), tag |-> IndexOf(Tbl.tag), attr |-> IndexOf(Tbl.attr)]
Known(kind, str) == IF str \in DOMAIN Idx[kind] THEN Idx[kind][str] ELSE 0
HtmlNs == Tbl.ns[1]
\* a reference to a name: [e |-> enumerator (0: none), s |-> string]
Name(kind, ref) == IF ref.e > 0 THEN Tbl[kind][ref.e] ELSE ref.s

El(ns, pre, n) == [ns |-> ns, pre |-> pre, n |-> n, a |-> <<>>]
At(ns, pre, n, v) == [ns |-> ns, pre |-> pre, n |-> n, v |-> v]
Qualified(pre, n) == IF pre = <<>> THEN n ELSE pre \o <<58>> \o n
SameName(x, y) == x.ns = y.ns /\ x.pre = y.pre /\ x.n = y.n
Find(el, ns, pre, n) == LET K == {i \in 1..Len(el.a) : el.a[i].ns = ns /\ el.a[i].pre = pre /\ el.a[i].n = n} IN
                        IF K = {} THEN Len(el.a) + 1 ELSE CHOOSE i \in K : \A j \in K : i <= j
Distinct(el) == \A i, j \in 1..Len(el.a) : SameName(el.a[i], el.a[j]) => i = j
\* two elements of the same signature (for elements whose attributes have different names): names and attributes with values, in any order
Equal(x, y) == x.ns = y.ns /\ x.n = y.n /\ Len(x.a) = Len(y.a) /\ \A i \in 1..Len(x.a) : \E j \in 1..Len(y.a) : x.a[i] = y.a[j]

\* one call: the element after it.  c: [k, ns, pre, n (references or strings), v, i]
After(el, c) ==
    CASE c.k = "new" -> El(Name("ns", c.ns), c.pre, Name("tag", c.n))
      [] c.k = "newhtml" -> El(HtmlNs, <<>>, Name("tag", c.n))
      [] c.k = "setns" -> [el EXCEPT !.ns = Name("ns", c.ns)]
      [] c.k = "setpre" -> [el EXCEPT !.pre = c.pre]
      [] c.k = "setname" -> [el EXCEPT !.n = Name("tag", c.n)]
      [] c.k = "push" -> [el EXCEPT !.a = Append(@, At(Name("ns", c.ns), c.pre, Name("attr", c.n), c.v))]
      [] c.k = "ans" -> [el EXCEPT !.a[c.i].ns = Name("ns", c.ns)]
      [] c.k = "apre" -> [el EXCEPT !.a[c.i].pre = c.pre]
      [] c.k = "aname" -> [el EXCEPT !.a[c.i].n = Name("attr", c.n)]
      [] c.k = "aval" -> [el EXCEPT !.a[c.i].v = c.v]
      [] OTHER -> el
\* what the call answers (0: nothing)
Answer(el, saved, c) ==
    CASE c.k = "find" -> Find(el, Name("ns", c.ns), c.pre, Name("attr", c.n))
      [] c.k = "has" -> IF Find(el, Name("ns", c.ns), c.pre, Name("attr", c.n)) <= Len(el.a) THEN 1 ELSE 0
      [] c.k = "eq" -> IF Equal(el, saved) THEN 1 ELSE 0
      [] c.k = "eqa" -> IF SameName(el.a[c.i], At(Name("ns", c.ns), c.pre, Name("attr", c.n), <<>>)) THEN 1 ELSE 0
      [] c.k = "is" -> IF el.n = Name("tag", c.n) THEN 1 ELSE 0
      [] OTHER -> 0
\* the element as the getters show it
Shown(el) == [ns |-> el.ns, nse |-> Known("ns", el.ns), pre |-> el.pre, n |-> el.n, ne |-> Known("tag", el.n), q |-> Qualified(el.pre, el.n),
              a |-> [i \in 1..Len(el.a) |-> [ns |-> el.a[i].ns, nse |-> Known("ns", el.a[i].ns), pre |-> el.a[i].pre, n |-> el.a[i].n, ne |-> Known("attr", el.a[i].n),
                                             q |-> Qualified(el.a[i].pre, el.a[i].n), v |-> el.a[i].v]]]
\* the kinds of node (by the numbers of the DOM) and what each carries
Kind(k) == CASE k = 3 -> {"data"} [] k = 8 -> {"data"} [] k = 7 -> {"data", "target"} [] k = 9 -> {"mode"} [] k = 10 -> {"name", "ids"} [] OTHER -> {}
=============================================================================
