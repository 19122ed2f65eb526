------------------------------- MODULE UrlMC -------------------------------
(* Exhaustive model: every input made of up to N tokens, with and without a base, runs through the parser step by step;
   a parsed URL then undergoes every history of up to K assignments from a table of values. *)
EXTENDS Url
CONSTANTS N, K
VARIABLES in, base, m, k, tofile
vars == <<in, base, m, k, tofile>>

\* http: file: a: / \ ? # @ : .. . x C| [::1] space %2e 0x7f
Tokens == {<<104, 116, 116, 112, 58>>, <<102, 105, 108, 101, 58>>, <<97, 58>>, <<47>>, <<92>>, <<63>>, <<35>>, <<64>>, <<58>>, <<46, 46>>, <<46>>,
           <<120>>, <<67, 124>>, <<91, 58, 58, 49, 93>>, <<32>>, <<37, 50, 101>>, <<48, 120, 55, 102>>}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET T == Texts(n - 1) IN T \cup {a \o b : a \in T, b \in Tokens}
\* http://u:p@h:8/a/b?q  file:///C:/x  file://h/y  a:opaque  a:/p/q  a://h
Bases == {<<104,116,116,112,58,47,47,117,58,112,64,104,58,56,47,97,47,98,63,113>>, <<102,105,108,101,58,47,47,47,67,58,47,120>>, <<102,105,108,101,58,47,47,104,47,121>>,
          <<97,58,111,112,97,113>>, <<97,58,47,112,47,113>>, <<97,58,47,47,104>>}
Values == {<<>>, <<97>>, <<104, 116, 116, 112, 115>>, <<102, 105, 108, 101>>, <<48, 56>>, <<56, 48, 56, 48>>, <<120, 58, 57>>, <<47, 46, 46, 47, 47, 121>>, <<47, 47>>, <<63, 32>>, <<35, 39>>, <<64, 47, 58>>, <<46>>, <<67, 124>>}

Init == /\ in \in {Input(t) : t \in Texts(N)} /\ base \in {<<>>} \cup {ParseUrl(b, <<>>, UTF8) : b \in Bases}
        /\ m = Start("scheme start", UTF8, NoUrl) /\ k = 0 /\ tofile = FALSE
Parse == m.res = "run" /\ m' = Step(m, in, base, "") /\ UNCHANGED <<in, base, k, tofile>>
Assign == /\ m.res = "done" /\ k < K
          /\ \E c \in 0..8, v \in Values : LET u == Set(c, m.u, v) IN
               m' = [Start("scheme start", UTF8, u) EXCEPT !.res = "done"] /\ tofile' = (tofile \/ (u.s = FILE /\ m.u.s # FILE))
          /\ k' = k + 1 /\ in' = <<>> /\ base' = <<>>
Next == Parse \/ Assign
Spec == Init /\ [][Next]_vars /\ WF_vars(Parse)

Pointer == m.res = "run" => In(m.p, 0, Len(in) + 1)
Good == m.res = "done" => WellFormed(m.u)
\* a scheme changed to file can leave "localhost" or a path such as C|/ behind, which the Standard itself does not reparse to the same URL
Reversible == (m.res = "done" /\ ~tofile) => RoundTrip(m.u)
Reparses == m.res = "done" => ParseUrl(SerUrl(m.u, FALSE), <<>>, UTF8) # <<>>
Stops == <>(m.res # "run")

(* hosts: every dotted combination of number forms; every zero pattern of IPv6 pieces serialises and parses back *)
Pieces == {0, 1, 43981}
ASSUME \A f \in [1..8 -> {0, 1}] : ParseHost(SerHost(V6(f)), TRUE) = V6(f)
ASSUME \A f \in [1..4 -> {0, 9, 255}] : ParseHost(SerHost(V4(f)), FALSE) = V4(f)
Nums == {<<48>>, <<48, 120>>, <<48, 49, 48>>, <<48, 120, 70, 70>>, <<50, 53, 54>>, <<48, 56>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>, <<49>>}
ASSUME \A a, b, c \in Nums : LET h == ParseHost(Join(<<a, b, c>>, 46), FALSE) IN h.t # -1 => ParseHost(SerHost(h), FALSE) = h
ASSUME ParseV4(<<48,120,55,102,46,49>>) = V4(<<127, 0, 0, 1>>)
ASSUME DomainToAscii(<<12354, 12356, 12358, 12360, 12362, 46, 110, 101, 116>>).s = <<120,110,45,45,108,56,106,101,103,105,107,46,110,101,116>>
ASSUME Punycode(<<102, 97, 223>>) = <<102, 97, 45, 104, 105, 97>>
ASSUME \A s \in Sets : \A t \in [1..2 -> {37, 65, 32, 233, 126, 39}] : s \in {KComponent, KForm} => Unpct(Utf8Pct(s, t)) = Utf8Bytes(t, 1, <<>>)
\* the encode sets are nested as the Standard builds them
ASSUME \A c \in 0..255 : (C0Set(c) => FragmentSet(c) /\ QuerySet(c)) /\ (QuerySet(c) => SpecialQuerySet(c) /\ PathSet(c)) /\ (FragmentSet(c) => PathSet(c))
                      /\ (PathSet(c) => UserinfoSet(c)) /\ (UserinfoSet(c) => ComponentSet(c)) /\ (ComponentSet(c) => FormSet(c))
=============================================================================
