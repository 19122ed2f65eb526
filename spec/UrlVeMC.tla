------------------------------ MODULE UrlVeMC ------------------------------
(* Exhaustive model: every text of up to N tokens, with and without a base, read step by step with its errors. *)
EXTENDS UrlVe
CONSTANT N
VARIABLES text, base, m, ve
vars == <<text, base, m, ve>>

\* http: file: a: / \ ? # @ : .. x C| C: [::1] space %2e %2 % 0x7f 1. 1.2.3.4 é " tab
Tokens == {<<104, 116, 116, 112, 58>>, <<102, 105, 108, 101, 58>>, <<97, 58>>, <<47>>, <<47, 47>>, <<92>>, <<63>>, <<35>>, <<64>>, <<58>>, <<46, 46>>,
           <<120>>, <<67, 124>>, <<67, 58>>, <<91, 58, 58, 49, 93>>, <<32>>, <<37, 50, 101>>, <<37, 50>>, <<37>>, <<48, 120, 55, 102>>, <<49, 46>>, <<49, 46, 50, 46, 51, 46, 52>>, <<233>>, <<34>>, <<9>>}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET T == Texts(n - 1) IN T \cup {a \o b : a \in T, b \in Tokens}
\* http://u:p@h:8/a/b?q  file:///C:/x  a:opaque  a:/p/q
Bases == {<<104,116,116,112,58,47,47,117,58,112,64,104,58,56,47,97,47,98,63,113>>, <<102,105,108,101,58,47,47,47,67,58,47,120>>, <<97,58,111,112,97,113>>, <<97,58,47,112,47,113>>}

Init == /\ text \in Texts(N) /\ base \in {<<>>} \cup {ParseUrl(b, <<>>, UTF8) : b \in Bases}
        /\ m = Start("scheme start", UTF8, NoUrl) /\ ve = (Input(text) # text)
Next == m.res = "run" /\ m' = Step(m, Input(text), base, "") /\ ve' = (ve \/ Errs(m, Input(text), base)) /\ UNCHANGED <<text, base>>
Spec == Init /\ [][Next]_vars

Valid == m.res = "done" /\ ~ve
Agrees == m.res # "run" => Judge(text, base, UTF8) = [ok |-> m.res = "done", ve |-> ve]
\* a valid text is made of URL code points, percent-encoded bytes, # and the brackets of an address (domains, which the Standard of 2021 does not judge, apart)
Plain == (Valid /\ (m.u.h.t = 1 => ~AnyStray(m.u.h.v))) => \A p \in 1..Len(text) : text[p] \in {35, 91, 93} \/ ~Stray(text, p)
\* a valid text has one # at most, and no credentials
OneHash == Valid => Cardinality({p \in 1..Len(text) : text[p] = 35}) <= 1
NoCred == (Valid /\ base = <<>>) => ~Credentials(m.u)
\* what a valid absolute text means is written validly again
Canon == (Valid /\ base = <<>>) => Judge(SerUrl(m.u, FALSE), <<>>, UTF8) = [ok |-> TRUE, ve |-> FALSE]
\* with an empty base, the text of a valid URL is kept but for case, dots, ports and addresses: nothing is percent-encoded that was not outside ASCII
Kept == (Valid /\ base = <<>> /\ IsAscii(text)) => Cardinality({p \in 1..Len(text) : text[p] = 37}) >= Cardinality({p \in 1..Len(SerUrl(m.u, FALSE)) : SerUrl(m.u, FALSE)[p] = 37})
ASSUME \A c \in {32, 34, 60, 62, 92, 94, 96, 123, 124, 125, 37, 35, 91, 93, 127, 128, 159, 64976, 65534, 131071, 1114111, 55296} : ~UrlCp(c)
ASSUME Cardinality({c \in 0..127 : UrlCp(c)}) = 62 + 19
ASSUME HostErrs(<<49, 46>>, FALSE) /\ ~HostErrs(<<49>>, FALSE) /\ HostErrs(<<50, 53, 54>>, FALSE) /\ HostErrs(<<48, 49>>, FALSE) /\ ~HostErrs(<<48, 49, 46, 97>>, FALSE)
=============================================================================
