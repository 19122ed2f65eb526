----------------------------- MODULE HtmlTokMC -----------------------------
(* All inputs of up to MaxLen pieces of a family, run step by step: what every run of the tokeniser must satisfy.            *)
EXTENDS HtmlTokenizer
CONSTANTS Family, MaxLen
VARIABLES input, start, cd, t, idle

S(str) == str
P1 == {<<97>>, <<66>>, <<32>>, <<47>>, <<61>>, <<34>>, <<39>>, <<62>>, <<60>>, <<0>>}                                   \* tags
P2 == {<<45>>, <<33>>, <<62>>, <<60>>, <<97>>, <<0>>}                                                                     \* comments
P3 == {PublicW, SystemW, <<32>>, <<34>>, <<39>>, <<62>>, <<97>>, <<0>>, <<80>>}                                           \* DOCTYPE
P4 == {<<60, 33, 45, 45>>, <<45>>, <<62>>, <<60>>, <<47>>, ScriptW, <<83, 99, 82, 105, 112, 116>>, <<32>>, <<97>>, <<0>>}  \* script
P5 == {<<38>>, <<97, 109, 112>>, <<108, 116>>, <<110, 111, 116>>, <<105, 110>>, <<59>>, <<61>>, <<35>>, <<120>>, <<49>>, <<71>>, <<60>>, <<34>>, <<62>>}   \* references
P6 == {<<60>>, <<47>>, <<116>>, <<84>>, <<62>>, <<32>>, <<38>>, <<97>>, <<0>>, <<33>>}                                    \* RCDATA, RAWTEXT, PLAINTEXT
P7 == {<<93>>, <<62>>, <<97>>, <<60>>, <<33>>, CdataW, <<0>>}                                                              \* CDATA
Pieces == CASE Family = "tag" -> P1 [] Family = "comment" -> P2 [] Family = "doctype" -> P3 [] Family = "script" -> P4 [] Family = "ref" -> P5 [] Family = "text" -> P6 [] Family = "cdata" -> P7
Prefixes == CASE Family = "tag" -> {<<60, 97>>, <<60, 47>>} [] Family = "comment" -> {<<60, 33, 45, 45>>, <<60, 33>>, <<60, 63>>} [] Family = "doctype" -> {<<60, 33>> \o DoctypeW \o <<97, 32>>, <<60, 33>> \o DoctypeW}
              [] Family = "script" -> {<<>>} [] Family = "ref" -> {<<>>, <<60, 97, 32, 98, 61, 34>>, <<60, 97, 32, 98, 61>>} [] Family = "text" -> {<<>>} [] Family = "cdata" -> {<<60, 33>> \o CdataW, <<60, 33>>}
Starts == CASE Family = "script" -> {"script"} [] Family = "text" -> {"rcdata", "rawtext", "plaintext"} [] Family = "ref" -> {"data", "rcdata"} [] OTHER -> {"data"}
Last == IF Family = "script" THEN ScriptW ELSE IF Family = "text" THEN <<116>> ELSE <<>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Init == /\ start \in Starts
        /\ cd \in (IF Family = "cdata" THEN {TRUE, FALSE} ELSE {FALSE})
        /\ \E p \in Prefixes, n \in 0..MaxLen : \E f \in [1..n -> Pieces] : input = p \o Flat(f)
        /\ t = Tok0(start, Last)
        /\ idle = 0
Next == /\ ~t.done
        /\ LET u == Step(t, input, cd) IN t' = u /\ idle' = (IF u.pos > t.pos THEN 0 ELSE idle + 1)
        /\ UNCHANGED <<input, start, cd>>
Spec == Init /\ [][Next]_<<input, start, cd, t, idle>>

TypeOK == t.st \in AllStates /\ t.ret \in AllStates /\ t.pos <= Len(input) + 1
Progress == idle <= 4                                         \* at most so many steps without reading: every run ends
EofLast == \A i \in 1..Len(t.out) : t.out[i].t = "f" <=> (t.done /\ i = Len(t.out))
TagWF == \A i \in 1..Len(t.out) : t.out[i].t \in {"s", "e"} =>
           LET x == t.out[i] IN
           /\ x.n # <<>> /\ IsLower(x.n[1])
           /\ \A k \in 1..Len(x.n) : ~IsUpper(x.n[k]) /\ ~IsWs(x.n[k]) /\ x.n[k] \notin {0, 47, 62}
           /\ \A k, m \in 1..Len(x.a) : k # m => x.a[k].n # x.a[m].n
           /\ \A k \in 1..Len(x.a) : x.a[k].n # <<>> /\ \A j \in 1..Len(x.a[k].n) : ~IsUpper(x.a[k].n[j]) /\ ~IsWs(x.a[k].n[j]) /\ x.a[k].n[j] \notin {0, 47, 62}
Confined == start # "data" => \A i \in 1..Len(t.out) : (t.out[i].t # "c" /\ t.out[i].t # "f" /\ \A j \in 1..(i - 1) : t.out[j].t = "c") => (t.out[i].t = "e" /\ t.out[i].n = Last)
Chars == LET j == Join(t.out, 1, <<>>) IN IF j # <<>> /\ j[1].t = "c" THEN j[1].d ELSE <<>>
NoNul(s) == [i \in 1..Len(s) |-> IF s[i] = 0 THEN FFFD ELSE s[i]]
Verbatim == (t.done /\ start \in {"rawtext", "script", "plaintext"} /\ \A i \in 1..Len(t.out) : t.out[i].t \in {"c", "f"}) =>
              LET k == Len(Chars) IN
              /\ k <= Len(input) /\ Chars = NoNul(SubSeq(input, 1, k))
              /\ k = Len(input) \/ Looks(input, k + 1, <<60, 47>> \o Last, TRUE)       \* an unfinished end tag is dropped
CommentWF == \A i \in 1..Len(t.out) : (t.out[i].t = "m" /\ Looks(input, 1, <<60, 33, 45, 45>>, FALSE)) =>
              \A k \in 1..Len(t.out[i].d) : ~Looks(t.out[i].d, k, <<45, 45, 62>>, FALSE) /\ ~Looks(t.out[i].d, k, <<45, 45, 33, 62>>, FALSE)
DoctypeWF == \A i \in 1..Len(t.out) : t.out[i].t = "d" =>
              /\ (~t.out[i].q => t.out[i].hn)
              /\ (t.out[i].hn <=> t.out[i].n # <<>>)
              /\ \A k \in 1..Len(t.out[i].n) : ~IsUpper(t.out[i].n[k]) /\ t.out[i].n[k] \notin {0, 62} /\ ~IsWs(t.out[i].n[k])
              /\ \A k \in 1..Len(t.out[i].p) : t.out[i].p[k] # 62
NoNulOut == \A i \in 1..Len(t.out) : (t.out[i].t = "c" /\ t.out[i].d = <<0>>) => Family \in {"tag", "comment", "doctype", "cdata"}   \* only data and CDATA let U+0000 through
CdataOnly == (Family = "cdata" /\ cd /\ Looks(input, 1, <<60, 33>> \o CdataW, FALSE) /\ t.done /\ \A i \in 1..Len(t.out) : t.out[i].t \in {"c", "f"}) =>
              LET rest == SubSeq(input, 10, Len(input))
                  ends == {k \in 1..Len(rest) : Looks(rest, k, <<93, 93, 62>>, FALSE)}
              IN ends = {} => Chars = rest
Grow == [][Len(t'.out) >= Len(t.out) /\ SubSeq(t'.out, 1, Len(t.out)) = t.out]_t
=============================================================================
