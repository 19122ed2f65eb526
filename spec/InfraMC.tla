------------------------------ MODULE InfraMC ------------------------------
(* Every text of up to MaxLen code points of an alphabet that has each kind, grown one code point at a time: the laws the     *)
(* operations obey.                                                                                                            *)
EXTENDS Infra
CONSTANTS MaxLen
VARIABLE t
Alphabet == {32, 9, 13, 10, 44, 97, 65, 12354, 128512}
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
Case == /\ Lowercase(Uppercase(t)) = Lowercase(t) /\ Uppercase(Lowercase(t)) = Uppercase(t) /\ Lowercase(Lowercase(t)) = Lowercase(t)
        /\ Match(t, Uppercase(t)) /\ Match(Lowercase(t), t) /\ (Match(t, StripNewlines(t)) <=> ~Has(t, 10) /\ ~Has(t, 13))
Newlines == LET n == Normalize(t) IN /\ ~Has(n, 13) /\ Normalize(n) = n /\ StripNewlines(n) = StripNewlines(t) /\ Len(n) <= Len(t)
                                     /\ (~Has(t, 13) => n = t)
Blank == LET s == Strip(t)  c == Collapse(t) IN
    /\ Strip(s) = s /\ Collapse(c) = c /\ Collapse(s) = c /\ Strip(c) = c /\ Len(c) <= Len(s)
    /\ (c = <<>> <=> \A i \in 1..Len(t) : Ws(t[i]))
    /\ \A i \in 1..Len(c) : Ws(c[i]) => c[i] = 32 /\ i > 1 /\ i < Len(c) /\ ~Ws(c[i + 1])
    /\ SelectSeq(c, LAMBDA x : ~Ws(x)) = SelectSeq(t, LAMBDA x : ~Ws(x))
Splits == /\ \A d \in {44, 12354, 128512} : LET p == StrictSplit(t, d) IN Join(p, d) = t /\ \A i \in 1..Len(p) : ~Has(p[i], d)
          /\ LET p == SplitWs(t) IN \A i \in 1..Len(p) : p[i] # <<>> /\ \A j \in 1..Len(p[i]) : ~Ws(p[i][j])
          /\ LET p == SplitCommas(t) IN /\ \A i \in 1..Len(p) : p[i] = Strip(p[i]) /\ ~Has(p[i], 44)
                                        /\ (Len(t) > 0 => Len(p) = Cardinality({i \in 1..Len(t) : t[i] = 44}) + (IF t[Len(t)] = 44 THEN 0 ELSE 1))
Sizes == Size(t, 8) >= Size(t, 16) /\ Size(t, 16) >= Size(t, 32) /\ Size(t, 32) = Len(t)
\* a sample of scalar values in each row of 64: units and back, units within their classes
Forms == Len(t) # 1 \/ \A n \in 0..17407 : LET c == n * 64 + ((n * 37 + t[1]) % 64) IN (c \in 55296..57343) \/
    \A k \in {8, 16} : LET u == Units(c, k) IN Back(u, k) = c /\ Len(u) = Size(<<c>>, k) /\ \A i \in 1..Len(u) : u[i] < (IF k = 8 THEN 248 ELSE 65536) /\ (i > 1 => u[i] \in (IF k = 8 THEN 128..191 ELSE 56320..57343))
\* the matcher: once decided it stays decided for every extension; partial means some word is still ahead
Words == {<<<<97>>, <<97, 97>>>>, <<<<97, 65>>, <<44>>>>, <<<<97, 65, 97>>, <<97, 65, 65>>>>, <<<<97, 97>>, <<97, 97>>>>}
Matcher == \A w \in Words : LET m == MatchState(w, t) IN
    /\ (m = "partial" => \E c \in Alphabet : MatchState(w, Append(t, c)) # "failed")
    /\ (m = "failed" => \A c \in Alphabet : MatchState(w, Append(t, c)) = "failed")
=============================================================================
