------------------------------- MODULE Infra -------------------------------
(* String operations of the Infra Standard (code points, ASCII classes, newlines, white space, splitting) over sequences of *)
(* code points, and the sizes of code points in the three encoding forms.                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils, Json

\* --- classes of code points, as ranges in order ---
Nonchar == <<<<64976, 65007>>>> \o [i \in 1..17 |-> <<(i - 1) * 65536 + 65534, (i - 1) * 65536 + 65535>>]
Classes == [surrogate |-> <<<<55296, 57343>>>>, scalar |-> <<<<0, 55295>>, <<57344, 1114111>>>>, noncharacter |-> Nonchar,
            ascii |-> <<<<0, 127>>>>, tabnl |-> <<<<9, 10>>, <<13, 13>>>>, ws |-> <<<<9, 10>>, <<12, 13>>, <<32, 32>>>>, c0 |-> <<<<0, 31>>>>, c0sp |-> <<<<0, 32>>>>,
            control |-> <<<<0, 31>>, <<127, 159>>>>, digit |-> <<<<48, 57>>>>, uhex |-> <<<<48, 57>>, <<65, 70>>>>, lhex |-> <<<<48, 57>>, <<97, 102>>>>,
            hex |-> <<<<48, 57>>, <<65, 70>>, <<97, 102>>>>, upper |-> <<<<65, 90>>>>, lower |-> <<<<97, 122>>>>, alpha |-> <<<<65, 90>>, <<97, 122>>>>,
            alnum |-> <<<<48, 57>>, <<65, 90>>, <<97, 122>>>>]
Member(c, k) == \E i \in 1..Len(Classes[k]) : Classes[k][i][1] <= c /\ c <= Classes[k][i][2]
Ws(c) == c \in {9, 10, 12, 13, 32}

\* --- letter case ---
Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
Up(c) == IF c \in 97..122 THEN c - 32 ELSE c
Lowercase(t) == [i \in 1..Len(t) |-> Low(t[i])]
Uppercase(t) == [i \in 1..Len(t) |-> Up(t[i])]
Match(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Low(s[i]) = Low(t[i])

\* --- newlines: CR LF and CR become LF ---
StripNewlines(t) == SelectSeq(t, LAMBDA c : c \notin {10, 13})
RECURSIVE NormalizeFrom(_, _)
NormalizeFrom(t, i) == IF i > Len(t) THEN <<>>
                       ELSE IF t[i] = 13 THEN <<10>> \o NormalizeFrom(t, IF i < Len(t) /\ t[i + 1] = 10 THEN i + 2 ELSE i + 1)
                       ELSE <<t[i]>> \o NormalizeFrom(t, i + 1)
Normalize(t) == NormalizeFrom(t, 1)

\* --- runs: from i, the first position whose code point is in / not in S ---
RECURSIVE UpTo(_, _, _), Past(_, _, _)
UpTo(t, i, S) == IF i > Len(t) \/ t[i] \in S THEN i ELSE UpTo(t, i + 1, S)
Past(t, i, S) == IF i > Len(t) \/ t[i] \notin S THEN i ELSE Past(t, i + 1, S)
W == {9, 10, 12, 13, 32}
Strip(t) == LET K == {i \in 1..Len(t) : t[i] \notin W} IN
            IF K = {} THEN <<>> ELSE SubSeq(t, CHOOSE i \in K : \A j \in K : i <= j, CHOOSE i \in K : \A j \in K : j <= i)
Collect(t, S) == SubSeq(t, 1, UpTo(t, 1, S) - 1)

\* --- splitting ---
RECURSIVE StrictFrom(_, _, _), WsFrom(_, _), CommaFrom(_, _), Join(_, _)
StrictFrom(t, i, d) == LET j == UpTo(t, i, {d}) IN <<SubSeq(t, i, j - 1)>> \o (IF j > Len(t) THEN <<>> ELSE StrictFrom(t, j + 1, d))
StrictSplit(t, d) == StrictFrom(t, 1, d)
WsFrom(t, i) == LET a == Past(t, i, W)  b == UpTo(t, a, W) IN IF a > Len(t) THEN <<>> ELSE <<SubSeq(t, a, b - 1)>> \o WsFrom(t, b)
SplitWs(t) == WsFrom(t, 1)
CommaFrom(t, i) == IF i > Len(t) THEN <<>> ELSE LET j == UpTo(t, i, {44}) IN <<Strip(SubSeq(t, i, j - 1))>> \o CommaFrom(t, j + 1)
SplitCommas(t) == CommaFrom(t, 1)
Join(p, d) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<d>> \o Join(Tail(p), d)
Collapse(t) == Join(SplitWs(t), 32)

\* --- sizes ---
Units8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Units16(c) == IF c < 65536 THEN 1 ELSE 2
\* the units of a code point in UTF-8 and UTF-16, and back
Units(c, k) ==
    IF k = 8 THEN IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
                  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
                  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE IF k = 16 THEN IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
    ELSE <<c>>
Back(u, k) ==
    IF k = 8 THEN CASE Len(u) = 1 -> u[1] [] Len(u) = 2 -> (u[1] - 192) * 64 + (u[2] - 128) [] Len(u) = 3 -> (u[1] - 224) * 4096 + (u[2] - 128) * 64 + (u[3] - 128)
                  [] OTHER -> (u[1] - 240) * 262144 + (u[2] - 128) * 4096 + (u[3] - 128) * 64 + (u[4] - 128)
    ELSE IF Len(u) = 1 THEN u[1] ELSE 65536 + (u[1] - 55296) * 1024 + (u[2] - 56320)
RECURSIVE Size(_, _)
Size(t, k) == IF t = <<>> THEN 0 ELSE (CASE k = 8 -> Units8(t[1]) [] k = 16 -> Units16(t[1]) [] OTHER -> 1) + Size(Tail(t), k)

\* --- the push matcher: words, and what was pushed so far; "partial" while a word may still come ---
MatchState(words, s) ==
    IF \E i \in 1..Len(words) : words[i] = s THEN "succeed"
    ELSE IF \E i \in 1..Len(words) : Len(words[i]) > Len(s) /\ SubSeq(words[i], 1, Len(s)) = s THEN "partial" ELSE "failed"
=============================================================================
