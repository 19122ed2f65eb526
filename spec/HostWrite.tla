----------------------------- MODULE HostWrite -----------------------------
(* Host writing (URL Standard, section 3.4): which texts are valid hosts of each kind, as a person may write them.  The
   definitions are the Standard's, apart from the parsers; that they agree with the parsers is checked (HostWriteMC). *)
EXTENDS UrlVe

RECURSIVE DecNum(_, _, _)
DecNum(s, i, v) == IF i > Len(s) THEN v ELSE DecNum(s, i + 1, v * 10 + s[i] - 48)
ShortDec(s) == Len(s) \in 1..3 /\ (\A i \in 1..Len(s) : IsDigit(s[i])) /\ (Len(s) > 1 => s[1] # 48) /\ DecNum(s, 1, 0) <= 255
ValidV4(s) == LET p == Split(s, 46) IN Len(p) = 4 /\ \A i \in 1..4 : ShortDec(p[i])

(* RFC 4291, section 2.2: eight groups of one to four hex digits, the last two also as dotted decimal; one :: for one or
   more groups of zeros *)
Group(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : IsHex(s[i])
(* the number of groups that a text without :: gives; -1: it is no such text *)
Groups(s, last) ==
  IF s = <<>> THEN 0
  ELSE LET p == Split(s, 58)  n == Len(p) IN
       IF \A i \in 1..n : Group(p[i]) THEN n
       ELSE IF last /\ (\A i \in 1..(n - 1) : Group(p[i])) /\ ValidV4(p[n]) THEN n + 1 ELSE -1
Doubles(s) == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
ValidV6(s) ==
  LET D == Doubles(s) IN
  IF D = {} THEN Groups(s, TRUE) = 8
  ELSE Cardinality(D) = 1 /\ LET i == CHOOSE i \in D : TRUE
                                 a == Groups(SubSeq(s, 1, i - 1), FALSE)  b == Groups(SubSeq(s, i + 2, Len(s)), TRUE)
                             IN a >= 0 /\ b >= 0 /\ a + b <= 7
Bracketed(s) == Len(s) >= 2 /\ s[1] = 91 /\ s[Len(s)] = 93 /\ ValidV6(SubSeq(s, 2, Len(s) - 1))
ValidDomain(s) == IdnaAscii(s, TRUE).ok
ValidHost(s) == ValidDomain(s) \/ ValidV4(s) \/ Bracketed(s)
(* URL units: URL code points and percent-encoded bytes *)
RECURSIVE Units(_, _)
Units(s, i) == IF i > Len(s) THEN TRUE
               ELSE IF s[i] = 37 THEN Two(s, i) /\ Units(s, i + 3)
               ELSE UrlCp(s[i]) /\ s[i] \notin Forbidden /\ Units(s, i + 1)
ValidOpaque(s) == (s # <<>> /\ Units(s, 1)) \/ Bracketed(s)
(* a last dot (the root label) is left to UTS #46's revision *)
DomainJudged(s) == DomainCovered(s) /\ LET m == MapAll(s, 1, <<>>) IN m # <<>> => m[Len(m)] # 46
=============================================================================
