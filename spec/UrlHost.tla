------------------------------ MODULE UrlHost ------------------------------
(* Hosts of the URL Standard (section 3): parsing and serialising, in the version the library implements (early 2021:
   a domain that is no IPv4 address is a domain, however it ends).  A host is [t, v]:
     t = 1 domain, 2 IPv4 (v = four bytes), 3 IPv6 (v = eight 16-bit pieces), 4 opaque, 5 empty; 0 null (in URL records),
     -1 failure.
   Domain to ASCII and to Unicode (UTS #46 with CheckHyphens and Transitional_Processing false, CheckBidi and
   CheckJoiners true; UseSTD3ASCIIRules and VerifyDnsLength when strict) are given for ASCII and for a table of other code
   points; they are not defined (Covered) for the rest of Unicode. *)
EXTENDS Percent

Fail == [t |-> -1, v |-> <<>>]
NullHost == [t |-> 0, v |-> <<>>]
Domain(s) == [t |-> 1, v |-> s]
V4(b) == [t |-> 2, v |-> b]
V6(p) == [t |-> 3, v |-> p]
Opaque(s) == [t |-> 4, v |-> s]
EmptyHost == [t |-> 5, v |-> <<>>]

Forbidden == {0, 9, 10, 13, 32, 35, 37, 47, 58, 60, 62, 63, 64, 91, 92, 93, 94, 124}
ForbiddenDomain == Forbidden \cup 0..31 \cup {127}
IsDigit(c) == In(c, 48, 57)

RECURSIVE SplitOn(_, _, _, _, _)
SplitOn(s, d, i, cur, acc) ==
  IF i > Len(s) THEN Append(acc, cur)
  ELSE IF s[i] = d THEN SplitOn(s, d, i + 1, <<>>, Append(acc, cur)) ELSE SplitOn(s, d, i + 1, Append(cur, s[i]), acc)
Split(s, d) == SplitOn(s, d, 1, <<>>, <<>>)
RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, d, i) == IF i > Len(ss) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<d>>) \o ss[i] \o JoinFrom(ss, d, i + 1)
Join(ss, d) == JoinFrom(ss, d, 1)

------------------------------------------------------------------------------------------------------------------
(* domain to ASCII *)
MapTable == (220 :> <<252>>) @@ (12290 :> <<46>>) @@ (65294 :> <<46>>) @@ (65377 :> <<46>>) @@ (65285 :> <<37>>) @@ (8490 :> <<107>>) @@ (160 :> <<32>>)
         @@ (173 :> <<>>) @@ (8203 :> <<>>) @@ (8288 :> <<>>) @@ (65279 :> <<>>)
Joiners == {8204, 8205}
Virama == 2381
Rtl == 1488..1490
ValidTable == {183, 223, 228, 233, 246, 252} \cup 12354..12369 \cup {12539, 20013, 22269, 26085, 26412} \cup {128169, 2325, Virama} \cup Joiners \cup Rtl
Disallowed == 128..159 \cup 64976..65007 \cup {65533, 65534, 65535, 57344, 8206, 131070, 1114109, 1114111}
Covered(c) == c <= 159 \/ c \in DOMAIN MapTable \/ c \in ValidTable \/ c \in Disallowed \/ In(c, 65296, 65305) \/ In(c, 65313, 65338) \/ In(c, 65345, 65370)
IdnaMap(c) == IF In(c, 65, 90) THEN <<c + 32>> ELSE IF c <= 127 THEN <<c>> ELSE IF In(c, 65296, 65305) THEN <<c - 65296 + 48>>
              ELSE IF In(c, 65313, 65338) THEN <<c - 65313 + 97>> ELSE IF In(c, 65345, 65370) THEN <<c - 65345 + 97>>
              ELSE IF c \in DOMAIN MapTable THEN MapTable[c] ELSE <<c>>
RECURSIVE MapAll(_, _, _)
MapAll(s, i, out) == IF i > Len(s) THEN out ELSE MapAll(s, i + 1, out \o IdnaMap(s[i]))

(* Punycode (RFC 3492) *)
PDigit(d) == IF d < 26 THEN 97 + d ELSE 22 + d
RECURSIVE PAdapt(_, _)
PAdapt(delta, k) == IF delta > 455 THEN PAdapt(delta \div 35, k + 36) ELSE k + (36 * delta) \div (delta + 38)
Adapt(delta, n, first) == LET d == IF first THEN delta \div 700 ELSE delta \div 2 IN PAdapt(d + d \div n, 0)
Thr(k, bias) == IF k <= bias THEN 1 ELSE IF k >= bias + 26 THEN 26 ELSE k - bias
RECURSIVE PVar(_, _, _)
PVar(q, k, bias) == LET t == Thr(k, bias) IN IF q < t THEN <<PDigit(q)>> ELSE <<PDigit(t + ((q - t) % (36 - t)))>> \o PVar((q - t) \div (36 - t), k + 36, bias)
RECURSIVE PFor(_, _, _, _, _, _, _, _)      \* one pass over the input for code point n
PFor(s, i, n, delta, bias, h, b, out) ==
  IF i > Len(s) THEN [delta |-> delta, bias |-> bias, h |-> h, out |-> out]
  ELSE IF s[i] < n THEN PFor(s, i + 1, n, delta + 1, bias, h, b, out)
  ELSE IF s[i] > n THEN PFor(s, i + 1, n, delta, bias, h, b, out)
  ELSE PFor(s, i + 1, n, 0, Adapt(delta, h + 1, h = b), h + 1, b, out \o PVar(delta, 36, bias))
RECURSIVE PEnc(_, _, _, _, _, _, _)
PEnc(s, n, delta, bias, h, b, out) ==
  IF h = Len(s) THEN out
  ELSE LET m == CHOOSE c \in {s[i] : i \in 1..Len(s)} : c >= n /\ \A d \in {s[i] : i \in 1..Len(s)} : d >= n => c <= d
           r == PFor(s, 1, m, delta + (m - n) * (h + 1), bias, h, b, out)
       IN PEnc(s, m + 1, r.delta + 1, r.bias, r.h, b, r.out)
Basic(s) == SelectSeq(s, LAMBDA c : c < 128)
Punycode(s) == LET b == Basic(s) IN PEnc(s, 128, 0, 72, Len(b), Len(b), IF b = <<>> THEN <<>> ELSE b \o <<45>>)
IsAscii(s) == \A i \in 1..Len(s) : s[i] < 128
Ace == <<120, 110, 45, 45>>
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
(* Punycode read back: [ok, s]; numbers that no decoder of 31 bits holds are errors *)
Max31 == 2147483647
PVal(c) == IF In(c, 97, 122) THEN c - 97 ELSE IF In(c, 48, 57) THEN c - 22 ELSE IF In(c, 65, 90) THEN c - 65 ELSE -1
PBad == [ok |-> FALSE, s |-> <<>>]
RECURSIVE PInt(_, _, _, _, _, _)
PInt(in, p, i, w, k, bias) ==                 \* one variable-length integer added to i -> <<position, value>>, <<0, 0>> on error
  IF p > Len(in) THEN <<0, 0>>
  ELSE LET d == PVal(in[p])  t == Thr(k, bias) IN
       IF d < 0 \/ d > (Max31 - i) \div w THEN <<0, 0>>
       ELSE IF d < t THEN <<p + 1, i + d * w>>
       ELSE IF w > Max31 \div (36 - t) THEN <<0, 0>> ELSE PInt(in, p + 1, i + d * w, w * (36 - t), k + 36, bias)
RECURSIVE PDec(_, _, _, _, _, _)
PDec(in, p, n, i, bias, out) ==
  IF p > Len(in) THEN [ok |-> TRUE, s |-> out]
  ELSE LET r == PInt(in, p, i, 1, 36, bias)  m == Len(out) + 1 IN
       IF r[1] = 0 \/ r[2] \div m > 1114111 - n THEN PBad
       ELSE LET c == n + r[2] \div m  j == r[2] % m IN
            IF In(c, 55296, 57343) THEN PBad
            ELSE PDec(in, r[1], c, j + 1, Adapt(r[2] - i, m, i = 0), SubSeq(out, 1, j) \o <<c>> \o SubSeq(out, j + 1, m - 1))
Unpuny(s) ==
  LET D == {i \in 1..Len(s) : s[i] = 45}
      b == IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : j <= i
  IN IF ~IsAscii(s) THEN PBad ELSE PDec(s, IF b > 1 THEN b + 1 ELSE 1, 128, 0, 72, IF b > 1 THEN SubSeq(s, 1, b - 1) ELSE <<>>)

(* a mapped label in its Unicode form, [ok, s]; what an ACE label stands for must be fully mapped *)
Stable(c) == c \notin Disallowed /\ IdnaMap(c) = <<c>>
IsAce(l) == StartsWith(l, Ace)
UForm(l) == IF ~IsAce(l) THEN [ok |-> TRUE, s |-> l]
            ELSE LET d == Unpuny(SubSeq(l, 5, Len(l))) IN [ok |-> d.ok /\ \A i \in 1..Len(d.s) : Stable(d.s[i]), s |-> d.s]
Std3(c) == c > 127 \/ In(c, 97, 122) \/ IsDigit(c) \/ c = 45
LabelValid(u, strict) ==
  /\ u # <<>> => u[1] # Virama                                    \* a combining mark does not begin a label
  /\ \A i \in 1..Len(u) : u[i] \in Joiners => i > 1 /\ u[i - 1] = Virama
  /\ strict => \A i \in 1..Len(u) : Std3(u[i])
(* the Bidi rule (RFC 5893, section 2) for the classes that occur *)
Bidi(c) == IF c \in Rtl THEN "R" ELSE IF IsDigit(c) THEN "EN" ELSE IF c \in {43, 45} THEN "ES" ELSE IF c \in {44, 46, 47, 58} THEN "CS"
           ELSE IF c \in {35, 36, 37} THEN "ET" ELSE IF c = Virama THEN "NSM" ELSE IF c \in Joiners THEN "BN" ELSE IF c \in 9..13 \cup 28..32 THEN "WS"
           ELSE IF c \in 0..31 \cup 127..159 THEN "BN" ELSE IF In(c, 97, 122) THEN "L" ELSE IF c < 128 \/ c \in {183, 12539, 128169} THEN "ON" ELSE "L"
LastBase(u) == LET NB == {i \in 1..Len(u) : Bidi(u[i]) # "NSM"} IN IF NB = {} THEN 0 ELSE CHOOSE i \in NB : \A j \in NB : j <= i
BidiOk(u) ==
  LET last == LastBase(u) IN
  /\ last > 0
  /\ IF Bidi(u[1]) = "R" THEN (\A i \in 1..Len(u) : Bidi(u[i]) \notin {"L", "WS"}) /\ Bidi(u[last]) \in {"R", "EN"}
     ELSE Bidi(u[1]) = "L" /\ (\A i \in 1..Len(u) : Bidi(u[i]) \notin {"R", "WS"}) /\ Bidi(u[last]) \in {"L", "EN"}
IsBidi(us) == \E i \in 1..Len(us) : \E j \in 1..Len(us[i]) : us[i][j] \in Rtl
(* a domain prepared: its mapped labels, their Unicode forms, and whether UTS #46 finds no error (lengths apart) *)
Prepared(s, strict) ==
  LET ls == Split(MapAll(s, 1, <<>>), 46)
      fs == [i \in 1..Len(ls) |-> UForm(ls[i])]
      us == [i \in 1..Len(ls) |-> fs[i].s]
  IN [ls |-> ls, us |-> us,
      ok |-> /\ \A i \in 1..Len(s) : s[i] \notin Disallowed
             /\ \A i \in 1..Len(ls) : fs[i].ok /\ LabelValid(us[i], strict)
             /\ IsBidi(us) => \A i \in 1..Len(us) : us[i] = <<>> \/ BidiOk(us[i])]
LabelToAscii(l) == IF IsAscii(l) THEN l ELSE Ace \o Punycode(l)
LowDomain(s) == [i \in 1..Len(s) |-> IF In(s[i], 65, 90) THEN s[i] + 32 ELSE s[i]]
Plain7(s) == IsAscii(s) /\ ~\E i \in 1..(Len(s) - 3) : s[i + 2] = 45 /\ s[i + 3] = 45 /\ s[i] \in {88, 120} /\ s[i + 1] \in {78, 110}
(* -> [ok, s] *)
IdnaAscii(s, strict) ==
  LET p == Prepared(s, strict)
      ls == [i \in 1..Len(p.ls) |-> LabelToAscii(p.ls[i])]
      r == Join(ls, 46)
  IN IF ~p.ok THEN [ok |-> FALSE, s |-> <<>>]
     ELSE [ok |-> r # <<>> /\ (strict => Len(r) <= 253 /\ \A i \in 1..Len(ls) : In(Len(ls[i]), 1, 63)), s |-> r]
DomainToAscii(s) == IF Plain7(s) THEN [ok |-> s # <<>>, s |-> LowDomain(s)] ELSE IdnaAscii(s, FALSE)
DomainToUnicode(s) == LET p == Prepared(s, FALSE) IN IF p.ok THEN [ok |-> TRUE, s |-> Join(p.us, 46)] ELSE [ok |-> FALSE, s |-> <<>>]
(* is everything UTS #46 sees within the table: an ACE label for ASCII, and an empty label beside right-to-left ones, are not judged *)
DomainCovered(d) ==
  /\ \A i \in 1..Len(d) : Covered(d[i])
  /\ LET ls == Split(MapAll(d, 1, <<>>), 46)  us == [i \in 1..Len(ls) |-> IF IsAce(ls[i]) THEN Unpuny(SubSeq(ls[i], 5, Len(ls[i]))) ELSE [ok |-> TRUE, s |-> ls[i]]] IN
     /\ \A i \in 1..Len(ls) : IsAce(ls[i]) /\ us[i].ok => ~IsAscii(us[i].s) /\ \A j \in 1..Len(us[i].s) : Covered(us[i].s[j])
     /\ IsBidi([i \in 1..Len(us) |-> us[i].s]) => \A i \in 1..Len(us) : us[i].s # <<>>

------------------------------------------------------------------------------------------------------------------
(* IPv4; numbers are four bytes, most significant first, or <<>> when they do not fit *)
MulAdd(v, r, d) ==
  IF v = <<>> THEN <<>> ELSE
  LET t0 == v[4] * r + d  t1 == v[3] * r + t0 \div 256  t2 == v[2] * r + t1 \div 256  t3 == v[1] * r + t2 \div 256 IN
  IF t3 > 255 THEN <<>> ELSE <<t3, t2 % 256, t1 % 256, t0 % 256>>
RECURSIVE NumFrom(_, _, _, _)
NumFrom(s, r, i, v) == IF i > Len(s) THEN v ELSE NumFrom(s, r, i + 1, MulAdd(v, r, HexVal(s[i])))
(* [nan, v] *)
V4Number(s) ==
  LET hex == Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {88, 120}
      oct == ~hex /\ Len(s) >= 2 /\ s[1] = 48
      r == IF hex THEN 16 ELSE IF oct THEN 8 ELSE 10
      d == IF hex THEN SubSeq(s, 3, Len(s)) ELSE IF oct THEN SubSeq(s, 2, Len(s)) ELSE s
      good(c) == IF r = 16 THEN IsHex(c) ELSE In(c, 48, 47 + r)
  IN IF \E i \in 1..Len(d) : ~good(d[i]) THEN [nan |-> TRUE, v |-> <<>>] ELSE [nan |-> FALSE, v |-> NumFrom(d, r, 1, <<0, 0, 0, 0>>)]
ParseV4(s) ==     \* an IPv4 host, a failure, or the domain s
  LET raw == Split(s, 46)
      parts == IF raw[Len(raw)] = <<>> /\ Len(raw) > 1 THEN SubSeq(raw, 1, Len(raw) - 1) ELSE raw
      n == Len(parts)
  IN IF n > 4 \/ \E i \in 1..n : parts[i] = <<>> \/ V4Number(parts[i]).nan THEN Domain(s)
     ELSE LET v == [i \in 1..n |-> V4Number(parts[i]).v]
              small(i) == v[i] # <<>> /\ \A j \in 1..3 : v[i][j] = 0
          IN IF \E i \in 1..(n - 1) : ~small(i) THEN Fail
             ELSE IF v[n] = <<>> \/ \E j \in 1..(n - 1) : v[n][j] # 0 THEN Fail
             ELSE V4([i \in 1..4 |-> IF i < n THEN v[i][4] ELSE v[n][i]])

(* IPv6: the Standard's algorithm, one iteration of its main loop at a time; s = [p, k, comp, a, res] *)
At6(in, p) == IF p <= Len(in) THEN in[p] ELSE -1
RECURSIVE HexRun(_, _, _, _)
HexRun(in, p, n, v) == IF n < 4 /\ IsHex(At6(in, p)) THEN HexRun(in, p + 1, n + 1, v * 16 + HexVal(in[p])) ELSE [p |-> p, n |-> n, v |-> v]
(* decimal piece: -1 bad *)
RECURSIVE DecRun(_, _, _)
DecRun(in, p, v) ==
  IF ~IsDigit(At6(in, p)) THEN [p |-> p, v |-> v]
  ELSE LET d == in[p] - 48 IN
       IF v = 0 THEN [p |-> p, v |-> -1]
       ELSE LET w == IF v = -2 THEN d ELSE v * 10 + d IN IF w > 255 THEN [p |-> p, v |-> -1] ELSE DecRun(in, p + 1, w)
RECURSIVE Tail4(_, _, _, _, _)
Tail4(in, p, k, seen, a) ==        \* the embedded IPv4 address; k 0-based piece index
  IF p > Len(in) THEN IF seen = 4 THEN [ok |-> TRUE, a |-> a, k |-> k] ELSE [ok |-> FALSE, a |-> a, k |-> k]
  ELSE IF seen > 0 /\ ~(in[p] = 46 /\ seen < 4) THEN [ok |-> FALSE, a |-> a, k |-> k]
  ELSE LET q == IF seen > 0 THEN p + 1 ELSE p IN
       IF ~IsDigit(At6(in, q)) THEN [ok |-> FALSE, a |-> a, k |-> k]
       ELSE LET r == DecRun(in, q, -2) IN
            IF r.v < 0 THEN [ok |-> FALSE, a |-> a, k |-> k]
            ELSE Tail4(in, r.p, IF seen + 1 \in {2, 4} THEN k + 1 ELSE k, seen + 1, [a EXCEPT ![k + 1] = @ * 256 + r.v])
RECURSIVE Loop6(_, _, _, _, _)
Loop6(in, p, k, comp, a) ==        \* comp = -1: none;  -> [ok, k, comp, a]
  IF p > Len(in) THEN [ok |-> TRUE, k |-> k, comp |-> comp, a |-> a]
  ELSE IF k = 8 THEN [ok |-> FALSE, k |-> k, comp |-> comp, a |-> a]
  ELSE IF in[p] = 58 THEN IF comp # -1 THEN [ok |-> FALSE, k |-> k, comp |-> comp, a |-> a] ELSE Loop6(in, p + 1, k + 1, k + 1, a)
  ELSE LET h == HexRun(in, p, 0, 0)  bad == [ok |-> FALSE, k |-> k, comp |-> comp, a |-> a] IN
    IF At6(in, h.p) = 46 THEN
      IF h.n = 0 \/ k > 6 THEN bad
      ELSE LET r == Tail4(in, p, k, 0, a) IN [ok |-> r.ok, k |-> r.k, comp |-> comp, a |-> r.a]
    ELSE IF At6(in, h.p) = 58 THEN IF h.p + 1 > Len(in) THEN bad ELSE Loop6(in, h.p + 1, k + 1, comp, [a EXCEPT ![k + 1] = h.v])
    ELSE IF h.p <= Len(in) THEN bad
    ELSE Loop6(in, h.p, k + 1, comp, [a EXCEPT ![k + 1] = h.v])
Zero8 == [i \in 1..8 |-> 0]
ParseV6(in) ==
  IF Len(in) >= 1 /\ in[1] = 58 /\ At6(in, 2) # 58 THEN Fail
  ELSE LET c == Len(in) >= 1 /\ in[1] = 58
           r == Loop6(in, IF c THEN 3 ELSE 1, IF c THEN 1 ELSE 0, IF c THEN 1 ELSE -1, Zero8)
       IN IF ~r.ok THEN Fail
          ELSE IF r.comp = -1 THEN IF r.k = 8 THEN V6(r.a) ELSE Fail
          ELSE LET m == r.k - r.comp IN    \* pieces after the compression move to the end
               V6([i \in 1..8 |-> IF i <= r.comp THEN r.a[i] ELSE IF i > 8 - m THEN r.a[i - (8 - r.k)] ELSE 0])

ParseOpaque(s) == IF \E i \in 1..Len(s) : s[i] \in Forbidden \ {37} THEN Fail ELSE Opaque(Utf8Pct(KC0, s))
ParseHost(s, notSpecial) ==
  IF Len(s) >= 1 /\ s[1] = 91 THEN IF s[Len(s)] # 93 THEN Fail ELSE ParseV6(SubSeq(s, 2, Len(s) - 1))
  ELSE IF notSpecial THEN ParseOpaque(s)
  ELSE LET d == DomainToAscii(Text(UTF8, UnpctText(s))) IN
    IF ~d.ok \/ \E i \in 1..Len(d.s) : d.s[i] \in ForbiddenDomain THEN Fail ELSE ParseV4(d.s)
HostCovered(s, notSpecial) == notSpecial \/ DomainCovered(Text(UTF8, UnpctText(s)))

------------------------------------------------------------------------------------------------------------------
RECURSIVE LowHex(_)
LowHex(n) == IF n < 16 THEN <<IF n < 10 THEN 48 + n ELSE 87 + n>> ELSE LowHex(n \div 16) \o LowHex(n % 16)
(* the first of the longest runs of two or more zero pieces: <<start, length>>, or <<0, 0>> *)
ZeroRun(a, i, n) == (\A j \in i..(i + n - 1) : a[j] = 0) /\ (i = 1 \/ a[i - 1] # 0) /\ (i + n = 9 \/ a[i + n] # 0)
Longest(a) ==
  LET Z == {<<i, n>> \in (1..8) \X (2..8) : i + n <= 9 /\ ZeroRun(a, i, n)} IN
  IF Z = {} THEN <<0, 0>> ELSE CHOOSE x \in Z : \A y \in Z : y[2] < x[2] \/ (y[2] = x[2] /\ x[1] <= y[1])
RECURSIVE Ser6(_, _, _)
Ser6(a, i, z) ==
  IF i > 8 THEN <<>>
  ELSE IF z[1] = i THEN (IF i = 1 THEN <<58, 58>> ELSE <<58>>) \o Ser6(a, i + z[2], z)
  ELSE LowHex(a[i]) \o (IF i = 8 THEN <<>> ELSE <<58>>) \o Ser6(a, i + 1, z)
SerV6(a) == Ser6(a, 1, Longest(a))
SerV4(b) == Join([i \in 1..4 |-> Digits(b[i])], 46)
SerHost(h) == CASE h.t = 2 -> SerV4(h.v) [] h.t = 3 -> <<91>> \o SerV6(h.v) \o <<93>> [] OTHER -> h.v
=============================================================================
