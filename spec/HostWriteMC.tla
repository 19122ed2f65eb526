---------------------------- MODULE HostWriteMC ----------------------------
(* Exhaustive model: texts written token by token, judged at every step. *)
EXTENDS HostWrite
CONSTANTS N, Tokens
VARIABLE text
Init == text = <<>>
Next == \E t \in Tokens : Len(text) < N /\ text' = Append(text, t)
Spec == Init /\ [][Next]_text
RECURSIVE Flat(_, _, _)
Flat(ts, i, out) == IF i > Len(ts) THEN out ELSE Flat(ts, i + 1, out \o ts[i])
s == Flat(text, 1, <<>>)

\* tokens for domains, addresses and opaque hosts
Domains == {<<97>>, <<65>>, <<49>>, <<45>>, <<46>>, <<223>>, <<220>>, <<12354>>, <<12290>>, <<1488>>, <<2325, 2381>>, <<2381>>, <<8205>>, <<12539>>, <<173>>, <<120, 110, 45, 45>>, <<98, 45, 103, 107, 97>>, <<65285>>, <<65533>>, <<95>>}
V4s == {<<48>>, <<49>>, <<57>>, <<50, 53>>, <<53>>, <<46>>, <<49, 46>>, <<97>>, <<48, 120>>, <<65297>>}
V6s == {<<58>>, <<48>>, <<102, 70>>, <<49, 58>>, <<49, 58, 50, 58, 51, 58>>, <<49, 46, 50, 46>>, <<46>>, <<103>>, <<50, 53, 53>>}
Opaques == {<<97>>, <<37>>, <<37, 52>>, <<52, 49>>, <<58>>, <<91>>, <<93>>, <<58, 58>>, <<95>>, <<34>>, <<233>>, <<65534>>, <<47>>, <<126>>, <<32>>}

Asc == IdnaAscii(s, FALSE)
Uni == DomainToUnicode(s)
\* a converted domain converts to itself, and both forms stand for each other
FixedPt == (DomainCovered(s) /\ Asc.ok) => IdnaAscii(Asc.s, FALSE) = Asc
Canonical(d) == LET ls == Split(d, 46) IN \A i \in 1..Len(ls) : IsAce(ls[i]) => ls[i] = Ace \o Punycode(Unpuny(SubSeq(ls[i], 5, Len(ls[i]))).s)
Mirror == (DomainCovered(s) /\ Asc.ok) =>
  /\ Uni.ok /\ DomainToUnicode(Asc.s) = Uni /\ DomainToUnicode(Uni.s) = Uni
  /\ Canonical(Asc.s) => IdnaAscii(Uni.s, FALSE) = Asc
\* strict is stricter
Stricter == LET t == IdnaAscii(s, TRUE) IN t.ok => t = Asc
\* what is valid parses, to the kind it is valid as, without an error; what parses without an error into an address is valid
V4Parses == ValidV4(s) => /\ ParseHost(s, FALSE).t = 2 /\ SerHost(ParseHost(s, FALSE)) = s /\ ~HostErrs(s, FALSE)
V4Canon == (~StartsWith(s, <<91>>) /\ s # <<>> /\ ParseHost(s, FALSE).t = 2) => ValidV4(SerHost(ParseHost(s, FALSE)))
V6Parses == ValidV6(s) = (ParseV6(s).t = 3)
V6Canon == ParseV6(s).t = 3 => ValidV6(SerV6(ParseV6(s).v))
DomainParses == (DomainCovered(s) /\ ValidDomain(s)) => ParseHost(s, FALSE).t # 1 \/ ParseHost(s, FALSE).v = Asc.s
OpaqueParses == ValidOpaque(s) = (s # <<>> /\ ParseHost(s, TRUE).t # -1 /\ ~HostErrs(s, TRUE))
ASSUME \A w \in UNION {[1..n -> {97, 45, 223, 12354, 128169}] : n \in 0..4} : ~IsAscii(w) => (Unpuny(Punycode(w)) = [ok |-> TRUE, s |-> w])
ASSUME Unpuny(<<108, 56, 106, 101, 103, 105, 107>>).s = <<12354, 12356, 12358, 12360, 12362>>
=============================================================================
