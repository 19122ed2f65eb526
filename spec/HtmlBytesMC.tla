---------------------------- MODULE HtmlBytesMC ----------------------------
(* Every document of up to MaxLen pieces (declarations of several kinds, bytes above 127, byte order marks, places where a  *)
(* meta element is no declaration), opened in several encodings with each confidence, and its readings one by one.           *)
EXTENDS HtmlBytes
CONSTANT MaxLen
VARIABLES n, bytes, phase, given, r, readings
vars == <<n, bytes, phase, given, r, readings>>
Pieces == {
    <<60, 109, 101, 116, 97, 32, 99, 104, 97, 114, 115, 101, 116, 61, 115, 106, 105, 115, 62>>,
    <<60, 109, 101, 116, 97, 32, 99, 104, 97, 114, 115, 101, 116, 61, 34, 117, 116, 102, 45, 49, 54, 34, 62>>,
    <<60, 109, 101, 116, 97, 32, 99, 104, 97, 114, 115, 101, 116, 61, 120, 45, 117, 115, 101, 114, 45, 100, 101, 102, 105, 110, 101, 100, 62>>,
    <<60, 109, 101, 116, 97, 32, 99, 104, 97, 114, 115, 101, 116, 61, 98, 97, 100, 62>>,
    <<60, 109, 101, 116, 97, 32, 104, 116, 116, 112, 45, 101, 113, 117, 105, 118, 61, 67, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101, 32, 99, 111, 110, 116, 101, 110, 116, 61, 34, 97, 59, 99, 104, 97, 114, 115, 101, 116, 32, 99, 104, 97, 114, 115, 101, 116, 32, 61, 32, 101, 117, 99, 45, 106, 112, 59, 34, 62>>,
    <<60, 109, 101, 116, 97, 32, 99, 111, 110, 116, 101, 110, 116, 61, 99, 104, 97, 114, 115, 101, 116, 61, 103, 98, 107, 32, 99, 104, 97, 114, 115, 101, 116, 61, 98, 97, 100, 32, 104, 116, 116, 112, 45, 101, 113, 117, 105, 118, 61, 99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101, 62>>,
    <<227, 129, 130>>,
    <<147, 250>>,
    <<60, 112, 62>>,
    <<60, 116, 105, 116, 108, 101, 62>>,
    <<60, 116, 101, 109, 112, 108, 97, 116, 101, 62>>,
    <<60, 115, 101, 108, 101, 99, 116, 62>>,
    <<60, 115, 118, 103, 62>>,
    <<239, 187, 191>>,
    <<254, 255>>,
    <<60, 102, 114, 97, 109, 101, 115, 101, 116, 62>>,
    <<60, 116, 97, 98, 108, 101, 62>>,
    <<60, 47, 116, 105, 116, 108, 101, 62>>}
Encs == {1, 35, 39}
Init == n = 0 /\ bytes = <<>> /\ phase = "write" /\ given = [enc |-> 1, conf |-> "tentative"] /\ r = given /\ readings = 0
Write == phase = "write" /\ n < MaxLen /\ n' = n + 1 /\ (\E p \in Pieces : bytes' = bytes \o p) /\ UNCHANGED <<phase, given, r, readings>>
Open == phase = "write" /\ \E e \in Encs, c \in Conf : given' = [enc |-> e, conf |-> c] /\ r' = Opening(bytes, e, c) /\ phase' = "read" /\ readings' = 1 /\ UNCHANGED <<n, bytes>>
\* one reading of the bytes: it ends, or a declaration met on the way starts another
Reading == /\ phase = "read"
           /\ LET v == After(r, Tree(bytes, r.enc)) IN
              /\ r' = v
              /\ IF v.enc # r.enc THEN phase' = "read" /\ readings' = readings + 1 ELSE phase' = "done" /\ UNCHANGED readings
           /\ UNCHANGED <<n, bytes, given>>
Next == Write \/ Open \/ Reading
Spec == Init /\ [][Next]_vars
Bom == Cd!BomOf(bytes)
\* the bytes are read twice at most, and Read says how that ends
Twice == readings <= 2
Ends == phase = "done" => r = Read(bytes, given.enc, given.conf).r
\* who knows the encoding keeps it; a byte order mark knows better
Kept == phase = "done" => /\ (Bom # 0 => r.enc = Bom)
                          /\ (Bom = 0 /\ given.conf # "tentative" => r = given)
\* no declaration makes a document UTF-16 or x-user-defined, none changes one that is UTF-16
NoWide == phase = "done" => /\ r.enc # Cd!XUSER
                            /\ (r.enc \in {Cd!UTF16BE, Cd!UTF16LE} => r.enc = Bom \/ given.enc = r.enc)
                            /\ (Bom = 0 /\ given.enc \in {Cd!UTF16BE, Cd!UTF16LE} => r.enc = given.enc)
\* a document of ASCII says the same in every encoding that extends ASCII, and its first declaration decides
Ascii == \A i \in 1..Len(bytes) : bytes[i] < 128
FirstDecides == (phase = "done" /\ Ascii /\ given.enc # Cd!UTF16LE) =>
    /\ Tree(bytes, r.enc) = RunDoc(bytes, FALSE, FALSE)
    /\ (given.conf = "tentative" => LET d == FirstDeclared(RunDoc(bytes, FALSE, FALSE).metas, 1) IN IF d = 0 THEN r = given ELSE r.conf = "certain")
\* reading the bytes in the encoding arrived at, as certain, gives the same tree
Settled == phase = "done" => Read(bytes, r.enc, "certain") = [r |-> [r EXCEPT !.conf = "certain"], tree |-> Read(bytes, given.enc, given.conf).tree]
=============================================================================
