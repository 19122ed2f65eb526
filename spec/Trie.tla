------------------------------------- MODULE Trie -------------------------------------
(* Abstract specification of the trie containers (trie, stable_trie): a finite map from    *)
(* non-empty label strings (sequences of naturals) to values.  C01, C02, C03.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

VARIABLE map                      \* function: set of stored keys -> value

Empty == [k \in {} |-> 0]

\* ---- effects of the public operations, as functions of the abstract state ----
InsertPost(m, k, v) == IF k = <<>> \/ k \in DOMAIN m THEN m ELSE m @@ (k :> v)
ErasePost(m, k)     == [x \in DOMAIN m \ {k} |-> m[x]]
SetPost(m, k, v)    == [m EXCEPT ![k] = v]
SubPost(m, k, v)    == (k :> v) @@ m
AssignPost(ks)      == [k \in {ks[i] : i \in 1..Len(ks)} \ {<<>>} |-> 0]

\* ---- many keys: the numbers 0..n-1 are inserted with themselves as values (key i ascending in i), those with remainder r modulo m are erased, and every
\*      second one of these is inserted again with i + 1.  What is left, in order, and its values ----
BulkKeep(n, m, r) == LET Keep(i) == i % m # r \/ ((i \div m) % 2 = 0) IN SelectSeq([i \in 1..n |-> i - 1], Keep)
BulkVals(ks, m, r) == [i \in 1..Len(ks) |-> IF ks[i] % m = r THEN ks[i] + 1 ELSE ks[i]]
BulkKey(i) == IF i % 2 = 0 THEN <<i \div 2>> ELSE <<i \div 2, 9>>
RECURSIVE BulkIns(_, _, _), BulkDel(_, _, _, _), BulkAgain(_, _, _, _)
BulkIns(mp, i, n) == IF i = n THEN mp ELSE BulkIns(InsertPost(mp, BulkKey(i), i), i + 1, n)
BulkDel(mp, i, n, m) == IF i >= n THEN mp ELSE BulkDel(ErasePost(mp, BulkKey(i)), i + m, n, m)
BulkAgain(mp, i, n, m) == IF i >= n THEN mp ELSE BulkAgain(InsertPost(mp, BulkKey(i), i + 1), i + 2 * m, n, m)
BulkLemma(n, m, r) == LET mp == BulkAgain(BulkDel(BulkIns(Empty, 0, n), r, n, m), r, n, m)
                          ks == BulkKeep(n, m, r)
                      IN mp = [k \in {BulkKey(ks[i]) : i \in 1..Len(ks)} |-> BulkVals(ks, m, r)[CHOOSE i \in 1..Len(ks) : BulkKey(ks[i]) = k]]
ASSUME \A n \in 0..9, m \in 1..4 : \A r \in 0..(m - 1) : BulkLemma(n, m, r)

\* ---- observations ----
StoredPrefixes(m)      == UNION {{SubSeq(k, 1, n) : n \in 0..Len(k)} : k \in DOMAIN m} \cup {<<>>}
IsPre(p, k)      == Len(p) <= Len(k) /\ \A i \in 1..Len(p) : p[i] = k[i]
HasPrefix(m, p)  == p = <<>> \/ \E k \in DOMAIN m : IsPre(p, k)
RECURSIVE LongestStored(_, _, _)
LongestStored(m, k, n) == \* length of the longest prefix of k that is a prefix of a stored key
    IF n = 0 \/ HasPrefix(m, SubSeq(k, 1, n)) THEN n ELSE LongestStored(m, k, n - 1)
Children(m, p)   == {k[Len(p) + 1] : k \in {x \in DOMAIN m : Len(x) > Len(p) /\ IsPre(p, x)}}
RECURSIVE LexLess(_, _)
LexLess(a, b)    == IF b = <<>> THEN FALSE
                    ELSE IF a = <<>> THEN TRUE
                    ELSE IF a[1] = b[1] THEN LexLess(Tail(a), Tail(b))
                    ELSE a[1] < b[1]
\* an enumeration (sequence of [k, v]) shows the map: every key once, ascending, with its value
Shows(m, en) == /\ Len(en) = Cardinality(DOMAIN m)
                /\ \A i \in 1..Len(en) : en[i].k \in DOMAIN m /\ m[en[i].k] = en[i].v
                /\ \A i \in 1..(Len(en) - 1) : LexLess(en[i].k, en[i + 1].k)

\* ---- the state machine ----
CONSTANTS Labels, MaxLen, Vals
Keys == UNION {[1..n -> Labels] : n \in 0..MaxLen}

Init == map = Empty
Insert(k, v) == map' = InsertPost(map, k, v)
Erase(k)     == map' = ErasePost(map, k)
Set(k, v)    == k \in DOMAIN map /\ map' = SetPost(map, k, v)
Sub(k, v)    == k # <<>> /\ map' = SubPost(map, k, v)
Assign(ks)   == map' = AssignPost(ks)
Clear        == map' = Empty
Reload       == map' = map             \* any serialisation round trip
Next == \/ \E k \in Keys, v \in Vals : Insert(k, v) \/ Set(k, v) \/ Sub(k, v)
        \/ \E k \in Keys : Erase(k)
        \/ \E k1, k2 \in Keys : Assign(<<k1, k2>>)
        \/ Clear \/ Reload
Spec == Init /\ [][Next]_map

\* ---- properties of the design, checked exhaustively ----
TypeOK == /\ <<>> \notin DOMAIN map
          /\ \A k \in DOMAIN map : k \in Keys /\ map[k] \in Vals \cup {0}
\* navigation reaches exactly the prefixes of stored keys
PrefixTree == \A p \in Keys : HasPrefix(map, p) <=> p \in StoredPrefixes(map)
ChildrenExtend == \A p \in StoredPrefixes(map) : \A c \in Labels :
                     c \in Children(map, p) <=> Append(p, c) \in StoredPrefixes(map)
LongestIsStored == \A k \in Keys : LET n == LongestStored(map, k, Len(k)) IN
                     /\ SubSeq(k, 1, n) \in StoredPrefixes(map)
                     /\ n < Len(k) => SubSeq(k, 1, n + 1) \notin StoredPrefixes(map)
\* one step changes the value or presence of at most one key unless it is Assign/Clear
Local == [][ \/ \E k \in Keys : \A x \in Keys \ {k} :
                   /\ (x \in DOMAIN map <=> x \in DOMAIN map')
                   /\ x \in DOMAIN map => map[x] = map'[x]
             \/ \E k1, k2 \in Keys : DOMAIN map' \subseteq {k1, k2} ]_map
=========================================================================================
