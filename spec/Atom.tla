------------------------------------- MODULE Atom -------------------------------------
(* Atom sets: a dynamic one-to-one correspondence between strings and non-zero            *)
(* identifiers.  C04 (and C03 for the round trips).                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MovesOnExtension  \* TRUE: allow the known deviation (see known_findings.jsonl)
VARIABLE ids                \* stored string -> identifier

NoIds == [k \in {} |-> 0]
Extends(k, p) == Len(k) > Len(p) /\ SubSeq(k, 1, Len(p)) = p

WellFormed(m) == /\ <<>> \notin DOMAIN m
                 /\ \A a \in DOMAIN m : m[a] > 0
                 /\ \A a, b \in DOMAIN m : m[a] = m[b] => a = b

\* post is a correct correspondence after inserting k into m
InsertOk(m, k, post) ==
    /\ DOMAIN post = (IF k = <<>> THEN DOMAIN m ELSE DOMAIN m \cup {k})
    /\ WellFormed(post)
    /\ \A a \in DOMAIN m : post[a] = m[a] \/ (MovesOnExtension /\ k \notin DOMAIN m /\ Extends(k, a))
EraseOk(m, k, post) == DOMAIN post = DOMAIN m \ {k} /\ \A a \in DOMAIN post : post[a] = m[a]
AssignOk(ks, post)  == DOMAIN post = {ks[i] : i \in 1..Len(ks)} \ {<<>>} /\ WellFormed(post)

\* ---- the state machine, over a small universe, for exhaustive checking ----
CONSTANTS Strings, MaxId
States == UNION {[S -> 1..MaxId] : S \in SUBSET (Strings \ {<<>>})}
Init == ids = NoIds
Insert(k) == \E post \in States : InsertOk(ids, k, post) /\ ids' = post
Erase(k)  == ids' = [a \in DOMAIN ids \ {k} |-> ids[a]]
Assign(S) == \E post \in States : AssignOk(S, post) /\ ids' = post
Next == \/ \E k \in Strings : Insert(k) \/ Erase(k)
        \/ \E a, b \in Strings : Assign(<<a, b>>)
Spec == Init /\ [][Next]_ids
Inv == WellFormed(ids)
\* identifiers of members that stay never change (the strong, documented guarantee; needs MovesOnExtension = FALSE)
Stable == [][ (\A a \in DOMAIN ids \cap DOMAIN ids' : ids[a] = ids'[a]) \/ (\E a, b \in Strings : DOMAIN ids' \subseteq {a, b}) ]_ids
=======================================================================================
