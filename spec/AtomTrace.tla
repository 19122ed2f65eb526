---------------------------------- MODULE AtomTrace ----------------------------------
EXTENDS Atom, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

\* the correspondence an event shows: string -> id lookups, id -> string lookups, which must be mutually inverse
AsMap(s) == [k \in {s[i].k : i \in 1..Len(s)} |-> (CHOOSE i \in 1..Len(s) : s[i].k = k) ]
Fwd(e) == LET ix == AsMap(e.fwd) IN [k \in DOMAIN ix |-> e.fwd[ix[k]].id]
Pairs(s) == {<<s[i].k, s[i].id>> : i \in 1..Len(s)}
Mutual(e) == Pairs(e.fwd) = Pairs(e.bwd) /\ e.size = Cardinality(DOMAIN Fwd(e)) /\ e.consistent /\ WellFormed(Fwd(e))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Numbers(e) == /\ e.iter = Flat(e.in) /\ e.func = Flat(e.in) /\ e.pos = Flat(e.in)
              /\ e.back = e.in /\ e.back2 = e.in

\* many strings, none the beginning of another, so that no identifier may ever move: 0..n-1 inserted (identifiers a), those with remainder q modulo m
\* erased (b), n..2n-1 inserted (ids; back = the string found from each of them)
Values(s) == {s[i] : i \in 1..Len(s)}
Bulk(e) == LET gone(i) == (i - 1) % e.m = e.q /\ i <= e.n  left == {i \in 1..(2 * e.n) : ~gone(i)} IN
    /\ Len(e.a) = e.n /\ Cardinality(Values(e.a)) = e.n /\ \A i \in 1..e.n : e.a[i] > 0
    /\ e.b = [i \in 1..e.n |-> IF gone(i) THEN 0 ELSE e.a[i]]
    /\ Len(e.ids) = 2 * e.n /\ SubSeq(e.ids, 1, e.n) = e.b
    /\ \A i \in left : e.ids[i] > 0
    /\ Cardinality(Values(e.ids) \ {0}) = Cardinality(left) /\ e.size = Cardinality(left)
    /\ e.back = [i \in 1..(2 * e.n) |-> IF gone(i) THEN -1 ELSE i - 1]

Ok(m, e) == CASE e.op = "insert" -> Mutual(e) /\ InsertOk(m, e.k, Fwd(e)) /\ e.id = (IF e.k = <<>> THEN 0 ELSE Fwd(e)[e.k])
              [] e.op = "erase"  -> Mutual(e) /\ EraseOk(m, e.k, Fwd(e))
              [] e.op = "assign" -> Mutual(e) /\ AssignOk(e.ks, Fwd(e))
              [] e.op = "clear"  -> Mutual(e) /\ Fwd(e) = NoIds
              [] e.op = "reload" -> Mutual(e) /\ Fwd(e) = m
              [] e.op = "numbers" -> Numbers(e)
              [] e.op = "bulk"   -> Bulk(e)
              [] OTHER           -> FALSE

TraceInit == ids = NoIds /\ l = 1 /\ bad = FALSE
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                IF e.op = "reset" THEN ids' = NoIds /\ bad' = FALSE
                ELSE IF bad THEN UNCHANGED <<ids, bad>>
                ELSE IF Ok(ids, e) THEN ids' = (IF e.op \in {"numbers", "bulk"} THEN ids ELSE Fwd(e)) /\ bad' = FALSE
                ELSE /\ PrintT("REJECT " \o ToString(e.c) \o " op=" \o e.op \o " line=" \o ToString(l) \o " before: " \o ToString(ids))
                     /\ bad' = TRUE /\ UNCHANGED ids
TraceSpec == TraceInit /\ [][TraceNext]_<<ids, l, bad>>
=======================================================================================
