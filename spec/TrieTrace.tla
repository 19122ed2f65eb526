---------------------------------- MODULE TrieTrace ----------------------------------
(* Trace validation: recorded calls on the real containers must be behaviours of Trie.   *)
EXTENDS Trie, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

Obs(m, e) == Shows(m, e.enum) /\ e.size = Cardinality(DOMAIN m) /\ e.empty = (DOMAIN m = {})

\* post state the specification prescribes for event e
Post(m, e) == CASE e.op = "insert" -> InsertPost(m, e.k, e.v)
                [] e.op = "erase"  -> ErasePost(m, e.k)
                [] e.op = "set"    -> IF e.k \in DOMAIN m THEN SetPost(m, e.k, e.v) ELSE m
                [] e.op = "sub"    -> SubPost(m, e.k, e.v)
                [] e.op = "assign" -> AssignPost(e.ks)
                [] e.op = "clear"  -> Empty
                [] OTHER           -> m

Probe(m, e) == LET n == LongestStored(m, e.k, Len(e.k))
                   p == SubSeq(e.k, 1, n)
                   here == e.k \in DOMAIN m
                   whole == n = Len(e.k) IN
    /\ e.contains = here /\ e.find = here
    /\ e.fpath = (IF here THEN e.k ELSE <<>>)
    /\ e.at = (IF here THEN m[e.k] ELSE -1)
    /\ e.search = whole /\ e.spath = (IF whole THEN e.k ELSE <<>>)
    /\ e.consumed = n /\ e.lpath = p
    /\ e.steps = n /\ e.npath = p
    /\ e.iskey = (p \in DOMAIN m) /\ e.notkey = (p \notin DOMAIN m)
    /\ ToSet(e.kids) = Children(m, p)
    /\ \A i \in 1..(Len(e.kids) - 1) : e.kids[i] < e.kids[i + 1]
    /\ e.back

Ok(m, e) == CASE e.op \in {"insert", "erase", "set", "sub", "assign", "clear", "reload"} ->
                     /\ Obs(Post(m, e), e)
                     /\ e.op = "set" => e.did = (e.k \in DOMAIN m)
                     /\ e.op = "insert" => (e.end = (e.k = <<>>) /\ e.rpath = e.k)
              [] e.op = "probe"    -> Probe(m, e)
              [] e.op = "streamok" -> e.ok
              [] e.op = "bulk"     -> LET ks == BulkKeep(e.n, e.m, e.r) IN
                     e.full = e.n /\ e.size = Len(ks) /\ e.keys = ks /\ e.vals = BulkVals(ks, e.m, e.r) /\ e.has = ks /\ e.clear
              [] OTHER             -> FALSE

TraceInit == map = Empty /\ l = 1 /\ bad = FALSE
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                IF e.op = "reset" THEN map' = Empty /\ bad' = FALSE
                ELSE IF bad THEN UNCHANGED <<map, bad>>
                ELSE IF Ok(map, e) THEN map' = Post(map, e) /\ bad' = FALSE
                ELSE /\ PrintT("REJECT " \o ToString(e.c) \o " op=" \o e.op \o " line=" \o ToString(l) \o " expected map " \o ToString(IF e.op \in {"crash", "probe", "streamok", "bulk"} THEN map ELSE Post(map, e)))
                     /\ bad' = TRUE /\ UNCHANGED map
TraceSpec == TraceInit /\ [][TraceNext]_<<map, l, bad>>
=======================================================================================
