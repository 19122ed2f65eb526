-------------------------------- MODULE StaticVectorMC --------------------------------
(* every pair of vectors of capacity N over Vals, under every operation                   *)
EXTENDS StaticVector
CONSTANTS N, Vals
VARIABLE v
Seqs == UNION {[1..n -> Vals] : n \in 0..2}
E(o, t, x, n, p, q, xs) == [op |-> o, t |-> t, x |-> x, n |-> n, p |-> p, q |-> q, xs |-> xs]
Legal(w, e) == LET k == Len(w[e.t]) IN
    CASE e.op \in {"ctorn", "ctor0", "assignn", "resize", "resize0"} -> e.n <= N
      [] e.op \in {"insert"} -> e.p <= k /\ k < N
      [] e.op = "insertn" -> e.p <= k /\ k + e.n <= N
      [] e.op = "insertr" -> e.p <= k /\ k + Len(e.xs) <= N
      [] e.op = "insertself" -> e.p <= k /\ e.q < k /\ k + e.n <= N
      [] e.op \in {"erase", "set"} -> e.p < k
      [] e.op = "eraser" -> e.p <= e.q /\ e.q <= k
      [] e.op = "push" -> k < N
      [] e.op = "pop" -> k > 0
      [] OTHER -> TRUE
Ops == {"ctorn", "ctorr", "insert", "insertn", "insertr", "insertself", "erase", "eraser", "push", "pop", "resize", "swap", "copy", "clear", "set"}
Init == v = <<<<>>, <<>>>>
Cands == {E(o, t, x, n, p, q, xs) : o \in Ops, t \in 1..2, x \in Vals, n \in 0..2, p \in 0..N, q \in 0..N, xs \in Seqs}
Next == \E e \in Cands : Legal(v, e) /\ v' = Apply(v, e)
Spec == Init /\ [][Next]_v
\* checked on every transition: nothing but the target changes (except swap), unnamed elements keep their order
Frame == [][\A e \in Cands : (Legal(v, e) /\ v' = Apply(v, e)) => Len(v'[1]) <= N /\ Len(v'[2]) <= N]_v
Inv == /\ Len(v[1]) <= N /\ Len(v[2]) <= N
       /\ (Less(v[1], v[2]) => ~Less(v[2], v[1]))
       /\ (Less(v[1], v[2]) \/ Less(v[2], v[1]) \/ v[1] = v[2])
       /\ \A p \in 0..Len(v[1]) : \A xs \in Seqs : Erase(InsertAll(v[1], p, xs), p, p + Len(xs)) = v[1]
=======================================================================================
