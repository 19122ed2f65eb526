---------------------------------- MODULE StaticVector ----------------------------------
(* A vector of fixed capacity is a sequence that never grows beyond it.  Positions are     *)
(* 0-based as in the code.  Two vectors a, b of the same type; an operation names its      *)
(* target t (1 or 2).                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Rep(n, x) == [i \in 1..n |-> x]
InsertAll(s, p, xs) == SubSeq(s, 1, p) \o xs \o SubSeq(s, p + 1, Len(s))
Erase(s, p, q) == SubSeq(s, 1, p) \o SubSeq(s, q + 1, Len(s))
Resize(s, n, x) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o Rep(n - Len(s), x)
RECURSIVE Less(_, _)
Less(s, t) == IF t = <<>> THEN FALSE ELSE IF s = <<>> THEN TRUE
              ELSE IF s[1] < t[1] THEN TRUE ELSE IF t[1] < s[1] THEN FALSE ELSE Less(Tail(s), Tail(t))
\* the target after operation e on the pair v
Target(v, e) ==
    LET s == v[e.t] o == v[3 - e.t] IN
    CASE e.op \in {"ctorn", "assignn"}          -> Rep(e.n, e.x)
      [] e.op = "ctor0"                         -> Rep(e.n, 0)
      [] e.op \in {"ctorr", "ctori", "assignr", "assigni", "seti"} -> e.xs
      [] e.op \in {"insert", "insertm"}         -> InsertAll(s, e.p, <<e.x>>)
      [] e.op = "insertn"                       -> InsertAll(s, e.p, Rep(e.n, e.x))
      [] e.op \in {"insertr", "inserti"}        -> InsertAll(s, e.p, e.xs)
      [] e.op = "insertself"                    -> InsertAll(s, e.p, Rep(e.n, s[e.q + 1]))
      [] e.op = "erase"                         -> Erase(s, e.p, e.p + 1)
      [] e.op = "eraser"                        -> Erase(s, e.p, e.q)
      [] e.op \in {"push", "pushm"}             -> Append(s, e.x)
      [] e.op = "pushself"                      -> Append(s, s[e.q + 1])
      [] e.op = "pop"                           -> Front(s)
      [] e.op = "resize0"                       -> Resize(s, e.n, 0)
      [] e.op = "resize"                        -> Resize(s, e.n, e.x)
      [] e.op \in {"swap", "copy", "ctorc"}     -> o
      [] e.op = "clear"                         -> <<>>
      [] e.op = "set"                           -> [s EXCEPT ![e.p + 1] = e.x]
      [] OTHER                                  -> s        \* look, move there and back
Other(v, e) == IF e.op = "swap" THEN v[e.t] ELSE v[3 - e.t]
Apply(v, e) == IF e.t = 1 THEN <<Target(v, e), Other(v, e)>> ELSE <<Other(v, e), Target(v, e)>>
\* position the call returns (-1: none)
Ret(e) == IF e.op \in {"insert", "insertm", "insertn", "insertr", "inserti", "insertself", "erase", "eraser"} THEN e.p ELSE -1
==========================================================================================
