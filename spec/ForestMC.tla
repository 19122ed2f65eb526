----------------------------------- MODULE ForestMC -----------------------------------
(* every forest of up to MaxNodes nodes reachable by the editing operations; at each one  *)
(* the operations are checked against their meaning at every position                     *)
EXTENDS Forest
CONSTANTS MaxNodes, Values
VARIABLE f

RECURSIVE Nodes(_, _, _)
\* paths of all nodes
Nodes(g, pre, i) == IF i > Len(g) THEN {} ELSE {Append(pre, i)} \cup Nodes(g[i].c, Append(pre, i), 1) \cup Nodes(g, pre, i + 1)
AllNodes(g) == Nodes(g, <<>>, 1)
AllPos(g) == AllNodes(g) \cup {Append(p, Len(Kids(g, p)) + 1) : p \in AllNodes(g) \cup {<<>>}}

Init == f = <<>>
Next == \/ \E p \in AllPos(f), v \in Values : SizeOf(f) < MaxNodes /\ f' = Put(f, p, Node(v))
        \/ \E p \in AllPos(f), s \in AllNodes(f) : SizeOf(f) + SizeOf(<<Get(f, s)>>) <= MaxNodes /\ f' = Put(f, p, Get(f, s))
        \/ \E s \in AllNodes(f) : f' = Del(f, s)
        \/ \E p \in AllPos(f), s \in AllNodes(f) : CanMove(p, s) /\ f' = Move(f, p, s)
        \/ \E p \in AllNodes(f), v \in Values : SizeOf(f) < MaxNodes /\ f' = Wrap(f, p, 1, v)
Spec == Init /\ [][Next]_f

Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SameBag(s, t) == \A v \in Values : Count(s, v) = Count(t, v)
Balanced(s) == \A i \in 1..Len(s) : s[i] > 0 =>
                 \E j \in i + 1..Len(s) : s[j] = -s[i]
Inv == /\ SizeOf(f) = Len(PreOrder(f)) /\ SizeOf(f) = Cardinality(AllNodes(f))
       /\ SameBag(PreOrder(f), Level(f)) /\ Len(Serial(f)) = 2 * SizeOf(f) /\ Balanced(Serial(f))
       /\ SelectSeq(Serial(f), LAMBDA x : x > 0) = PreOrder(f)
       /\ \A p \in AllPos(f), v \in Values : LET g == Put(f, p, Node(v)) IN SizeOf(g) = SizeOf(f) + 1 /\ Get(g, p) = Node(v) /\ Del(g, p) = f
       /\ \A s \in AllNodes(f) : SizeOf(Del(f, s)) + SizeOf(<<Get(f, s)>>) = SizeOf(f)
       /\ \A p \in AllPos(f), s \in AllNodes(f) : CanMove(p, s) =>
             LET g == Move(f, p, s) IN SameBag(PreOrder(g), PreOrder(f)) /\ SizeOf(g) = SizeOf(f) /\ Get(g, MoveRet(p, s)) = Get(f, s)
       /\ \A p \in AllNodes(f), v \in Values : LET g == Wrap(f, p, 1, v) IN
             SizeOf(g) = SizeOf(f) + 1 /\ Get(g, p).v = v /\ Get(g, p).c = <<Get(f, p)>>
\* the same operations on trees given by their child lists, with which large trees are judged, agree with those on forests
RECURSIVE HeapPath(_, _)
HeapPath(i, b) == IF i = 0 THEN <<1>> ELSE Append(HeapPath(HeapPar(i, b), b), ((i - 1) % b) + 1)
AddTo(g, n, m) == LET one(h, i) == Put(h, <<1, IF (i - n) % 2 = 1 THEN 1 ELSE Len(h[1].c) + 1>>, Node(i)) IN FoldLeft(one, g, [i \in 1..m |-> n + i - 1])
HeapLemma(n, b, x, y, m) ==
    LET k0 == Heap(n, b) k1 == HeapMove(k0, b, x) k2 == HeapErase(k1, b, x, y) k3 == HeapAdd(k2, n, m)
        g0 == <<HeapTree(k0, 0)>> end == <<1, Len(g0[1].c) + 1>>
        g1 == Move(g0, end, HeapPath(x, b))
        at == CHOOSE q \in AllNodes(g1) : Get(g1, q).v = y
        g2 == Del(g1, at) g3 == AddTo(g2, n, m)
    IN /\ SizeOf(g0) = n /\ Level(g0) = [i \in 1..n |-> i - 1]
       /\ \A i \in 0..(n - 1) : Get(g0, HeapPath(i, b)).v = i
       /\ HeapTree(k1, 0) = g1[1] /\ HeapTree(k2, 0) = g2[1] /\ HeapTree(k3, 0) = g3[1]
       /\ \A p \in {<<k0, g0>>, <<k1, g1>>, <<k2, g2>>, <<k3, g3>>} : HeapPre(p[1], 0) = PreOrder(p[2]) /\ HeapLev(p[1], Level(p[2])) /\ Len(HeapBack(p[1], 0)) = SizeOf(p[2])
       /\ \A p \in {<<k0, g0>>, <<k3, g3>>} : ~HeapLev(p[1], Append(Level(p[2]), 0)) /\ ~HeapLev(p[1], Front(Level(p[2]))) /\ ~HeapLev(p[1], Tail(Level(p[2])))
ASSUME \A n \in 2..6, b \in 1..4, m \in 0..3 : \A x \in 1..(n - 1), y \in 1..(n - 1) : HeapLemma(n, b, x, y, m)
=======================================================================================
