------------------------------------ MODULE Forest ------------------------------------
(* Ordered forests: what wordring::tree, the traversal adapters and tag_tree represent.   *)
(* A forest is a sequence of nodes [v |-> value, c |-> forest of children].               *)
(* A position is a path: <<i1, .., ik>> is the ik-th place in the child list of the node  *)
(* <<i1, .., ik-1>>; ik may be one past the last child (an end position).   C05 C06 C07   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Node(v) == [v |-> v, c |-> <<>>]

RECURSIVE SizeOf(_), PreOrder(_), Kids(_, _), Put(_, _, _), Del(_, _), Level(_), Serial(_), Depth(_)
\* number of nodes
SizeOf(f) == IF f = <<>> THEN 0 ELSE 1 + SizeOf(Head(f).c) + SizeOf(Tail(f))
\* values, parents first, siblings in order
PreOrder(f) == IF f = <<>> THEN <<>> ELSE <<Head(f).v>> \o PreOrder(Head(f).c) \o PreOrder(Tail(f))
\* child list of the node at path p (<<>> = the roots)
Kids(f, p) == IF p = <<>> THEN f ELSE Kids(f[Head(p)].c, Tail(p))
Get(f, p)  == Kids(f, SubSeq(p, 1, Len(p) - 1))[p[Len(p)]]
Parent(p)  == SubSeq(p, 1, Len(p) - 1)
\* n placed before position p
Put(f, p, n) == IF Len(p) = 1 THEN SubSeq(f, 1, p[1] - 1) \o <<n>> \o SubSeq(f, p[1], Len(f))
                ELSE [f EXCEPT ![p[1]].c = Put(@, Tail(p), n)]
\* the subtree at p removed
Del(f, p) == IF Len(p) = 1 THEN SubSeq(f, 1, p[1] - 1) \o SubSeq(f, p[1] + 1, Len(f))
             ELSE [f EXCEPT ![p[1]].c = Del(@, Tail(p))]

Under(p, a) == Len(a) <= Len(p) /\ SubSeq(p, 1, Len(a)) = a    \* p is a or inside a's subtree
\* where q points after something was inserted at / removed from p
AfterPut(q, p) == LET k == Len(p) IN
    IF Len(q) >= k /\ SubSeq(q, 1, k - 1) = SubSeq(p, 1, k - 1) /\ q[k] >= p[k] THEN [q EXCEPT ![k] = @ + 1] ELSE q
AfterDel(q, p) == LET k == Len(p) IN
    IF Len(q) >= k /\ SubSeq(q, 1, k - 1) = SubSeq(p, 1, k - 1) /\ q[k] > p[k] THEN [q EXCEPT ![k] = @ - 1] ELSE q

CanMove(p, s) == ~Under(p, s)
Move(f, p, s) == Del(Put(f, p, Get(f, s)), AfterPut(s, p))
MoveRet(p, s) == AfterDel(p, AfterPut(s, p))

\* breadth first: the values of a list of subtrees, level by level
Level(f) == IF f = <<>> THEN <<>> ELSE <<Head(f).v>> \o Level(Tail(f) \o Head(f).c)
\* start and end tags: positive = start, negative = end
Serial(f) == IF f = <<>> THEN <<>> ELSE <<Head(f).v>> \o Serial(Head(f).c) \o <<-Head(f).v>> \o Serial(Tail(f))
\* tag trees: values with an even number are single nodes (text when divisible by four, else comment), which have one tag
Single(v) == v % 2 = 0
RECURSIVE Tags(_), Chars(_)
Tags(f) == IF f = <<>> THEN <<>>
           ELSE (IF Single(Head(f).v) THEN <<Head(f).v>> ELSE <<Head(f).v>> \o Tags(Head(f).c) \o <<-Head(f).v>>) \o Tags(Tail(f))
\* the characters of the text nodes: v is a text of 1 + (v \div 4) % 3 characters
Chars(f) == IF f = <<>> THEN <<>>
            ELSE (IF Head(f).v % 4 = 0 THEN [i \in 1..(1 + ((Head(f).v \div 4) % 3)) |-> Head(f).v] ELSE Chars(Head(f).c)) \o Chars(Tail(f))
Depth(f) == IF f = <<>> THEN 0 ELSE LET a == 1 + Depth(Head(f).c) b == Depth(Tail(f)) IN IF a > b THEN a ELSE b

\* a node made the parent of the n siblings starting at p
Wrap(f, p, n, v) == LET pp == Parent(p) ks == Kids(f, pp) i == p[Len(p)]
                        new == SubSeq(ks, 1, i - 1) \o <<[v |-> v, c |-> SubSeq(ks, i, i + n - 1)]>> \o SubSeq(ks, i + n, Len(ks))
                        RECURSIVE Rep(_, _)
                        Rep(g, q) == IF q = <<>> THEN new ELSE [g EXCEPT ![Head(q)].c = Rep(@, Tail(q))]
                    IN Rep(f, pp)

\* ---- many nodes: 0 is the root, i is a child of (i - 1) \div b.  ks[i + 1] = the children of i ----
Heap(n, b) == [i \in 1..n |-> IF n = 1 \/ i - 1 > (n - 2) \div b THEN <<>>
                               ELSE [j \in 1..(IF i > (n - 1) \div b THEN n - 1 - (i - 1) * b ELSE b) |-> (i - 1) * b + j]]
HeapPar(i, b) == (i - 1) \div b
HeapMove(ks, b, x) == LET p == HeapPar(x, b) + 1 keep(y) == y # x
                          r == [ks EXCEPT ![p] = SelectSeq(@, keep)] IN [r EXCEPT ![1] = Append(@, x)]
HeapErase(ks, b, x, y) == LET p == (IF y = x THEN 0 ELSE HeapPar(y, b)) + 1 keep(z) == z # y IN [ks EXCEPT ![p] = SelectSeq(@, keep)]
\* m nodes n, n + 1, ..: the even ones at the end of the root's children, the odd ones at the beginning
HeapAdd(ks, n, m) == LET new == [i \in 1..m |-> n + i - 1] odd(v) == (v - n) % 2 = 1 even(v) == (v - n) % 2 = 0 IN
    [i \in 1..(n + m) |-> IF i = 1 THEN Reverse(SelectSeq(new, odd)) \o ks[1] \o SelectSeq(new, even) ELSE IF i <= n THEN ks[i] ELSE <<>>]
\* (long sequences are put together by halving, so that they stay cheap)
RECURSIVE HeapPre(_, _), PreSpan(_, _, _, _), HeapBack(_, _), BackSpan(_, _, _, _), LevSpan(_, _, _, _), HeapTree(_, _)
HeapPre(ks, i) == LET c == ks[i + 1] IN IF c = <<>> THEN <<i>> ELSE <<i>> \o PreSpan(ks, c, 1, Len(c))
PreSpan(ks, c, a, b) == IF a = b THEN HeapPre(ks, c[a]) ELSE LET h == (a + b) \div 2 IN PreSpan(ks, c, a, h) \o PreSpan(ks, c, h + 1, b)
HeapBack(ks, i) == LET c == ks[i + 1] IN IF c = <<>> THEN <<i>> ELSE <<i>> \o BackSpan(ks, c, 1, Len(c))
BackSpan(ks, c, a, b) == IF a = b THEN HeapBack(ks, c[a]) ELSE LET h == (a + b) \div 2 IN BackSpan(ks, c, h + 1, b) \o BackSpan(ks, c, a, h)
LevSpan(ks, lev, a, b) == IF a = b THEN ks[lev[a] + 1] ELSE LET h == (a + b) \div 2 IN LevSpan(ks, lev, a, h) \o LevSpan(ks, lev, h + 1, b)
HeapTree(ks, i) == [v |-> i, c |-> [j \in 1..Len(ks[i + 1]) |-> HeapTree(ks, ks[i + 1][j])]]
HeapLev(ks, lev) == lev # <<>> /\ lev[1] = 0 /\ Tail(lev) = LevSpan(ks, lev, 1, Len(lev))
HeapSeen(ks, o) == o.pre = HeapPre(ks, 0) /\ o.back = HeapBack(ks, 0) /\ o.size = Len(o.pre) /\ HeapLev(ks, o.lev)
=======================================================================================
