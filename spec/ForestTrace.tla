---------------------------------- MODULE ForestTrace ----------------------------------
EXTENDS Forest, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES f, l, bad

\* forest after event e (expected)
Post(g, e) ==
    CASE e.op \in {"insert", "emplace"} -> Put(g, e.pos, Node(e.v))
      [] e.op = "copy"   -> Put(g, e.pos, Get(g, e.sub))
      [] e.op = "graft"  -> Put(g, e.pos, e.tree)
      [] e.op = "move"   -> IF CanMove(e.pos, e.sub) THEN Move(g, e.pos, e.sub) ELSE g
      [] e.op = "erase"  -> Del(g, e.pos)
      [] e.op = "assign" -> <<Node(e.v)>>
      [] e.op = "clear"  -> <<>>
      [] e.op = "set"    -> Del(Put(g, e.pos, [v |-> e.v, c |-> Get(g, e.pos).c]), AfterPut(e.pos, e.pos))
      [] e.op = "wrap"   -> Wrap(g, e.pos, e.n, e.v)
      [] OTHER           -> g
Ret(g, e) ==
    CASE e.op = "move" -> IF CanMove(e.pos, e.sub) THEN MoveRet(e.pos, e.sub) ELSE <<>>
      [] e.op \in {"assign", "clear", "dup"} -> <<>>
      [] OTHER -> e.pos
\* what must be seen of forest g
Seen(g, e) == /\ e.forest = g /\ e.back = g /\ e.nav
              /\ e.size = SizeOf(g) /\ e.empty = (g = <<>>) /\ e.front = (IF g = <<>> THEN 0 ELSE g[1].v)
SeenTags(g, e) == e.forest = g /\ e.back = g /\ e.nav /\ e.fwd = Tags(g) /\ e.bwd = Reverse(Tags(g)) /\ e.tags
                  /\ e.size = SizeOf(g) /\ e.empty = (g = <<>>) /\ e.chars = Chars(g) /\ e.rchars = Reverse(Chars(g))
Walk(g, e) == LET s == <<Get(g, e.pos)>> IN
    e.pre = PreOrder(s) /\ e.post = PreOrder(s) /\ e.lev = Level(s) /\ e.lpost = Level(s) /\ e.n = SizeOf(s)
    /\ e.rpre = Tail(PreOrder(s)) /\ e.rlev = Tail(Level(s)) /\ e.eq
\* writing a character through an iterator changes that character of the text and no other
Write(g, e) == LET c == [Chars(g) EXCEPT ![e.k] = e.ch] IN e.chars = c /\ e.data = c
Ok(g, e) ==
    CASE e.op = "walk" -> Walk(g, e)
      [] e.op = "write" -> Write(g, e)
      [] e.op = "bulk" -> LET k0 == Heap(e.n, e.b) k1 == HeapMove(k0, e.b, e.x) k2 == HeapErase(k1, e.b, e.x, e.y) k3 == HeapAdd(k2, e.n, e.m) IN
            HeapSeen(k0, e.built) /\ HeapSeen(k1, e.moved) /\ HeapSeen(k2, e.erased) /\ HeapSeen(k3, e.added) /\ HeapSeen(k3, e.copied) /\ e.clear
      [] e.op \in {"insert", "emplace", "copy", "graft", "move", "erase", "assign", "clear", "set", "dup", "wrap"} ->
            /\ (IF "fwd" \in DOMAIN e THEN SeenTags(Post(g, e), e) ELSE Seen(Post(g, e), e))
            /\ e.ret = Ret(g, e)
            /\ e.threw = (e.op = "move" /\ ~CanMove(e.pos, e.sub))
      [] OTHER -> FALSE

TraceInit == f = <<>> /\ l = 1 /\ bad = FALSE
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                IF e.op = "reset" THEN f' = <<>> /\ bad' = FALSE
                ELSE IF bad THEN UNCHANGED <<f, bad>>
                ELSE IF Ok(f, e) THEN f' = Post(f, e) /\ bad' = FALSE
                ELSE /\ PrintT("REJECT " \o ToString(e.c) \o " op=" \o e.op \o " line=" \o ToString(l) \o " before: " \o ToString(f))
                     /\ bad' = TRUE /\ UNCHANGED f
TraceSpec == TraceInit /\ [][TraceNext]_<<f, l, bad>>
=======================================================================================
