------------------------------- MODULE StaticVectorTrace -------------------------------
EXTENDS StaticVector, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES v, l, bad
\* e.v: for both vectors the element sequence seen through each way of reading it
Seen(s, o) == /\ \A k \in 1..Len(o.fwd) : o.fwd[k] = s
              /\ \A k \in 1..Len(o.bwd) : o.bwd[k] = Reverse(s)
              /\ o.size = Len(s) /\ o.empty = (s = <<>>) /\ o.ra
              /\ o.at = [i \in 1..(o.cap + 2) |-> IF i <= Len(s) THEN s[i] ELSE -1]      \* -1: at() threw out_of_range
              /\ (s # <<>> => o.front = s[1] /\ o.back = Last(s))
Rel(s, t) == <<s = t, s # t, Less(s, t), ~Less(t, s), Less(t, s), ~Less(s, t)>>
Known == {"ctorn", "ctor0", "ctorr", "ctori", "ctorc", "assignn", "assignr", "assigni", "seti", "insert", "insertm", "insertn", "insertr",
          "inserti", "insertself", "erase", "eraser", "push", "pushm", "pushself", "pop", "resize0", "resize", "swap", "copy", "clear",
          "set", "move", "look"}
Ok(w, e) == /\ e.op \in Known
            /\ LET u == Apply(w, e) IN
               /\ Seen(u[1], e.a) /\ Seen(u[2], e.b) /\ e.ret = Ret(e)
               /\ e.a.cap = e.cap /\ e.b.cap = e.cap
               /\ e.rel = Rel(u[1], u[2]) /\ e.rer = Rel(u[2], u[1])
TraceInit == v = <<<<>>, <<>>>> /\ l = 1 /\ bad = FALSE
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                IF e.op = "reset" THEN v' = <<<<>>, <<>>>> /\ bad' = FALSE
                ELSE IF bad THEN UNCHANGED <<v, bad>>
                ELSE IF Ok(v, e) THEN v' = Apply(v, e) /\ bad' = FALSE
                ELSE /\ PrintT("REJECT " \o ToString(e.c) \o " op=" \o e.op \o " line=" \o ToString(l) \o " before: " \o ToString(v))
                     /\ bad' = TRUE /\ UNCHANGED v
TraceSpec == TraceInit /\ [][TraceNext]_<<v, l, bad>>
=======================================================================================
