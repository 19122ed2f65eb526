----------------------------- MODULE EncodingMC -----------------------------
(* Exhaustive small model of streaming decoding: bytes arrive one at a time and are consumed one at a time in any
   interleaving, the decoder suspends on an empty queue, and the end of the queue arrives last.  Whatever the schedule,
   the text is the text of the whole input; for the Unicode encodings it is also the text an independent, declarative
   definition of maximal ill-formed subsequences gives. *)
EXTENDS Encoding
CONSTANTS N
VARIABLES e, s, queue, back, out, hist, eof, done
vars == <<e, s, queue, back, out, hist, eof, done>>

Alphabet == (UTF8 :> {97, 128, 160, 195, 224, 237, 240, 244, 255}) @@ (UTF16BE :> {0, 97, 216, 220, 223}) @@ (UTF16LE :> {0, 97, 216, 220, 223})
  @@ (GB18030 :> {48, 64, 129, 254, 127}) @@ (BIG5 :> {64, 98, 129, 136, 164, 255}) @@ (EUCJP :> {65, 142, 143, 161, 176, 254})
  @@ (ISO2022JP :> {27, 36, 40, 66, 74, 73}) @@ (SJIS :> {64, 129, 128, 160, 177, 240}) @@ (EUCKR :> {65, 129, 197, 254, 128}) @@ (REPL :> {65, 200})

Init == /\ e \in DOMAIN Alphabet /\ s = DecInit(e) /\ queue = <<>> /\ back = <<>> /\ out = <<>> /\ hist = <<>> /\ eof = FALSE /\ done = FALSE
Max == IF e = UTF8 THEN N ELSE N + 1
Feed == /\ ~eof /\ Len(hist) < Max
        /\ \E b \in Alphabet[e] : queue' = Append(queue, b) /\ hist' = Append(hist, b)
        /\ UNCHANGED <<e, s, back, out, eof, done>>
Eof == /\ ~eof /\ eof' = TRUE /\ UNCHANGED <<e, s, queue, back, out, hist, done>>
Step == /\ ~done
        /\ back # <<>> \/ queue # <<>> \/ eof
        /\ LET x == IF back # <<>> THEN Head(back) ELSE IF queue # <<>> THEN Head(queue) ELSE EOQ
               r == Dec(e, s, x)
           IN /\ s' = r.s /\ out' = out \o r.o /\ done' = r.fin
              /\ back' = r.back \o (IF back # <<>> THEN Tail(back) ELSE <<>>)
              /\ queue' = IF back = <<>> /\ queue # <<>> THEN Tail(queue) ELSE queue
        /\ UNCHANGED <<e, hist, eof>>
Next == Feed \/ Eof \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(Eof)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Schedule == /\ eof => IsPrefixOf(out, Whole(e, hist))
            /\ (done /\ eof /\ e # REPL) => (out = Whole(e, hist) /\ queue = <<>> /\ back = <<>>)
(* what has been decoded plus what decoding the rest of the input from here would give *)
Continuation == ~done => out \o Run(e, s, back \o queue, 1, TRUE, <<>>, <<>>).o = Whole(e, hist)
Scalar == \A i \in 1..Len(out) : out[i] = ERR \/ In(out[i], 0, 55295) \/ In(out[i], 57344, 1114111)

(* UTF-8 by well-formedness (Unicode table 3-7): at each position the longest well-formed character, otherwise an error
   for the longest proper prefix of some well-formed character, or for one byte *)
WF(q) == CASE Len(q) = 1 -> q[1] <= 127
           [] Len(q) = 2 -> In(q[1], 194, 223) /\ In(q[2], 128, 191)
           [] Len(q) = 3 -> /\ In(q[1], 224, 239) /\ In(q[3], 128, 191)
                            /\ In(q[2], IF q[1] = 224 THEN 160 ELSE 128, IF q[1] = 237 THEN 159 ELSE 191)
           [] Len(q) = 4 -> /\ In(q[1], 240, 244) /\ In(q[3], 128, 191) /\ In(q[4], 128, 191)
                            /\ In(q[2], IF q[1] = 240 THEN 144 ELSE 128, IF q[1] = 244 THEN 143 ELSE 191)
           [] OTHER -> FALSE
Fill == <<<<>>, <<128>>, <<191>>, <<144>>, <<143>>, <<159>>, <<160>>>>
PrefixWF(q) == \E k \in 2..4 : k > Len(q) /\ \E a \in {128, 143, 144, 159, 160, 191} : WF([i \in 1..k |-> IF i <= Len(q) THEN q[i] ELSE IF i = Len(q) + 1 THEN a ELSE 128])
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
Value(q) == CASE Len(q) = 1 -> q[1] [] Len(q) = 2 -> (q[1] - 192) * 64 + q[2] - 128
              [] Len(q) = 3 -> (q[1] - 224) * 4096 + (q[2] - 128) * 64 + q[3] - 128
              [] OTHER -> (q[1] - 240) * 262144 + (q[2] - 128) * 4096 + (q[3] - 128) * 64 + q[4] - 128
RECURSIVE Maximal(_)
Maximal(q) ==
  IF q = <<>> THEN <<>>
  ELSE LET W == {k \in 1..4 : k <= Len(q) /\ WF(SubSeq(q, 1, k))}
           P == {k \in 1..3 : k <= Len(q) /\ PrefixWF(SubSeq(q, 1, k))}
       IN IF W # {} THEN LET k == MaxSet(W) IN <<Value(SubSeq(q, 1, k))>> \o Maximal(SubSeq(q, k + 1, Len(q)))
          ELSE LET k == IF P = {} THEN 1 ELSE MaxSet(P) IN <<ERR>> \o Maximal(SubSeq(q, k + 1, Len(q)))
Declarative == (e = UTF8 /\ done) => out = Maximal(hist)
Ends == <>done

(* the indexes: the reverse tables invert the forward ones and give the first (Big5: for six code points the last) pointer *)
Inverts(ix, pages, ok(_), last) ==
  /\ \A p \in 0..(Len(ix) - 1) : (ix[p + 1] # -1 /\ ok(p)) =>
       LET r == Ptr(pages, ix[p + 1]) IN r # -1 /\ ok(r) /\ ix[r + 1] = ix[p + 1] /\ (IF ix[p + 1] \in last THEN p <= r ELSE r <= p)
  /\ \A k \in 1..Len(pages) : \A i \in 1..Len(pages[k]) : pages[k][i] # -1 => ix[pages[k][i] + 1] = (k - 1) * 256 + i - 1
AnyP(p) == TRUE
NotSjis(p) == ~In(p, 8272, 8835)
NotBig5(p) == p >= 32 * 157
ASSUME Inverts(Idx.jis0208, Rev.jis0208, AnyP, {}) /\ Inverts(Idx.jis0208, Rev.Shift_JIS, NotSjis, {})
ASSUME Inverts(Idx.gb18030, Rev.gb18030, AnyP, {}) /\ Inverts(Idx.euc_kr, Rev.euc_kr, AnyP, {})
ASSUME Inverts(Idx.big5, Rev.big5, NotBig5, {9552, 9566, 9569, 9578, 21313, 21317})
ASSUME \A i \in 1..(Len(Ranges) - 1) : Ranges[i][1] < Ranges[i + 1][1] /\ Ranges[i][2] < Ranges[i + 1][2]

(* decoding what was encoded gives the text back, for samples of scalar values spread over all planes *)
Sample == {0, 65, 92, 126, 127, 128, 165, 167, 255, 256, 931, 8254, 8364, 12288, 12354, 20124, 40869, 44032, 55203, 57344, 58853, 59335, 63423, 65377, 65439, 65533, 65535, 65536, 131072, 173568, 1114111}
OneWay(enc, c) == (enc \in {EUCJP, SJIS} /\ c \in {165, 8254, 8722}) \/ (enc = ISO2022JP /\ (c = 8722 \/ In(c, 65377, 65439)))
ASSUME \A enc \in Encoders : \A c \in Sample : \A d \in {65, 92, c} :
  LET r == EncFatal(enc, ASCII, <<c, d, c>>, 1, <<>>) IN
  (r.cp = -1 /\ ~OneWay(enc, c)) => Whole(enc, r.b) = <<c, d, c>>
=============================================================================
