------------------------------ MODULE Encoding ------------------------------
(* The Encoding Standard's decoders and encoders as state machines over one item of input at a time (a byte / a code
   point, or the end of the queue), transcribed from the Standard, not from the library.  Encodings are the numbers of
   wordring's encoding_name.  A decoder state is a tuple whose meaning belongs to the encoding; a step gives the new
   state, the code points (-1 is an error) it emits, the items it puts back in front of the queue, and whether it
   finished. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.SPECDATA \o "/enc.json")
Idx == Data.idx
Rev == Data.rev
Single == Data.single
Ranges == Data.ranges

EOQ == -1
ERR == -1
UTF8 == 1  GBK == 30  GB18030 == 31  BIG5 == 32  EUCJP == 33  ISO2022JP == 34  SJIS == 35  EUCKR == 36
REPL == 37  UTF16BE == 38  UTF16LE == 39  XUSER == 40
SINGLES == 2..29
Encodings == 1..40
Encoders == Encodings \ {REPL, UTF16BE, UTF16LE}

In(x, a, b) == a <= x /\ x <= b
At(ix, p) == IF p >= 0 /\ p < Len(ix) THEN ix[p + 1] ELSE -1          \* index code point, -1 = null
Ptr(pages, cp) == LET k == (cp \div 256) + 1 IN                         \* index pointer, -1 = null
  IF k > Len(pages) THEN -1 ELSE IF Len(pages[k]) = 0 THEN -1 ELSE pages[k][(cp % 256) + 1]

R(s, o, b, f) == [s |-> s, o |-> o, back |-> b, fin |-> f]
Cont(s) == R(s, <<>>, <<>>, FALSE)
Out(s, c) == R(s, <<c>>, <<>>, FALSE)
Err(s) == R(s, <<ERR>>, <<>>, FALSE)
ErrBack(s, b) == R(s, <<ERR>>, b, FALSE)
Fin(s) == R(s, <<>>, <<>>, TRUE)
(* a code point, or an error that gives an ASCII byte back *)
CpOr(s, cp, x) == IF cp # -1 THEN Out(s, cp) ELSE IF x <= 127 THEN ErrBack(s, <<x>>) ELSE Err(s)

------------------------------------------------------------------------------------------------------------------
(* decoders *)
\* UTF-8: <<code point, bytes seen, bytes needed, lower, upper>>
U8I == <<0, 0, 0, 128, 191>>
DecUTF8(s, x) ==
  IF x = EOQ THEN IF s[3] # 0 THEN Err(U8I) ELSE Fin(U8I)
  ELSE IF s[3] = 0 THEN
    CASE x <= 127 -> Out(U8I, x)
      [] In(x, 194, 223) -> Cont(<<x % 32, 0, 1, 128, 191>>)
      [] In(x, 224, 239) -> Cont(<<x % 16, 0, 2, IF x = 224 THEN 160 ELSE 128, IF x = 237 THEN 159 ELSE 191>>)
      [] In(x, 240, 244) -> Cont(<<x % 8, 0, 3, IF x = 240 THEN 144 ELSE 128, IF x = 244 THEN 143 ELSE 191>>)
      [] OTHER -> Err(U8I)
  ELSE IF ~In(x, s[4], s[5]) THEN ErrBack(U8I, <<x>>)
  ELSE LET cp == s[1] * 64 + (x % 64) IN
       IF s[2] + 1 # s[3] THEN Cont(<<cp, s[2] + 1, s[3], 128, 191>>) ELSE Out(U8I, cp)

DecSingle(ix, s, x) ==
  IF x = EOQ THEN Fin(s) ELSE IF x <= 127 THEN Out(s, x)
  ELSE LET c == At(ix, x - 128) IN IF c = -1 THEN Err(s) ELSE Out(s, c)

(* the last range that starts at or below p, in a table of <<pointer, code point>> pairs in increasing order of both *)
RECURSIVE RangeAt(_, _, _, _)
RangeAt(p, k, lo, hi) ==
  IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF Ranges[m][k] <= p THEN RangeAt(p, k, m, hi) ELSE RangeAt(p, k, lo, m - 1)
RangesCodePoint(p) ==
  IF (39419 < p /\ p < 189000) \/ 1237575 < p THEN -1
  ELSE IF p = 7457 THEN 59335
  ELSE LET r == Ranges[RangeAt(p, 1, 1, Len(Ranges))] IN r[2] + (p - r[1])
RangesPointer(cp) ==
  IF cp = 59335 THEN 7457 ELSE LET r == Ranges[RangeAt(cp, 2, 1, Len(Ranges))] IN r[1] + (cp - r[2])

\* gb18030: <<first, second, third>>
GB0 == <<0, 0, 0>>
DecGB(s, x) ==
  IF x = EOQ THEN IF s = GB0 THEN Fin(GB0) ELSE Err(GB0)
  ELSE IF s[3] # 0 THEN
    IF ~In(x, 48, 57) THEN ErrBack(GB0, <<s[2], s[3], x>>)
    ELSE LET cp == RangesCodePoint((s[1] - 129) * 12600 + (s[2] - 48) * 1260 + (s[3] - 129) * 10 + x - 48)
         IN IF cp = -1 THEN Err(GB0) ELSE Out(GB0, cp)
  ELSE IF s[2] # 0 THEN
    IF In(x, 129, 254) THEN Cont(<<s[1], s[2], x>>) ELSE ErrBack(GB0, <<s[2], x>>)
  ELSE IF s[1] # 0 THEN
    IF In(x, 48, 57) THEN Cont(<<s[1], x, 0>>)
    ELSE LET off == IF x < 127 THEN 64 ELSE 65
             p == IF In(x, 64, 126) \/ In(x, 128, 254) THEN (s[1] - 129) * 190 + (x - off) ELSE -1
         IN CpOr(GB0, IF p = -1 THEN -1 ELSE At(Idx.gb18030, p), x)
  ELSE IF x <= 127 THEN Out(GB0, x)
  ELSE IF x = 128 THEN Out(GB0, 8364)
  ELSE IF In(x, 129, 254) THEN Cont(<<x, 0, 0>>)
  ELSE Err(GB0)

\* Big5, EUC-KR, Shift_JIS: <<lead>>
L0 == <<0>>
DecBig5(s, x) ==
  IF x = EOQ THEN IF s[1] # 0 THEN Err(L0) ELSE Fin(L0)
  ELSE IF s[1] # 0 THEN
    LET off == IF x < 127 THEN 64 ELSE 98
        p == IF In(x, 64, 126) \/ In(x, 161, 254) THEN (s[1] - 129) * 157 + (x - off) ELSE -1
    IN CASE p = 1133 -> R(L0, <<202, 772>>, <<>>, FALSE)
         [] p = 1135 -> R(L0, <<202, 780>>, <<>>, FALSE)
         [] p = 1164 -> R(L0, <<234, 772>>, <<>>, FALSE)
         [] p = 1166 -> R(L0, <<234, 780>>, <<>>, FALSE)
         [] OTHER -> CpOr(L0, IF p = -1 THEN -1 ELSE At(Idx.big5, p), x)
  ELSE IF x <= 127 THEN Out(L0, x) ELSE IF In(x, 129, 254) THEN Cont(<<x>>) ELSE Err(L0)

DecEucKr(s, x) ==
  IF x = EOQ THEN IF s[1] # 0 THEN Err(L0) ELSE Fin(L0)
  ELSE IF s[1] # 0 THEN CpOr(L0, IF In(x, 65, 254) THEN At(Idx.euc_kr, (s[1] - 129) * 190 + (x - 65)) ELSE -1, x)
  ELSE IF x <= 127 THEN Out(L0, x) ELSE IF In(x, 129, 254) THEN Cont(<<x>>) ELSE Err(L0)

DecSjis(s, x) ==
  IF x = EOQ THEN IF s[1] # 0 THEN Err(L0) ELSE Fin(L0)
  ELSE IF s[1] # 0 THEN
    LET off == IF x < 127 THEN 64 ELSE 65
        loff == IF s[1] < 160 THEN 129 ELSE 193
        p == IF In(x, 64, 126) \/ In(x, 128, 252) THEN (s[1] - loff) * 188 + x - off ELSE -1
    IN IF In(p, 8836, 10715) THEN Out(L0, 57344 - 8836 + p)
       ELSE CpOr(L0, IF p = -1 THEN -1 ELSE At(Idx.jis0208, p), x)
  ELSE IF x <= 128 THEN Out(L0, x)
  ELSE IF In(x, 161, 223) THEN Out(L0, 65377 - 161 + x)
  ELSE IF In(x, 129, 159) \/ In(x, 224, 252) THEN Cont(<<x>>) ELSE Err(L0)

\* EUC-JP: <<lead, jis0212>>
EJ0 == <<0, 0>>
DecEucJp(s, x) ==
  IF x = EOQ THEN IF s[1] # 0 THEN Err(EJ0) ELSE Fin(EJ0)
  ELSE IF s[1] = 142 /\ In(x, 161, 223) THEN Out(<<0, s[2]>>, 65377 - 161 + x)
  ELSE IF s[1] = 143 /\ In(x, 161, 254) THEN Cont(<<x, 1>>)
  ELSE IF s[1] # 0 THEN
    LET p == (s[1] - 161) * 94 + x - 161
        cp == IF In(s[1], 161, 254) /\ In(x, 161, 254) THEN (IF s[2] = 1 THEN At(Idx.jis0212, p) ELSE At(Idx.jis0208, p)) ELSE -1
    IN CpOr(EJ0, cp, x)
  ELSE IF x <= 127 THEN Out(s, x)
  ELSE IF x = 142 \/ x = 143 \/ In(x, 161, 254) THEN Cont(<<x, s[2]>>)
  ELSE Err(s)

\* ISO-2022-JP: <<state, output state, lead, output flag>>; states:
ASCII == 0 ROMAN == 1 KATA == 2 LEADB == 3 TRAILB == 4 ESCS == 5 ESC == 6
IJ0 == <<ASCII, ASCII, 0, 0>>
DecIso2022Jp(s, x) ==
  LET To(st) == <<st, s[2], s[3], s[4]>>
      Emit(c) == Out(<<s[1], s[2], s[3], 0>>, c)
      Bad == Err(<<s[1], s[2], s[3], 0>>)
  IN
  CASE s[1] = ASCII ->
         IF x = EOQ THEN Fin(s) ELSE IF x = 27 THEN Cont(To(ESCS)) ELSE IF x <= 127 /\ x # 14 /\ x # 15 THEN Emit(x) ELSE Bad
    [] s[1] = ROMAN ->
         IF x = EOQ THEN Fin(s) ELSE IF x = 27 THEN Cont(To(ESCS)) ELSE IF x = 92 THEN Emit(165) ELSE IF x = 126 THEN Emit(8254)
         ELSE IF x <= 127 /\ x # 14 /\ x # 15 THEN Emit(x) ELSE Bad
    [] s[1] = KATA ->
         IF x = EOQ THEN Fin(s) ELSE IF x = 27 THEN Cont(To(ESCS)) ELSE IF In(x, 33, 95) THEN Emit(65377 - 33 + x) ELSE Bad
    [] s[1] = LEADB ->
         IF x = EOQ THEN Fin(s) ELSE IF x = 27 THEN Cont(To(ESCS)) ELSE IF In(x, 33, 126) THEN Cont(<<TRAILB, s[2], x, 0>>) ELSE Bad
    [] s[1] = TRAILB ->
         IF x = 27 THEN Err(To(ESCS))
         ELSE IF In(x, 33, 126) THEN LET cp == At(Idx.jis0208, (s[3] - 33) * 94 + x - 33) IN IF cp = -1 THEN Err(To(LEADB)) ELSE Out(To(LEADB), cp)
         ELSE Err(To(LEADB))
    [] s[1] = ESCS ->
         IF x = 36 \/ x = 40 THEN Cont(<<ESC, s[2], x, s[4]>>)
         ELSE ErrBack(<<s[2], s[2], s[3], 0>>, IF x = EOQ THEN <<>> ELSE <<x>>)
    [] OTHER ->
         LET st == CASE s[3] = 40 /\ x = 66 -> ASCII [] s[3] = 40 /\ x = 74 -> ROMAN [] s[3] = 40 /\ x = 73 -> KATA
                     [] s[3] = 36 /\ (x = 64 \/ x = 66) -> LEADB [] OTHER -> -1
         IN IF st # -1 THEN IF s[4] = 0 THEN Cont(<<st, st, 0, 1>>) ELSE Err(<<st, st, 0, 1>>)
            ELSE ErrBack(<<s[2], s[2], 0, 0>>, IF x = EOQ THEN <<s[3]>> ELSE <<s[3], x>>)

DecRepl(s, x) == IF x = EOQ THEN Fin(s) ELSE IF s[1] = 0 THEN Err(<<1>>) ELSE Fin(s)

\* UTF-16: <<lead byte or -1, lead surrogate or -1>>
U16I == <<-1, -1>>
DecUTF16(be, s, x) ==
  IF x = EOQ THEN IF s # U16I THEN Err(U16I) ELSE Fin(U16I)
  ELSE IF s[1] = -1 THEN Cont(<<x, s[2]>>)
  ELSE LET u == IF be THEN s[1] * 256 + x ELSE x * 256 + s[1] IN
    IF s[2] # -1 THEN
      IF In(u, 56320, 57343) THEN Out(U16I, 65536 + (s[2] - 55296) * 1024 + (u - 56320))
      ELSE ErrBack(U16I, <<s[1], x>>)
    ELSE IF In(u, 55296, 56319) THEN Cont(<<-1, u>>)
    ELSE IF In(u, 56320, 57343) THEN Err(U16I)
    ELSE Out(U16I, u)

DecUser(s, x) == IF x = EOQ THEN Fin(s) ELSE IF x <= 127 THEN Out(s, x) ELSE Out(s, 63360 + x - 128)

DecInit(e) ==
  CASE e = UTF8 -> U8I [] e \in SINGLES -> <<>> [] e = GBK \/ e = GB18030 -> GB0 [] e \in {BIG5, SJIS, EUCKR, REPL} -> L0
    [] e = EUCJP -> EJ0 [] e = ISO2022JP -> IJ0 [] e = UTF16BE \/ e = UTF16LE -> U16I [] OTHER -> <<>>
Dec(e, s, x) ==
  CASE e = UTF8 -> DecUTF8(s, x) [] e \in SINGLES -> DecSingle(Single[e], s, x) [] e = GBK \/ e = GB18030 -> DecGB(s, x)
    [] e = BIG5 -> DecBig5(s, x) [] e = EUCJP -> DecEucJp(s, x) [] e = ISO2022JP -> DecIso2022Jp(s, x) [] e = SJIS -> DecSjis(s, x)
    [] e = EUCKR -> DecEucKr(s, x) [] e = REPL -> DecRepl(s, x) [] e = UTF16BE -> DecUTF16(TRUE, s, x)
    [] e = UTF16LE -> DecUTF16(FALSE, s, x) [] OTHER -> DecUser(s, x)

(* Consume one chunk q (and, if eof, the end of the queue) from state s.  The answer's fin says whether the decoder
   finished; `back` holds what it had given back and not read again. *)
RECURSIVE Run(_, _, _, _, _, _, _)
Run(e, s, q, i, eof, back, out) ==
  IF back = <<>> /\ i > Len(q) /\ ~eof THEN [s |-> s, o |-> out, fin |-> FALSE]
  ELSE LET x == IF back # <<>> THEN Head(back) ELSE IF i <= Len(q) THEN q[i] ELSE EOQ
           r == Dec(e, s, x)
           b == r.back \o (IF back # <<>> THEN Tail(back) ELSE <<>>)
           j == IF back = <<>> /\ i <= Len(q) THEN i + 1 ELSE i
       IN IF r.fin THEN [s |-> r.s, o |-> out, fin |-> TRUE]
          ELSE Run(e, r.s, q, j, eof, b, out \o r.o)
Chunk(e, s, q) == Run(e, s, q, 1, FALSE, <<>>, <<>>)
Whole(e, q) == Run(e, DecInit(e), q, 1, TRUE, <<>>, <<>>).o
Replace(out) == [i \in 1..Len(out) |-> IF out[i] = ERR THEN 65533 ELSE out[i]]
Text(e, q) == Replace(Whole(e, q))
HasErr(out) == \E i \in 1..Len(out) : out[i] = ERR
UpToErr(out) == IF HasErr(out) THEN SubSeq(out, 1, (CHOOSE i \in 1..Len(out) : out[i] = ERR /\ \A j \in 1..(i - 1) : out[j] # ERR) - 1) ELSE out

------------------------------------------------------------------------------------------------------------------
(* encoders: the state is the ISO-2022-JP mode; an item becomes bytes or an error carrying a code point (cp # -1) *)
B(b) == [s |-> ASCII, b |-> b, cp |-> -1]
E_(c) == [s |-> ASCII, b |-> <<>>, cp |-> c]
EncUTF8(c) ==
  IF c <= 127 THEN <<c>> ELSE IF c <= 2047 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c <= 65535 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
EncSingle(ix, c) ==
  IF c <= 127 THEN B(<<c>>) ELSE LET P == {i \in 1..128 : ix[i] = c} IN
  IF P = {} THEN E_(c) ELSE B(<<(CHOOSE i \in P : \A j \in P : i <= j) + 127>>)
EncGB(gbk, c) ==
  IF c <= 127 THEN B(<<c>>) ELSE IF c = 58853 THEN E_(c) ELSE IF gbk /\ c = 8364 THEN B(<<128>>)
  ELSE LET p == Ptr(Rev.gb18030, c) IN
    IF p # -1 THEN LET t == p % 190 IN B(<<p \div 190 + 129, t + (IF t < 63 THEN 64 ELSE 65)>>)
    ELSE IF gbk THEN E_(c)
    ELSE LET q == RangesPointer(c) IN
      B(<<q \div 12600 + 129, (q % 12600) \div 1260 + 48, (q % 1260) \div 10 + 129, (q % 10) + 48>>)
EncBig5(c) ==
  IF c <= 127 THEN B(<<c>>) ELSE LET p == Ptr(Rev.big5, c) IN
  IF p = -1 THEN E_(c) ELSE LET t == p % 157 IN B(<<p \div 157 + 129, t + (IF t < 63 THEN 64 ELSE 98)>>)
EncEucKr(c) ==
  IF c <= 127 THEN B(<<c>>) ELSE LET p == Ptr(Rev.euc_kr, c) IN
  IF p = -1 THEN E_(c) ELSE B(<<p \div 190 + 129, (p % 190) + 65>>)
EncEucJp(c) ==
  IF c <= 127 THEN B(<<c>>) ELSE IF c = 165 THEN B(<<92>>) ELSE IF c = 8254 THEN B(<<126>>)
  ELSE IF In(c, 65377, 65439) THEN B(<<142, c - 65377 + 161>>)
  ELSE LET p == Ptr(Rev.jis0208, IF c = 8722 THEN 65293 ELSE c) IN
  IF p = -1 THEN E_(c) ELSE B(<<p \div 94 + 161, (p % 94) + 161>>)
EncSjis(c) ==
  IF c <= 128 THEN B(<<c>>) ELSE IF c = 165 THEN B(<<92>>) ELSE IF c = 8254 THEN B(<<126>>)
  ELSE IF In(c, 65377, 65439) THEN B(<<c - 65377 + 161>>)
  ELSE LET p == Ptr(Rev.Shift_JIS, IF c = 8722 THEN 65293 ELSE c) IN
  IF p = -1 THEN E_(c) ELSE LET l == p \div 188  t == p % 188 IN
    B(<<l + (IF l < 31 THEN 129 ELSE 193), t + (IF t < 63 THEN 64 ELSE 65)>>)
EncUser(c) == IF c <= 127 THEN B(<<c>>) ELSE IF In(c, 63360, 63487) THEN B(<<c - 63360 + 128>>) ELSE E_(c)

\* ISO-2022-JP: all steps for one code point together; modes ASCII, ROMAN, LEADB (jis0208)
ToAscii == <<27, 40, 66>>  ToRoman == <<27, 40, 74>>  ToJis == <<27, 36, 66>>
EncIso2022Jp(s, c) ==
  LET S(st, b) == [s |-> st, b |-> b, cp |-> -1]
      Sw(st) == IF s = st THEN <<>> ELSE IF st = ASCII THEN ToAscii ELSE IF st = ROMAN THEN ToRoman ELSE ToJis
      F(st, pre, cc) == [s |-> st, b |-> pre, cp |-> cc]
  IN
  IF c \in {14, 15, 27} THEN IF s = LEADB THEN F(ASCII, ToAscii, 65533) ELSE F(s, <<>>, 65533)
  ELSE IF c <= 127 THEN IF s = ROMAN /\ c # 92 /\ c # 126 THEN S(ROMAN, <<c>>) ELSE S(ASCII, Sw(ASCII) \o <<c>>)
  ELSE IF c = 165 THEN S(ROMAN, Sw(ROMAN) \o <<92>>)
  ELSE IF c = 8254 THEN S(ROMAN, Sw(ROMAN) \o <<126>>)
  ELSE LET d == IF c = 8722 THEN 65293 ELSE IF In(c, 65377, 65439) THEN Idx.iso_2022_jp_katakana[c - 65377 + 1] ELSE c
           p == Ptr(Rev.jis0208, d)
       IN IF p = -1 THEN IF s = LEADB THEN F(ASCII, ToAscii, c) ELSE F(s, <<>>, c)
          ELSE S(LEADB, Sw(LEADB) \o <<p \div 94 + 33, (p % 94) + 33>>)

Enc(e, s, c) ==
  CASE e = UTF8 -> B(EncUTF8(c)) [] e \in SINGLES -> EncSingle(Single[e], c) [] e = GBK -> EncGB(TRUE, c) [] e = GB18030 -> EncGB(FALSE, c)
    [] e = BIG5 -> EncBig5(c) [] e = EUCJP -> EncEucJp(c) [] e = ISO2022JP -> EncIso2022Jp(s, c) [] e = SJIS -> EncSjis(c)
    [] e = EUCKR -> EncEucKr(c) [] OTHER -> EncUser(c)
EncEnd(s) == IF s = ASCII THEN <<>> ELSE ToAscii

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
CharRef(c) == <<38, 35>> \o Digits(c) \o <<59>>

(* html error mode *)
RECURSIVE EncHtml(_, _, _, _, _)
EncHtml(e, s, t, i, out) ==
  IF i > Len(t) THEN out \o EncEnd(s)
  ELSE LET r == Enc(e, s, t[i]) IN EncHtml(e, r.s, t, i + 1, out \o r.b \o (IF r.cp = -1 THEN <<>> ELSE CharRef(r.cp)))
(* fatal mode: the bytes up to the first error, its code point (-1: none) and how many code points were consumed *)
RECURSIVE EncFatal(_, _, _, _, _)
EncFatal(e, s, t, i, out) ==
  IF i > Len(t) THEN [b |-> out \o EncEnd(s), cp |-> -1, n |-> Len(t), s |-> ASCII]
  ELSE LET r == Enc(e, s, t[i]) IN
    IF r.cp = -1 THEN EncFatal(e, r.s, t, i + 1, out \o r.b) ELSE [b |-> out \o r.b, cp |-> r.cp, n |-> i, s |-> r.s]
(* the sequence of encode-or-fail calls a caller makes until the text is used up: <<bytes, error code point>> per call *)
RECURSIVE EncCalls(_, _, _, _)
EncCalls(e, s, t, acc) ==
  LET r == EncFatal(e, s, t, 1, <<>>) IN
  IF r.cp = -1 THEN Append(acc, <<r.b, -1>>) ELSE EncCalls(e, r.s, SubSeq(t, r.n + 1, Len(t)), Append(acc, <<r.b, r.cp>>))

------------------------------------------------------------------------------------------------------------------
(* byte order marks *)
BomOf(q) == IF Len(q) >= 3 /\ SubSeq(q, 1, 3) = <<239, 187, 191>> THEN UTF8
            ELSE IF Len(q) >= 2 /\ SubSeq(q, 1, 2) = <<254, 255>> THEN UTF16BE
            ELSE IF Len(q) >= 2 /\ SubSeq(q, 1, 2) = <<255, 254>> THEN UTF16LE ELSE 0
HookDecode(e, q) == LET b == BomOf(q) IN
  IF b = 0 THEN Text(e, q) ELSE Text(b, SubSeq(q, IF b = UTF8 THEN 4 ELSE 3, Len(q)))
HookUtf8(q) == Text(UTF8, IF BomOf(q) = UTF8 THEN SubSeq(q, 4, Len(q)) ELSE q)

(* labels *)
Lower(c) == IF In(c, 65, 90) THEN c + 32 ELSE c
Space == {9, 10, 12, 13, 32}
Strip(t) == LET K == {i \in 1..Len(t) : t[i] \notin Space} IN
  IF K = {} THEN <<>> ELSE SubSeq(t, CHOOSE i \in K : \A j \in K : i <= j, CHOOSE i \in K : \A j \in K : j <= i)
LabelSet == {Data.labels[i][1] : i \in 1..Len(Data.labels)}
LabelFn == [l \in LabelSet |-> LET i == CHOOSE i \in 1..Len(Data.labels) : Data.labels[i][1] = l IN Data.labels[i][2]]
LabelName(t) == LET s == Strip(t)  k == [i \in 1..Len(s) |-> Lower(s[i])] IN IF k \in LabelSet THEN LabelFn[k] ELSE 0

------------------------------------------------------------------------------------------------------------------
(* TextDecoder: object state [dec, seen, noflush], one call with a chunk *)
Unicode(e) == e \in {UTF8, UTF16BE, UTF16LE}
TdFresh(e) == [s |-> DecInit(e), seen |-> FALSE]
TdCall(e, fatal, ign, st, noflush, q, stream) ==
  LET cur == IF noflush THEN st ELSE TdFresh(e)
      r == Run(e, cur.s, q, 1, ~stream, <<>>, <<>>)
      o == r.o
      drop == Unicode(e) /\ ~ign /\ ~cur.seen /\ Len(o) > 0 /\ o[1] = 65279
      threw == fatal /\ HasErr(o)
  IN [st |-> [s |-> r.s, seen |-> cur.seen \/ (Unicode(e) /\ ~ign /\ Len(o) > 0)], threw |-> threw,
      out |-> IF threw THEN <<>> ELSE Replace(IF drop THEN Tail(o) ELSE o)]
=============================================================================
