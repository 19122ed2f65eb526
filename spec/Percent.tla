------------------------------ MODULE Percent ------------------------------
(* Percent-encoding of the URL Standard (section 1.3): encode sets, encoding of bytes and of text after encoding it,
   decoding. *)
EXTENDS Encoding

PHex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Pct(b) == <<37, PHex(b \div 16), PHex(b % 16)>>
IsHex(c) == In(c, 48, 57) \/ In(c, 65, 70) \/ In(c, 97, 102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

C0Set(c) == c <= 31 \/ c > 126
FragmentSet(c) == C0Set(c) \/ c \in {32, 34, 60, 62, 96}
QuerySet(c) == C0Set(c) \/ c \in {32, 34, 35, 60, 62}
SpecialQuerySet(c) == QuerySet(c) \/ c = 39
PathSet(c) == QuerySet(c) \/ c \in {63, 96, 123, 125}
UserinfoSet(c) == PathSet(c) \/ c \in {47, 58, 59, 61, 64, 91, 92, 93, 94, 124}
ComponentSet(c) == UserinfoSet(c) \/ c \in {36, 37, 38, 43, 44}
FormSet(c) == ComponentSet(c) \/ c \in {33, 39, 40, 41, 126}
KC0 == 0  KFragment == 1  KQuery == 2  KSpecialQuery == 3  KPath == 4  KUserinfo == 5  KComponent == 6  KForm == 7
Sets == 0..7
InSet(k, c) == CASE k = 0 -> C0Set(c) [] k = 1 -> FragmentSet(c) [] k = 2 -> QuerySet(c) [] k = 3 -> SpecialQuerySet(c)
                 [] k = 4 -> PathSet(c) [] k = 5 -> UserinfoSet(c) [] k = 6 -> ComponentSet(c) [] OTHER -> FormSet(c)

RECURSIVE PctBytes(_, _, _, _, _)
PctBytes(k, plus, bs, i, out) ==
  IF i > Len(bs) THEN out
  ELSE PctBytes(k, plus, bs, i + 1, out \o (IF plus /\ bs[i] = 32 THEN <<43>> ELSE IF InSet(k, bs[i]) THEN Pct(bs[i]) ELSE <<bs[i]>>))

(* text, encoded with e, what cannot be encoded as a percent-encoded character reference *)
RECURSIVE PctCalls(_, _, _, _, _)
PctCalls(k, plus, calls, i, out) ==
  IF i > Len(calls) THEN out
  ELSE PctCalls(k, plus, calls, i + 1, out \o PctBytes(k, plus, calls[i][1], 1, <<>>)
         \o (IF calls[i][2] = -1 THEN <<>> ELSE <<37, 50, 54, 37, 50, 51>> \o Digits(calls[i][2]) \o <<37, 51, 66>>))
PctText(e, k, plus, t) == PctCalls(k, plus, EncCalls(e, ASCII, t, <<>>), 1, <<>>)
RECURSIVE Utf8Bytes(_, _, _)
Utf8Bytes(t, i, out) == IF i > Len(t) THEN out ELSE Utf8Bytes(t, i + 1, out \o EncUTF8(t[i]))
Utf8Pct(k, t) == PctBytes(k, FALSE, Utf8Bytes(t, 1, <<>>), 1, <<>>)

RECURSIVE PctDecode(_, _, _)
PctDecode(bs, i, out) ==
  IF i > Len(bs) THEN out
  ELSE IF bs[i] = 37 /\ i + 2 <= Len(bs) /\ IsHex(bs[i + 1]) /\ IsHex(bs[i + 2])
       THEN PctDecode(bs, i + 3, Append(out, HexVal(bs[i + 1]) * 16 + HexVal(bs[i + 2])))
       ELSE PctDecode(bs, i + 1, Append(out, bs[i]))
Unpct(bs) == PctDecode(bs, 1, <<>>)
UnpctText(t) == Unpct(Utf8Bytes(t, 1, <<>>))
=============================================================================
