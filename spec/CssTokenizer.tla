---------------------------- MODULE CssTokenizer ----------------------------
(* CSS Syntax Level 3, sections 3.3 and 4: preprocessing and tokenisation.  A text is a sequence of code points; a token is a record
   [k kind, v value or unit, n number, f flag, c children]; every kind uses the same fields so that tokens are comparable.
   n is <<>> or <<0, negative, exponent, digits...>> (the value in scientific notation, 13 significant digits, trailing zeros dropped),
   <<0, 0, 0>> for zero and <<1, negative>> for what lies beyond the range of a double. *)
EXTENDS Integers, Sequences

Tok(k, v, n, f, c) == [k |-> k, v |-> v, n |-> n, f |-> f, c |-> c]
T0(k) == Tok(k, <<>>, <<>>, 0, <<>>)
T1(k, v) == Tok(k, v, <<>>, 0, <<>>)
EofTok == T0("eof")
WsTok == T0("ws")
Delim(c) == T1("delim", <<c>>)

(* 3.3 *)
RECURSIVE FilterFrom(_, _, _)
FilterFrom(s, p, a) ==
  IF p > Len(s) THEN a
  ELSE IF s[p] = 13 THEN (IF p < Len(s) /\ s[p + 1] = 10 THEN FilterFrom(s, p + 2, Append(a, 10)) ELSE FilterFrom(s, p + 1, Append(a, 10)))
  ELSE FilterFrom(s, p + 1, Append(a, IF s[p] = 12 THEN 10 ELSE IF s[p] = 0 \/ (s[p] >= 55296 /\ s[p] <= 57343) THEN 65533 ELSE s[p]))
Preprocess(s) == FilterFrom(s, 1, <<>>)

(* 4.2; -1 stands for the end of the input *)
Cp(s, p) == IF p <= Len(s) THEN s[p] ELSE -1
DigitC(c) == c >= 48 /\ c <= 57
HexC(c) == DigitC(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
LetterC(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
StartC(c) == LetterC(c) \/ c >= 128 \/ c = 95
NameC(c) == StartC(c) \/ DigitC(c) \/ c = 45
NonPrintC(c) == (c >= 0 /\ c <= 8) \/ c = 11 \/ (c >= 14 /\ c <= 31) \/ c = 127
WsC(c) == c = 9 \/ c = 10 \/ c = 32
LowerC(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerS(v) == [i \in 1..Len(v) |-> LowerC(v[i])]
SignC(c) == c = 43 \/ c = 45

(* 4.3.8 - 4.3.10 *)
EscapeAt(s, p) == Cp(s, p) = 92 /\ Cp(s, p + 1) # 10
IdentAt(s, p) ==
  LET c == Cp(s, p) IN
  IF c = 45 THEN StartC(Cp(s, p + 1)) \/ Cp(s, p + 1) = 45 \/ EscapeAt(s, p + 1)
  ELSE StartC(c) \/ EscapeAt(s, p)
NumberAt(s, p) ==
  LET c == Cp(s, p) IN
  IF SignC(c) THEN DigitC(Cp(s, p + 1)) \/ (Cp(s, p + 1) = 46 /\ DigitC(Cp(s, p + 2)))
  ELSE IF c = 46 THEN DigitC(Cp(s, p + 1)) ELSE DigitC(c)

RECURSIVE SkipWs(_, _)
SkipWs(s, p) == IF WsC(Cp(s, p)) THEN SkipWs(s, p + 1) ELSE p
HexVal(c) == IF DigitC(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
RECURSIVE HexRun(_, _, _, _)
HexRun(s, p, n, x) == IF n > 0 /\ HexC(Cp(s, p)) THEN HexRun(s, p + 1, n - 1, 16 * x + HexVal(s[p])) ELSE <<p, x>>
(* 4.3.7: p is behind the backslash; <<next position, code point>> *)
Escaped(s, p) ==
  LET c == Cp(s, p) IN
  IF c = -1 THEN <<p, 65533>>
  ELSE IF ~HexC(c) THEN <<p + 1, c>>
  ELSE LET h == HexRun(s, p, 6, 0)
           q == IF WsC(Cp(s, h[1])) THEN h[1] + 1 ELSE h[1]
       IN <<q, IF h[2] = 0 \/ h[2] > 1114111 \/ (h[2] >= 55296 /\ h[2] <= 57343) THEN 65533 ELSE h[2]>>

(* 4.3.11 *)
RECURSIVE NameFrom(_, _, _)
NameFrom(s, p, a) ==
  IF NameC(Cp(s, p)) THEN NameFrom(s, p + 1, Append(a, s[p]))
  ELSE IF EscapeAt(s, p) THEN LET e == Escaped(s, p + 1) IN NameFrom(s, e[1], Append(a, e[2]))
  ELSE <<p, a>>
Name(s, p) == NameFrom(s, p, <<>>)

(* 4.3.12 and 4.3.13 *)
RECURSIVE DigitEnd(_, _)
DigitEnd(s, p) == IF DigitC(Cp(s, p)) THEN DigitEnd(s, p + 1) ELSE p
RECURSIVE DropZeros(_)
DropZeros(v) == IF v = <<>> THEN v ELSE IF v[Len(v)] = 0 THEN DropZeros(SubSeq(v, 1, Len(v) - 1)) ELSE v
RECURSIVE DropLeading(_)
DropLeading(v) == IF v = <<>> THEN v ELSE IF v[1] = 0 THEN DropLeading(Tail(v)) ELSE v
RECURSIVE ToInt(_, _, _)
ToInt(v, i, x) == IF i > Len(v) THEN x ELSE IF x > 99999 THEN x ELSE ToInt(v, i + 1, 10 * x + v[i])     \* saturating
(* one more in the last place of a digit string: <<carry, digits>> *)
RECURSIVE BumpAt(_, _)
BumpAt(v, i) == IF i = 0 THEN <<1>> \o v ELSE IF v[i] = 9 THEN BumpAt([v EXCEPT ![i] = 0], i - 1) ELSE [v EXCEPT ![i] = @ + 1]
SIG == 13
Sci(neg, int, frac, exp) ==
  LET d == DropLeading(int \o frac)
      long == Len(d) > SIG
      cut == IF ~long THEN d ELSE IF d[SIG + 1] >= 5 THEN BumpAt(SubSeq(d, 1, SIG), SIG) ELSE SubSeq(d, 1, SIG)
      e == Len(d) - 1 + exp - Len(frac) + (IF long /\ Len(cut) > SIG THEN 1 ELSE 0)
  IN IF d = <<>> THEN <<0, 0, 0>>
     ELSE IF e >= 308 THEN <<1, neg>> ELSE IF e < -307 THEN <<0, 0, 0>> ELSE <<0, neg, e>> \o DropZeros(cut)
Digs(s, p, q) == [i \in 1..(q - p) |-> s[p + i - 1] - 48]
(* <<next position, number, type>>; type 1 integer, 2 number *)
Number(s, p) ==
  LET p1 == IF SignC(Cp(s, p)) THEN p + 1 ELSE p
      p2 == DigitEnd(s, p1)
      fr == Cp(s, p2) = 46 /\ DigitC(Cp(s, p2 + 1))
      p3 == IF fr THEN DigitEnd(s, p2 + 1) ELSE p2
      ee == (Cp(s, p3) = 69 \/ Cp(s, p3) = 101) /\ (DigitC(Cp(s, p3 + 1)) \/ (SignC(Cp(s, p3 + 1)) /\ DigitC(Cp(s, p3 + 2))))
      q == IF SignC(Cp(s, p3 + 1)) THEN p3 + 2 ELSE p3 + 1
      p4 == IF ee THEN DigitEnd(s, q) ELSE p3
      x == IF ee THEN ToInt(DropLeading(Digs(s, q, p4)), 1, 0) ELSE 0
  IN <<p4, Sci(IF Cp(s, p) = 45 THEN 1 ELSE 0, Digs(s, p1, p2), IF fr THEN Digs(s, p2 + 1, p3) ELSE <<>>, IF ee /\ Cp(s, p3 + 1) = 45 THEN 0 - x ELSE x),
       IF fr \/ ee THEN 2 ELSE 1>>
(* 4.3.3 *)
Numeric(s, p) ==
  LET n == Number(s, p) IN
  IF IdentAt(s, n[1]) THEN LET u == Name(s, n[1]) IN <<u[1], Tok("dim", u[2], n[2], n[3], <<>>)>>
  ELSE IF Cp(s, n[1]) = 37 THEN <<n[1] + 1, Tok("pct", <<>>, n[2], 0, <<>>)>>
  ELSE <<n[1], Tok("num", <<>>, n[2], n[3], <<>>)>>

(* 4.3.5: p is behind the opening quote q *)
RECURSIVE StringFrom(_, _, _, _)
StringFrom(s, p, q, a) ==
  LET c == Cp(s, p) IN
  IF c = -1 THEN <<p, T1("string", a)>>
  ELSE IF c = q THEN <<p + 1, T1("string", a)>>
  ELSE IF c = 10 THEN <<p, T0("badstring")>>
  ELSE IF c # 92 THEN StringFrom(s, p + 1, q, Append(a, c))
  ELSE IF Cp(s, p + 1) = -1 THEN StringFrom(s, p + 1, q, a)
  ELSE IF Cp(s, p + 1) = 10 THEN StringFrom(s, p + 2, q, a)
  ELSE LET e == Escaped(s, p + 1) IN StringFrom(s, e[1], q, Append(a, e[2]))

(* 4.3.14 and 4.3.6 *)
RECURSIVE BadUrl(_, _)
BadUrl(s, p) ==
  IF Cp(s, p) = -1 THEN <<p, T0("badurl")>>
  ELSE IF s[p] = 41 THEN <<p + 1, T0("badurl")>>
  ELSE IF EscapeAt(s, p) THEN BadUrl(s, Escaped(s, p + 1)[1]) ELSE BadUrl(s, p + 1)
RECURSIVE UrlFrom(_, _, _)
UrlFrom(s, p, a) ==
  LET c == Cp(s, p) IN
  IF c = -1 THEN <<p, T1("url", a)>>
  ELSE IF c = 41 THEN <<p + 1, T1("url", a)>>
  ELSE IF WsC(c) THEN LET q == SkipWs(s, p) IN
       IF Cp(s, q) = -1 THEN <<q, T1("url", a)>> ELSE IF Cp(s, q) = 41 THEN <<q + 1, T1("url", a)>> ELSE BadUrl(s, q)
  ELSE IF c = 34 \/ c = 39 \/ c = 40 \/ NonPrintC(c) THEN BadUrl(s, p + 1)
  ELSE IF c = 92 THEN (IF EscapeAt(s, p) THEN LET e == Escaped(s, p + 1) IN UrlFrom(s, e[1], Append(a, e[2])) ELSE BadUrl(s, p + 1))
  ELSE UrlFrom(s, p + 1, Append(a, c))

(* 4.3.4 *)
RECURSIVE KeepOneWs(_, _)
KeepOneWs(s, p) == IF WsC(Cp(s, p)) /\ WsC(Cp(s, p + 1)) THEN KeepOneWs(s, p + 1) ELSE p
QuoteC(c) == c = 34 \/ c = 39
IdentLike(s, p) ==
  LET n == Name(s, p) IN
  IF Cp(s, n[1]) # 40 THEN <<n[1], T1("ident", n[2])>>
  ELSE IF LowerS(n[2]) # <<117, 114, 108>> THEN <<n[1] + 1, T1("function", n[2])>>
  ELSE LET q == KeepOneWs(s, n[1] + 1) IN
       IF QuoteC(Cp(s, q)) \/ (WsC(Cp(s, q)) /\ QuoteC(Cp(s, q + 1))) THEN <<q, T1("function", n[2])>>
       ELSE UrlFrom(s, SkipWs(s, q), <<>>)

(* 4.3.2 *)
RECURSIVE CommentEnd(_, _)
CommentEnd(s, p) == IF Cp(s, p) = -1 THEN p ELSE IF s[p] = 42 /\ Cp(s, p + 1) = 47 THEN p + 2 ELSE CommentEnd(s, p + 1)
RECURSIVE Comments(_, _)
Comments(s, p) == IF Cp(s, p) = 47 /\ Cp(s, p + 1) = 42 THEN Comments(s, CommentEnd(s, p + 2)) ELSE p

(* 4.3.1: <<next position, token>> *)
Punct(c) == CASE c = 40 -> "(" [] c = 41 -> ")" [] c = 44 -> "comma" [] c = 58 -> "colon" [] c = 59 -> "semi" [] c = 91 -> "[" [] c = 93 -> "]" [] c = 123 -> "{" [] OTHER -> "}"
TokenAt(s, p0) ==
  LET p == Comments(s, p0)
      c == Cp(s, p)
      d == <<p + 1, Delim(c)>>
  IN IF c = -1 THEN <<p, EofTok>>
     ELSE IF WsC(c) THEN <<SkipWs(s, p), WsTok>>
     ELSE IF QuoteC(c) THEN StringFrom(s, p + 1, c, <<>>)
     ELSE IF c \in {40, 41, 44, 58, 59, 91, 93, 123, 125} THEN <<p + 1, T0(Punct(c))>>
     ELSE IF c = 35 THEN
          (IF NameC(Cp(s, p + 1)) \/ EscapeAt(s, p + 1)
           THEN LET n == Name(s, p + 1) IN <<n[1], Tok("hash", n[2], <<>>, IF IdentAt(s, p + 1) THEN 1 ELSE 2, <<>>)>> ELSE d)
     ELSE IF c = 43 \/ c = 46 THEN (IF NumberAt(s, p) THEN Numeric(s, p) ELSE d)
     ELSE IF c = 45 THEN
          (IF NumberAt(s, p) THEN Numeric(s, p)
           ELSE IF Cp(s, p + 1) = 45 /\ Cp(s, p + 2) = 62 THEN <<p + 3, T0("cdc")>>
           ELSE IF IdentAt(s, p) THEN IdentLike(s, p) ELSE d)
     ELSE IF c = 60 THEN (IF Cp(s, p + 1) = 33 /\ Cp(s, p + 2) = 45 /\ Cp(s, p + 3) = 45 THEN <<p + 4, T0("cdo")>> ELSE d)
     ELSE IF c = 64 THEN (IF IdentAt(s, p + 1) THEN LET n == Name(s, p + 1) IN <<n[1], T1("at", n[2])>> ELSE d)
     ELSE IF c = 92 THEN (IF EscapeAt(s, p) THEN IdentLike(s, p) ELSE d)
     ELSE IF DigitC(c) THEN Numeric(s, p)
     ELSE IF StartC(c) THEN IdentLike(s, p)
     ELSE d

RECURSIVE TokensFrom(_, _, _)
TokensFrom(s, p, a) == LET t == TokenAt(s, p) IN IF t[2].k = "eof" THEN a ELSE TokensFrom(s, t[1], Append(a, t[2]))
Tokenize(s) == TokensFrom(s, 1, <<>>)                  \* of a preprocessed text
TokenizeText(t) == Tokenize(Preprocess(t))
=============================================================================
