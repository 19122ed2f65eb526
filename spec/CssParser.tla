----------------------------- MODULE CssParser ------------------------------
(* CSS Syntax Level 3, section 5: the parser over a sequence of tokens (or of component values: a block is [k |-> "block", v |-> <<opening
   code point>>, c |-> contents], a function is [k |-> "fn", v |-> name, c |-> contents]).  Reading beyond the end gives EOF. *)
EXTENDS CssTokenizer

Block(o, c) == Tok("block", <<o>>, <<>>, 0, c)
Fn(n, c) == Tok("fn", n, <<>>, 0, c)
(* rules: c is the prelude; n is unused; the block is the last element of c when f = 1 (an at-rule without a block has f = 0) *)
AtRule(n, pre, blk) == Tok("atrule", n, <<>>, Len(blk), pre \o blk)
QRule(pre, blk) == Tok("qrule", <<>>, <<>>, 1, Append(pre, blk))
Decl(n, v, imp) == Tok("decl", n, <<>>, IF imp THEN 1 ELSE 0, v)

Tk(ts, p) == IF p <= Len(ts) THEN ts[p] ELSE EofTok
OpenC(k) == CASE k = "{" -> 123 [] k = "[" -> 91 [] OTHER -> 40
Closer(o) == CASE o = 123 -> "}" [] o = 91 -> "]" [] OTHER -> ")"
IsOpen(k) == k \in {"{", "[", "("}

(* 5.4.6 - 5.4.8: <<next position, component value>> *)
RECURSIVE Component(_, _)
RECURSIVE Contents(_, _, _, _)      \* the values up to the closing token
Contents(ts, p, close, a) ==
  LET k == Tk(ts, p).k IN
  IF k = close \/ k = "eof" THEN <<p + 1, a>>
  ELSE LET x == Component(ts, p) IN Contents(ts, x[1], close, Append(a, x[2]))
Component(ts, p) ==
  LET t == Tk(ts, p) IN
  IF IsOpen(t.k) THEN LET x == Contents(ts, p + 1, Closer(OpenC(t.k)), <<>>) IN <<x[1], Block(OpenC(t.k), x[2])>>
  ELSE IF t.k = "function" THEN LET x == Contents(ts, p + 1, ")", <<>>) IN <<x[1], Fn(t.v, x[2])>>
  ELSE <<p + 1, t>>

(* 5.4.2, 5.4.3 *)
CurlyBlock(t) == t.k = "block" /\ t.v = <<123>>
RECURSIVE AtRuleFrom(_, _, _, _)
AtRuleFrom(ts, p, n, a) ==
  LET t == Tk(ts, p) IN
  IF t.k = "semi" \/ t.k = "eof" THEN <<p + 1, AtRule(n, a, <<>>)>>
  ELSE IF t.k = "{" THEN LET x == Component(ts, p) IN <<x[1], AtRule(n, a, <<x[2]>>)>>
  ELSE IF CurlyBlock(t) THEN <<p + 1, AtRule(n, a, <<t>>)>>
  ELSE LET x == Component(ts, p) IN AtRuleFrom(ts, x[1], n, Append(a, x[2]))
ConsumeAtRule(ts, p) == AtRuleFrom(ts, p + 1, Tk(ts, p).v, <<>>)
RECURSIVE QRuleFrom(_, _, _)        \* <<next position, <<rule>> or <<>> >>
QRuleFrom(ts, p, a) ==
  LET t == Tk(ts, p) IN
  IF t.k = "eof" THEN <<p + 1, <<>>>>
  ELSE IF t.k = "{" THEN LET x == Component(ts, p) IN <<x[1], <<QRule(a, x[2])>>>>
  ELSE IF CurlyBlock(t) THEN <<p + 1, <<QRule(a, t)>>>>
  ELSE LET x == Component(ts, p) IN QRuleFrom(ts, x[1], Append(a, x[2]))
ConsumeQRule(ts, p) == QRuleFrom(ts, p, <<>>)

(* 5.4.1 *)
RECURSIVE RulesFrom(_, _, _, _)
RulesFrom(ts, p, top, a) ==
  LET t == Tk(ts, p) IN
  IF t.k = "ws" THEN RulesFrom(ts, p + 1, top, a)
  ELSE IF t.k = "eof" THEN a
  ELSE IF t.k \in {"cdo", "cdc"} /\ top THEN RulesFrom(ts, p + 1, top, a)
  ELSE IF t.k = "at" THEN LET x == ConsumeAtRule(ts, p) IN RulesFrom(ts, x[1], top, Append(a, x[2]))
  ELSE LET x == ConsumeQRule(ts, p) IN RulesFrom(ts, x[1], top, a \o x[2])

(* 5.4.5: <<declaration>> or <<>>; the token at p is an identifier and the rest of ts belongs to the declaration *)
RECURSIVE SkipWsTok(_, _)
SkipWsTok(ts, p) == IF Tk(ts, p).k = "ws" THEN SkipWsTok(ts, p + 1) ELSE p
RECURSIVE TrimEnd(_)
TrimEnd(v) == IF v # <<>> /\ v[Len(v)].k = "ws" THEN TrimEnd(SubSeq(v, 1, Len(v) - 1)) ELSE v
RECURSIVE ComponentsFrom(_, _, _)
ComponentsFrom(ts, p, a) == IF Tk(ts, p).k = "eof" THEN a ELSE LET x == Component(ts, p) IN ComponentsFrom(ts, x[1], Append(a, x[2]))
IMPORTANT == <<105, 109, 112, 111, 114, 116, 97, 110, 116>>
ConsumeDecl(ts, p) ==
  LET q == SkipWsTok(ts, p + 1) IN
  IF Tk(ts, q).k # "colon" THEN <<>>
  ELSE LET v == TrimEnd(ComponentsFrom(ts, SkipWsTok(ts, q + 1), <<>>))
           n == Len(v)
           w == IF n > 0 THEN TrimEnd(SubSeq(v, 1, n - 1)) ELSE <<>>
           imp == n > 0 /\ v[n].k = "ident" /\ LowerS(v[n].v) = IMPORTANT /\ w # <<>> /\ w[Len(w)] = Delim(33)
       IN <<Decl(Tk(ts, p).v, IF imp THEN TrimEnd(SubSeq(w, 1, Len(w) - 1)) ELSE v, imp)>>

(* 5.4.4 *)
RECURSIVE UpToSemi(_, _, _)         \* component values up to a semicolon or the end
UpToSemi(ts, p, a) == IF Tk(ts, p).k \in {"semi", "eof"} THEN <<p, a>> ELSE LET x == Component(ts, p) IN UpToSemi(ts, x[1], Append(a, x[2]))
RECURSIVE DeclsFrom(_, _, _)
DeclsFrom(ts, p, a) ==
  LET t == Tk(ts, p) IN
  IF t.k = "ws" \/ t.k = "semi" THEN DeclsFrom(ts, p + 1, a)
  ELSE IF t.k = "eof" THEN a
  ELSE IF t.k = "at" THEN LET x == ConsumeAtRule(ts, p) IN DeclsFrom(ts, x[1], Append(a, x[2]))
  ELSE IF t.k = "ident" THEN LET x == UpToSemi(ts, p + 1, <<t>>) IN DeclsFrom(ts, x[1], a \o ConsumeDecl(x[2], 1))
  ELSE DeclsFrom(ts, UpToSemi(ts, p, <<>>)[1], a)

(* 5.3: entry points; an optional result is a sequence of at most one element *)
ParseStylesheet(ts) == RulesFrom(ts, 1, TRUE, <<>>)
ParseRules(ts) == RulesFrom(ts, 1, FALSE, <<>>)
ParseRule(ts) ==
  LET p == SkipWsTok(ts, 1)
      x == IF Tk(ts, p).k = "at" THEN LET r == ConsumeAtRule(ts, p) IN <<r[1], <<r[2]>>>> ELSE ConsumeQRule(ts, p)
  IN IF Tk(ts, p).k = "eof" THEN <<>> ELSE IF Tk(ts, SkipWsTok(ts, x[1])).k = "eof" THEN x[2] ELSE <<>>
ParseDecl(ts) == LET p == SkipWsTok(ts, 1) IN IF Tk(ts, p).k # "ident" THEN <<>> ELSE ConsumeDecl(ts, p)
ParseDecls(ts) == DeclsFrom(ts, 1, <<>>)
ParseValue(ts) ==
  LET p == SkipWsTok(ts, 1)  x == Component(ts, p) IN
  IF Tk(ts, p).k = "eof" THEN <<>> ELSE IF Tk(ts, SkipWsTok(ts, x[1])).k = "eof" THEN <<x[2]>> ELSE <<>>
ParseValues(ts) == ComponentsFrom(ts, 1, <<>>)
RECURSIVE CommaSplit(_, _, _, _)
CommaSplit(v, i, cur, a) == IF i > Len(v) THEN Append(a, cur) ELSE IF v[i].k = "comma" THEN CommaSplit(v, i + 1, <<>>, Append(a, cur)) ELSE CommaSplit(v, i + 1, Append(cur, v[i]), a)
ParseCommaList(ts) == CommaSplit(ParseValues(ts), 1, <<>>, <<>>)
=============================================================================
