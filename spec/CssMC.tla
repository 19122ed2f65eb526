------------------------------- MODULE CssMC --------------------------------
(* Exhaustive checks of the CSS specification.
   Texts: every text over Alpha up to length MaxText, grown one code point at a time and tokenised (transition = one more code point).
   Token strings: every sequence over a representative of each token kind up to length MaxTok, read by an independent stack machine one token
   at a time; the invariants relate the machine to the standard's recursive algorithms. *)
EXTENDS CssParser, FiniteSets, TLC
CONSTANTS MaxText, MaxTok, Mode
VARIABLES text, toks, stack     \* stack: <<frames>>, a frame [t |-> opening token or eof at the bottom, c |-> contents so far]
vars == <<text, toks, stack>>

AlphaText == {97, 117, 101, 49, 46, 43, 45, 92, 34, 10, 32, 40, 41, 47, 42, 35, 64, 33, 60, 62, 37, 255}
Kinds == {T1("ident", <<97>>), T1("ident", <<73, 77>> \o SubSeq(IMPORTANT, 3, 9)), T1("function", <<102>>), T1("at", <<109>>), WsTok, T0("colon"), T0("semi"), T0("comma"), Delim(33),
          T0("cdo"), T0("("), T0(")"), T0("["), T0("]"), T0("{"), T0("}")}

Bottom == [t |-> EofTok, c |-> <<>>]
Put(st, x) == [st EXCEPT ![Len(st)].c = Append(@, x)]
CloserOf(t) == IF t.k = "function" THEN ")" ELSE IF IsOpen(t.k) THEN Closer(OpenC(t.k)) ELSE "none"
Made(fr) == IF fr.t.k = "function" THEN Fn(fr.t.v, fr.c) ELSE Block(OpenC(fr.t.k), fr.c)
Pop(st) == Put(SubSeq(st, 1, Len(st) - 1), Made(st[Len(st)]))
Feed(st, x) ==
  IF IsOpen(x.k) \/ x.k = "function" THEN Append(st, [t |-> x, c |-> <<>>])
  ELSE IF Len(st) > 1 /\ x.k = CloserOf(st[Len(st)].t) THEN Pop(st) ELSE Put(st, x)
RECURSIVE CloseAll(_)
CloseAll(st) == IF Len(st) = 1 THEN st[1].c ELSE CloseAll(Pop(st))

Init == text = <<>> /\ toks = <<>> /\ stack = <<Bottom>>
NextText == Mode = "text" /\ Len(text) < MaxText /\ \E c \in AlphaText : text' = Append(text, c) /\ UNCHANGED <<toks, stack>>
NextTok == Mode = "tok" /\ Len(toks) < MaxTok /\ \E k \in Kinds : toks' = Append(toks, k) /\ stack' = Feed(stack, k) /\ UNCHANGED text
Next == NextText \/ NextTok
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------------------------------------------
(* the token's own text, without comments: re-tokenising what lies between two token boundaries gives the same token *)
RECURSIVE Bounds(_, _, _)
Bounds(s, p, a) == LET t == TokenAt(s, p) IN IF t[2].k = "eof" THEN a ELSE Bounds(s, t[1], Append(a, <<p, t[1], t[2]>>))
Text == Preprocess(text)
Progress == LET b == Bounds(Text, 1, <<>>) IN \A i \in 1..Len(b) : b[i][1] < b[i][2] /\ b[i][2] <= Len(Text) + 1
(* a token is decided by its own text: alone, it gives the same token (except where the standard looks ahead for what ends it: the newline
   of a bad string, the newline behind a lone backslash, the quote behind "url(") *)
LooksAhead(t) == t.k = "badstring" \/ t = Delim(92) \/ (t.k = "function" /\ LowerS(t.v) = <<117, 114, 108>>)
Prefix == LET b == Bounds(Text, 1, <<>>) IN \A i \in 1..Len(b) : LooksAhead(b[i][3]) \/
            LET t == TokenAt(SubSeq(Text, b[i][1], b[i][2] - 1), 1) IN t[2] = b[i][3] /\ t[1] = b[i][2] - b[i][1] + 1
NoNewlineInString == \A i \in 1..Len(Tokenize(Text)) : LET t == Tokenize(Text)[i] IN
     /\ t.k \in {"ident", "function", "at", "hash"} => t.v # <<>>
     /\ t.k = "ws" => i = Len(Tokenize(Text)) \/ Tokenize(Text)[i + 1].k # "ws" \/ \E j \in 1..(Len(Text) - 1) : Text[j] = 47 /\ Text[j + 1] = 42
TextInv == Mode = "text" => Progress /\ Prefix /\ NoNewlineInString

RECURSIVE Flat(_)
RECURSIVE FlatAll(_, _)
FlatAll(v, i) == IF i > Len(v) THEN <<>> ELSE Flat(v[i]) \o FlatAll(v, i + 1)
Flat(x) ==
  IF x.k = "block" THEN <<T0(CASE x.v = <<123>> -> "{" [] x.v = <<91>> -> "[" [] OTHER -> "(")>> \o FlatAll(x.c, 1) \o <<T0(Closer(x.v[1]))>>
  ELSE IF x.k = "fn" THEN <<T1("function", x.v)>> \o FlatAll(x.c, 1) \o <<T0(")")>>
  ELSE <<x>>
Values == ParseValues(toks)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* nothing is lost, duplicated or reordered: the values spell the input, plus the closers the end of input supplied *)
Nothing == LET f == FlatAll(Values, 1) IN IsPrefixOf(toks, f) /\ Len(f) - Len(toks) = Len(stack) - 1 /\ \A i \in (Len(toks) + 1)..Len(f) : f[i].k \in {")", "]", "}"}
Machine == Values = CloseAll(stack)
(* grouping first and parsing afterwards gives the same result at every entry point *)
Grouped == /\ ParseValues(Values) = Values /\ ParseCommaList(Values) = ParseCommaList(toks) /\ ParseValue(Values) = ParseValue(toks)
           /\ ParseStylesheet(Values) = ParseStylesheet(toks) /\ ParseRules(Values) = ParseRules(toks) /\ ParseRule(Values) = ParseRule(toks)
           /\ ParseDecl(Values) = ParseDecl(toks) /\ ParseDecls(Values) = ParseDecls(toks)
NoTop(v) == ~\E i \in 1..Len(v) : v[i].k \in {"cdo", "cdc"}
Shape ==
  /\ \A i \in 1..Len(ParseStylesheet(toks)) : ParseStylesheet(toks)[i].k \in {"atrule", "qrule"}
  /\ NoTop(toks) => ParseStylesheet(toks) = ParseRules(toks)
  /\ ParseRule(toks) # <<>> => (NoTop(toks) => ParseRules(toks) = ParseRule(toks))
  /\ \A i \in 1..Len(ParseDecls(toks)) : LET d == ParseDecls(toks)[i] IN
        /\ d.k \in {"atrule", "decl"}
        /\ d.k = "decl" => (d.c # <<>> => d.c[1].k # "ws" /\ d.c[Len(d.c)].k # "ws") /\ \A j \in 1..Len(d.c) : d.c[j].k # "semi"
  /\ LET v == ParseCommaList(toks) IN \A i \in 1..Len(v) : \A j \in 1..Len(v[i]) : v[i][j].k # "comma"
TokInv == Mode = "tok" => Nothing /\ Machine /\ Grouped /\ Shape
=============================================================================
