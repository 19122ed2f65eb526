---------------------------- MODULE HtmlErrors ----------------------------
(* The parse errors of the tokeniser (HTML Standard 13.2.2 and 13.2.5), as a function of the step that reports them, and     *)
(* those of the preprocessing of the input stream (13.2.3.5).  A code is the position of the error in the library's list.    *)
EXTENDS HtmlTokenizer

AbruptComment == 1      AbruptPublic == 2       AbruptSystem == 3       NoDigits == 4          CdataInHtml == 5
RefRange == 6           ControlInput == 7       RefControl == 8         EndTagAttrs == 9       DupAttr == 10
EndTagSlash == 11       EofTagName == 12        EofCdata == 13          EofComment == 14       EofDoctype == 15
EofScriptComment == 16  EofTag == 17            WrongClose == 18        WrongOpen == 19        AfterDoctypeName == 20
FirstTagChar == 21      NoAttrValue == 22       NoDoctypeName == 23     NoPublicId == 24       NoSystemId == 25
NoEndTagName == 26      NoPublicQuote == 27     NoSystemQuote == 28     NoSemicolon == 29      NoWsPublic == 30
NoWsSystem == 31        NoWsDoctypeName == 32   NoWsAttrs == 33         NoWsBetweenIds == 34   NestedComment == 35
RefNonchar == 36        NoncharInput == 37      SelfClosing == 38       RefNull == 39          RefSurrogate == 40
SurrogateInput == 41    AfterSystemId == 42     AttrNameChar == 43      UnquotedChar == 44     EqualsFirst == 45
UnexpectedNull == 46    QuestionMark == 47      SlashInTag == 48        UnknownRef == 49

\* --- classes of code points ---
IsSurr(c) == c >= 55296 /\ c <= 57343
IsNonchar(c) == (c >= 64976 /\ c <= 65007) \/ (c >= 0 /\ (c % 65536) >= 65534)
IsCtl(c) == (c >= 0 /\ c <= 31) \/ (c >= 127 /\ c <= 159)
IsAsciiWs(c) == c \in {9, 10, 12, 13, 32}

\* --- the input stream: at most one error for a code point, by its class ---
InputErr(c) == IF IsSurr(c) THEN <<SurrogateInput>> ELSE IF IsNonchar(c) THEN <<NoncharInput>>
               ELSE IF IsCtl(c) /\ ~IsAsciiWs(c) /\ c # 0 THEN <<ControlInput>> ELSE <<>>
RECURSIVE InputErrs(_, _, _)
InputErrs(s, i, acc) == IF i > Len(s) THEN acc ELSE InputErrs(s, i + 1, acc \o InputErr(s[i]))

\* --- the tokeniser ---
Null(c) == IF c = 0 THEN <<UnexpectedNull>> ELSE <<>>
RefErrs(code) == IF code = 0 THEN <<RefNull>> ELSE IF code > 1114111 THEN <<RefRange>> ELSE IF IsSurr(code) THEN <<RefSurrogate>>
                 ELSE IF IsNonchar(code) THEN <<RefNonchar>> ELSE IF code = 13 \/ (IsCtl(code) /\ ~IsAsciiWs(code)) THEN <<RefControl>> ELSE <<>>
DupErr(t) == LET k == Len(t.tag.a) IN IF k > 0 /\ \E i \in 1..(k - 1) : t.tag.a[i].n = t.tag.a[k].n THEN <<DupAttr>> ELSE <<>>

TagErr(t, c) ==
    CASE t.st = "to" -> IF c = 63 THEN <<QuestionMark>> ELSE IF c = EOF THEN <<EofTagName>>
                        ELSE IF c \in {33, 47} \/ IsAlpha(c) THEN <<>> ELSE <<FirstTagChar>>
      [] t.st = "eto" -> IF IsAlpha(c) THEN <<>> ELSE IF c = 62 THEN <<NoEndTagName>> ELSE IF c = EOF THEN <<EofTagName>> ELSE <<FirstTagChar>>
      [] t.st \in {"tn", "avdq", "avsq"} -> IF c = EOF THEN <<EofTag>> ELSE Null(c)
      [] t.st = "ban" -> IF c = 61 THEN <<EqualsFirst>> ELSE <<>>
      [] t.st = "an" -> IF IsWs(c) \/ c \in {47, 62, EOF, 61} THEN DupErr(t) ELSE IF c \in {34, 39, 60} THEN <<AttrNameChar>> ELSE Null(c)
      [] t.st = "aan" -> IF c = EOF THEN <<EofTag>> ELSE <<>>
      [] t.st = "bav" -> IF c = 62 THEN <<NoAttrValue>> ELSE <<>>
      [] t.st = "avuq" -> IF c = EOF THEN <<EofTag>> ELSE IF c \in {34, 39, 60, 61, 96} THEN <<UnquotedChar>> ELSE Null(c)
      [] t.st = "aavq" -> IF c = EOF THEN <<EofTag>> ELSE IF IsWs(c) \/ c = 47 \/ c = 62 THEN <<>> ELSE <<NoWsAttrs>>
      [] t.st = "sc" -> IF c = EOF THEN <<EofTag>> ELSE IF c = 62 THEN <<>> ELSE <<SlashInTag>>

CommentErr(t, c, In, cd) ==
    CASE t.st = "bc" -> Null(c)
      [] t.st = "mdo" -> IF Looks(In, t.pos, DashDash, FALSE) \/ Looks(In, t.pos, DoctypeW, TRUE) THEN <<>>
                         ELSE IF Looks(In, t.pos, CdataW, FALSE) THEN (IF cd THEN <<>> ELSE <<CdataInHtml>>) ELSE <<WrongOpen>>
      [] t.st = "cs" -> IF c = 62 THEN <<AbruptComment>> ELSE <<>>
      [] t.st = "csd" -> IF c = 62 THEN <<AbruptComment>> ELSE IF c = EOF THEN <<EofComment>> ELSE <<>>
      [] t.st = "c" -> IF c = EOF THEN <<EofComment>> ELSE Null(c)
      [] t.st \in {"ced", "ce"} -> IF c = EOF THEN <<EofComment>> ELSE <<>>
      [] t.st = "cltbdd" -> IF c = 62 \/ c = EOF THEN <<>> ELSE <<NestedComment>>
      [] t.st = "ceb" -> IF c = 62 THEN <<WrongClose>> ELSE IF c = EOF THEN <<EofComment>> ELSE <<>>
      [] t.st = "cdata" -> IF c = EOF THEN <<EofCdata>> ELSE <<>>
      [] OTHER -> <<>>

Quote(c) == c = 34 \/ c = 39
DoctypeErr(t, c, In) ==
    IF t.st = "bdt" THEN Null(c)
    ELSE IF c = EOF THEN <<EofDoctype>>
    ELSE CASE t.st = "dt" -> IF IsWs(c) \/ c = 62 THEN <<>> ELSE <<NoWsDoctypeName>>
           [] t.st = "bdn" -> IF c = 62 THEN <<NoDoctypeName>> ELSE Null(c)
           [] t.st = "dn" -> Null(c)
           [] t.st = "adn" -> IF IsWs(c) \/ c = 62 \/ Looks(In, t.pos, PublicW, TRUE) \/ Looks(In, t.pos, SystemW, TRUE) THEN <<>> ELSE <<AfterDoctypeName>>
           [] t.st = "adp" -> IF IsWs(c) THEN <<>> ELSE IF Quote(c) THEN <<NoWsPublic>> ELSE IF c = 62 THEN <<NoPublicId>> ELSE <<NoPublicQuote>>
           [] t.st = "bdp" -> IF IsWs(c) \/ Quote(c) THEN <<>> ELSE IF c = 62 THEN <<NoPublicId>> ELSE <<NoPublicQuote>>
           [] t.st \in {"dpd", "dps"} -> IF c = 62 THEN <<AbruptPublic>> ELSE Null(c)
           [] t.st = "adpi" -> IF IsWs(c) \/ c = 62 THEN <<>> ELSE IF Quote(c) THEN <<NoWsBetweenIds>> ELSE <<NoSystemQuote>>
           [] t.st = "bps" -> IF IsWs(c) \/ c = 62 \/ Quote(c) THEN <<>> ELSE <<NoSystemQuote>>
           [] t.st = "ads" -> IF IsWs(c) THEN <<>> ELSE IF Quote(c) THEN <<NoWsSystem>> ELSE IF c = 62 THEN <<NoSystemId>> ELSE <<NoSystemQuote>>
           [] t.st = "bds" -> IF IsWs(c) \/ Quote(c) THEN <<>> ELSE IF c = 62 THEN <<NoSystemId>> ELSE <<NoSystemQuote>>
           [] t.st \in {"dsd", "dss"} -> IF c = 62 THEN <<AbruptSystem>> ELSE Null(c)
           [] t.st = "adsi" -> IF IsWs(c) \/ c = 62 THEN <<>> ELSE <<AfterSystemId>>

RefErr(t, c, In) ==
    CASE t.st = "nref" ->
           LET k == EntityLen(In, t.pos)
               nx == IF t.pos + k <= Len(In) THEN In[t.pos + k] ELSE EOF
           IN IF k = 0 \/ In[t.pos + k - 1] = 59 \/ (InAttr(t) /\ (nx = 61 \/ IsAlnum(nx))) THEN <<>> ELSE <<NoSemicolon>>
      [] t.st = "amp" -> IF c = 59 THEN <<UnknownRef>> ELSE <<>>
      [] t.st = "hexs" -> IF IsHex(c) THEN <<>> ELSE <<NoDigits>>
      [] t.st = "decs" -> IF IsDigit(c) THEN <<>> ELSE <<NoDigits>>
      [] t.st = "hex" -> IF IsHex(c) THEN <<>> ELSE (IF c = 59 THEN <<>> ELSE <<NoSemicolon>>) \o RefErrs(t.code)
      [] t.st = "dec" -> IF IsDigit(c) THEN <<>> ELSE (IF c = 59 THEN <<>> ELSE <<NoSemicolon>>) \o RefErrs(t.code)
      [] OTHER -> <<>>

ScriptErr(t, c) == IF t.st \in {"sx", "sxd", "sxdd", "sdx", "sdxd", "sdxdd"} THEN (IF c = EOF THEN <<EofScriptComment>> ELSE Null(c)) ELSE <<>>

\* the tags emitted in the step from t to u; ack: names of the start tags whose self-closing flag the consumer acknowledges
EmitErr(t, u, ack) ==
    IF Len(u.out) = Len(t.out) THEN <<>>
    ELSE LET k == u.out[Len(u.out)] IN
         IF k.t = "e" THEN (IF k.a # <<>> THEN <<EndTagAttrs>> ELSE <<>>) \o (IF k.sc THEN <<EndTagSlash>> ELSE <<>>)
         ELSE IF k.t = "s" /\ k.sc /\ k.n \notin ack THEN <<SelfClosing>>
         ELSE <<>>

Errs(t, In, cd, ack) ==
    LET c == IF t.pos <= Len(In) THEN In[t.pos] ELSE EOF
        own == CASE t.st \in TextStates -> Null(c)
                 [] t.st \in TagStates -> TagErr(t, c)
                 [] t.st \in ScriptStates -> ScriptErr(t, c)
                 [] t.st \in CommentStates -> CommentErr(t, c, In, cd)
                 [] t.st \in DoctypeStates -> DoctypeErr(t, c, In)
                 [] t.st \in RefStates -> RefErr(t, c, In)
    IN own \o EmitErr(t, Step(t, In, cd), ack)

RECURSIVE ErrFrom(_, _, _, _, _)
ErrFrom(t, In, cd, ack, acc) == IF t.done THEN acc ELSE ErrFrom(Step(t, In, cd), In, cd, ack, acc \o Errs(t, In, cd, ack))
Errors(input, state, last, cd, ack) == ErrFrom(Tok0(state, last), Normalise(input), cd, ack, <<>>)
=============================================================================
