--------------------------- MODULE HtmlTokenizer ---------------------------
(* The tokeniser of the HTML Standard (13.2.5) as a state machine over code points.  One step reads one code point (or the   *)
(* end of file, EOF), or looks ahead where the Standard does (markup declarations, DOCTYPE keywords, named references).      *)
(* A step may switch state without consuming ("reconsume").  Emitted tokens collect in t.out.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

EOF == -1
FFFD == 65533

\* --- named character references (the table of the Standard; data/entities.json) ---
EntityList == JsonDeserialize(IOEnv.SPECDATA \o "/entities.json")     \* [n |-> name without "&", c |-> code points]
EntityNames == {EntityList[i].n : i \in 1..Len(EntityList)}
MaxEntity == 33

\* --- classes ---
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsDigit(c) == c >= 48 /\ c <= 57
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c
IsWs(c) == c \in {9, 10, 12, 32}

\* --- the preprocessing of the input stream: newlines ---
RECURSIVE NormFrom(_, _, _)
NormFrom(s, i, acc) == IF i > Len(s) THEN acc
                       ELSE IF s[i] = 13 THEN NormFrom(s, IF i < Len(s) /\ s[i + 1] = 10 THEN i + 2 ELSE i + 1, Append(acc, 10))
                       ELSE NormFrom(s, i + 1, Append(acc, s[i]))
Normalise(s) == IF 13 \notin {s[i] : i \in 1..Len(s)} THEN s ELSE NormFrom(s, 1, <<>>)

\* --- tokens (one shape for all) ---
Token0 == [t |-> "", n |-> <<>>, d |-> <<>>, a |-> <<>>, sc |-> FALSE, p |-> <<>>, s |-> <<>>, hn |-> FALSE, hp |-> FALSE, hs |-> FALSE, q |-> FALSE]
CharTok(c) == [Token0 EXCEPT !.t = "c", !.d = <<c>>]
EofTok == [Token0 EXCEPT !.t = "f"]
NewTag(k) == [Token0 EXCEPT !.t = k]
Doctype0 == [Token0 EXCEPT !.t = "d"]
Comment0 == [Token0 EXCEPT !.t = "m"]

Tok0(state, last) == [st |-> state, ret |-> "data", tmp |-> <<>>, tag |-> Token0, com |-> Comment0, dt |-> Doctype0, last |-> last,
                      code |-> 0, out |-> <<>>, pos |-> 1, done |-> FALSE]

\* --- primitive actions ---
Go(t, s) == [t EXCEPT !.st = s, !.pos = @ + 1]
Stay(t) == [t EXCEPT !.pos = @ + 1]
Re(t, s) == [t EXCEPT !.st = s]
Put(t, tok) == [t EXCEPT !.out = Append(@, tok)]
RECURSIVE PutChars(_, _)
PutChars(t, cs) == IF cs = <<>> THEN t ELSE PutChars(Put(t, CharTok(Head(cs))), Tail(cs))
PutC(t, c) == Put(t, CharTok(c))
Finish(t) == [Put(t, EofTok) EXCEPT !.done = TRUE]
Tag(t, k) == [t EXCEPT !.tag = NewTag(k)]
NameC(t, c) == [t EXCEPT !.tag.n = Append(@, c)]
NewAttr(t, nm) == [t EXCEPT !.tag.a = Append(@, [n |-> nm, v |-> <<>>, om |-> FALSE])]
AttrN(t, c) == [t EXCEPT !.tag.a[Len(t.tag.a)].n = Append(@, c)]
AttrV(t, c) == [t EXCEPT !.tag.a[Len(t.tag.a)].v = Append(@, c)]
\* leaving the attribute name state: a later attribute of the same name is dropped
CheckDup(t) == LET k == Len(t.tag.a) IN
    IF k > 0 /\ \E i \in 1..(k - 1) : t.tag.a[i].n = t.tag.a[k].n THEN [t EXCEPT !.tag.a[k].om = TRUE] ELSE t
KeepAttr(x) == ~x.om
EmitTag(t) == LET kept == SelectSeq(t.tag.a, KeepAttr)
                  u == Put(t, [t.tag EXCEPT !.a = [i \in 1..Len(kept) |-> [n |-> kept[i].n, v |-> kept[i].v]]])
              IN IF t.tag.t = "s" THEN [u EXCEPT !.last = t.tag.n] ELSE u
EmitCom(t) == Put(t, t.com)
ComC(t, cs) == [t EXCEPT !.com.d = @ \o cs]
EmitDt(t) == Put(t, t.dt)
Quirk(t) == [t EXCEPT !.dt.q = TRUE]
Appropriate(t) == t.last # <<>> /\ t.tag.n = t.last
InAttr(t) == t.ret \in {"avdq", "avsq", "avuq"}
RECURSIVE AttrVs(_, _)
AttrVs(t, cs) == IF cs = <<>> THEN t ELSE AttrVs(AttrV(t, Head(cs)), Tail(cs))
FlushRef(t) == IF InAttr(t) THEN AttrVs(t, t.tmp) ELSE PutChars(t, t.tmp)

\* --- lookahead ---
Looks(In, i, word, fold) == i + Len(word) - 1 <= Len(In)
    /\ \A k \in 1..Len(word) : (IF fold THEN Lower(In[i + k - 1]) ELSE In[i + k - 1]) = word[k]
DashDash == <<45, 45>>
DoctypeW == <<100, 111, 99, 116, 121, 112, 101>>
CdataW == <<91, 67, 68, 65, 84, 65, 91>>
PublicW == <<112, 117, 98, 108, 105, 99>>
SystemW == <<115, 121, 115, 116, 101, 109>>
ScriptW == <<115, 99, 114, 105, 112, 116>>

\* longest name of the table that the input at i starts with; 0 if none
EntityLen(In, i) ==
    LET m == IF Len(In) - i + 1 < MaxEntity THEN Len(In) - i + 1 ELSE MaxEntity
        alnum == LET RECURSIVE A(_)
                     A(k) == IF k <= m /\ IsAlnum(In[i + k - 1]) THEN A(k + 1) ELSE k - 1
                 IN A(1)                                   \* a name is alphanumeric, with ";" behind it at most
        lim == IF alnum < m /\ In[i + alnum] = 59 THEN alnum + 1 ELSE alnum
        RECURSIVE D(_)
        D(k) == IF k = 0 THEN 0 ELSE IF SubSeq(In, i, i + k - 1) \in EntityNames THEN k ELSE D(k - 1)
    IN D(lim)
EntityCodes(nm) == EntityList[CHOOSE i \in 1..Len(EntityList) : EntityList[i].n = nm].c

\* --- numeric references ---
RefTable == 128 :> 8364 @@ 130 :> 8218 @@ 131 :> 402 @@ 132 :> 8222 @@ 133 :> 8230 @@ 134 :> 8224 @@ 135 :> 8225 @@ 136 :> 710 @@ 137 :> 8240 @@ 138 :> 352
    @@ 139 :> 8249 @@ 140 :> 338 @@ 142 :> 381 @@ 145 :> 8216 @@ 146 :> 8217 @@ 147 :> 8220 @@ 148 :> 8221 @@ 149 :> 8226 @@ 150 :> 8211 @@ 151 :> 8212
    @@ 152 :> 732 @@ 153 :> 8482 @@ 154 :> 353 @@ 155 :> 8250 @@ 156 :> 339 @@ 158 :> 382 @@ 159 :> 376
RefCode(c) == IF c = 0 \/ c > 1114111 \/ (c >= 55296 /\ c <= 57343) THEN FFFD ELSE IF c \in DOMAIN RefTable THEN RefTable[c] ELSE c
Digits(t, base, d) == [Stay(t) EXCEPT !.code = IF @ > 1114111 THEN @ ELSE (@ * base) + d]      \* beyond the last code point the value does not matter
EndRef(t) == LET u == FlushRef([t EXCEPT !.tmp = <<RefCode(t.code)>>]) IN [u EXCEPT !.st = t.ret]

\* --- the end tag name states of RCDATA, RAWTEXT, script data, script data escaped: home is the state to fall back to ---
EndTagName(t, c, home) ==
    IF IsWs(c) /\ Appropriate(t) THEN Go(t, "ban")
    ELSE IF c = 47 /\ Appropriate(t) THEN Go(t, "sc")
    ELSE IF c = 62 /\ Appropriate(t) THEN EmitTag(Go(t, "data"))
    ELSE IF IsAlpha(c) THEN [NameC(Stay(t), Lower(c)) EXCEPT !.tmp = Append(@, c)]
    ELSE Re(PutChars(t, <<60, 47>> \o t.tmp), home)
LessThan(t, c, next, home) == IF c = 47 THEN [Go(t, next) EXCEPT !.tmp = <<>>] ELSE Re(PutC(t, 60), home)
EndTagOpen(t, c, next, home) == IF IsAlpha(c) THEN Re(Tag(t, "e"), next) ELSE Re(PutChars(t, <<60, 47>>), home)
Text(t, c, amp, lt) ==                                       \* RCDATA, RAWTEXT, script data
    IF c = EOF THEN Finish(t)
    ELSE IF c = 38 /\ amp # "" THEN [Go(t, "cref") EXCEPT !.ret = amp]
    ELSE IF c = 60 /\ lt # "" THEN Go(t, lt)
    ELSE PutC(Stay(t), IF c = 0 THEN FFFD ELSE c)
AttrValue(t, c, q, me) ==                                     \* quoted values
    IF c = EOF THEN Finish(t)
    ELSE IF c = q THEN Go(t, "aavq")
    ELSE IF c = 38 THEN [Go(t, "cref") EXCEPT !.ret = me]
    ELSE AttrV(Stay(t), IF c = 0 THEN FFFD ELSE c)
\* the end of file inside a DOCTYPE
DtEof(t) == Finish(EmitDt(Quirk(t)))
DtId(t, c, q, f, after) ==
    IF c = EOF THEN DtEof(t)
    ELSE IF c = q THEN Go(t, after)
    ELSE IF c = 62 THEN EmitDt(Quirk(Go(t, "data")))
    ELSE IF f = "p" THEN [Stay(t) EXCEPT !.dt.p = Append(@, IF c = 0 THEN FFFD ELSE c)]
    ELSE [Stay(t) EXCEPT !.dt.s = Append(@, IF c = 0 THEN FFFD ELSE c)]
OpenId(t, f, q) == IF f = "p" THEN [Go(t, IF q = 34 THEN "dpd" ELSE "dps") EXCEPT !.dt.p = <<>>, !.dt.hp = TRUE]
                   ELSE [Go(t, IF q = 34 THEN "dsd" ELSE "dss") EXCEPT !.dt.s = <<>>, !.dt.hs = TRUE]
DtBefore(t, c, f, wsnext) ==                                  \* after the keyword or before the identifier
    IF c = EOF THEN DtEof(t)
    ELSE IF IsWs(c) THEN Go(t, wsnext)
    ELSE IF c = 34 \/ c = 39 THEN OpenId(t, f, c)
    ELSE IF c = 62 THEN EmitDt(Quirk(Go(t, "data")))
    ELSE Re(Quirk(t), "bdt")
DtBetween(t, c, wsnext) ==
    IF c = EOF THEN DtEof(t)
    ELSE IF IsWs(c) THEN Go(t, wsnext)
    ELSE IF c = 62 THEN EmitDt(Go(t, "data"))
    ELSE IF c = 34 \/ c = 39 THEN OpenId(t, "s", c)
    ELSE Re(Quirk(t), "bdt")

DataStep(t, c) ==
    IF c = EOF THEN Finish(t)
    ELSE IF c = 38 THEN [Go(t, "cref") EXCEPT !.ret = "data"]
    ELSE IF c = 60 THEN Go(t, "to")
    ELSE PutC(Stay(t), c)

TagStep(t, c) ==
    CASE t.st = "to" ->                                                            \* tag open
           IF c = 33 THEN Go(t, "mdo") ELSE IF c = 47 THEN Go(t, "eto")
           ELSE IF IsAlpha(c) THEN Re(Tag(t, "s"), "tn")
           ELSE IF c = 63 THEN Re([t EXCEPT !.com = Comment0], "bc")
           ELSE IF c = EOF THEN Finish(PutC(t, 60))
           ELSE Re(PutC(t, 60), "data")
      [] t.st = "eto" ->                                                           \* end tag open
           IF IsAlpha(c) THEN Re(Tag(t, "e"), "tn")
           ELSE IF c = 62 THEN Go(t, "data")
           ELSE IF c = EOF THEN Finish(PutChars(t, <<60, 47>>))
           ELSE Re([t EXCEPT !.com = Comment0], "bc")
      [] t.st = "tn" ->                                                            \* tag name
           IF IsWs(c) THEN Go(t, "ban") ELSE IF c = 47 THEN Go(t, "sc")
           ELSE IF c = 62 THEN EmitTag(Go(t, "data"))
           ELSE IF c = EOF THEN Finish(t)
           ELSE NameC(Stay(t), IF c = 0 THEN FFFD ELSE Lower(c))
      [] t.st = "ban" ->                                                           \* before attribute name
           IF IsWs(c) THEN Stay(t)
           ELSE IF c = 47 \/ c = 62 \/ c = EOF THEN Re(t, "aan")
           ELSE IF c = 61 THEN NewAttr(Go(t, "an"), <<61>>)
           ELSE Re(NewAttr(t, <<>>), "an")
      [] t.st = "an" ->                                                            \* attribute name
           IF IsWs(c) \/ c = 47 \/ c = 62 \/ c = EOF THEN Re(CheckDup(t), "aan")
           ELSE IF c = 61 THEN Go(CheckDup(t), "bav")
           ELSE AttrN(Stay(t), IF c = 0 THEN FFFD ELSE Lower(c))
      [] t.st = "aan" ->                                                           \* after attribute name
           IF IsWs(c) THEN Stay(t) ELSE IF c = 47 THEN Go(t, "sc") ELSE IF c = 61 THEN Go(t, "bav")
           ELSE IF c = 62 THEN EmitTag(Go(t, "data"))
           ELSE IF c = EOF THEN Finish(t)
           ELSE Re(NewAttr(t, <<>>), "an")
      [] t.st = "bav" ->                                                           \* before attribute value
           IF IsWs(c) THEN Stay(t) ELSE IF c = 34 THEN Go(t, "avdq") ELSE IF c = 39 THEN Go(t, "avsq")
           ELSE IF c = 62 THEN EmitTag(Go(t, "data"))
           ELSE Re(t, "avuq")
      [] t.st = "avdq" -> AttrValue(t, c, 34, "avdq")
      [] t.st = "avsq" -> AttrValue(t, c, 39, "avsq")
      [] t.st = "avuq" ->                                                          \* unquoted value
           IF IsWs(c) THEN Go(t, "ban")
           ELSE IF c = 38 THEN [Go(t, "cref") EXCEPT !.ret = "avuq"]
           ELSE IF c = 62 THEN EmitTag(Go(t, "data"))
           ELSE IF c = EOF THEN Finish(t)
           ELSE AttrV(Stay(t), IF c = 0 THEN FFFD ELSE c)
      [] t.st = "aavq" ->                                                          \* after quoted value
           IF IsWs(c) THEN Go(t, "ban") ELSE IF c = 47 THEN Go(t, "sc")
           ELSE IF c = 62 THEN EmitTag(Go(t, "data"))
           ELSE IF c = EOF THEN Finish(t)
           ELSE Re(t, "ban")
      [] t.st = "sc" ->                                                            \* self-closing start tag
           IF c = 62 THEN EmitTag([Go(t, "data") EXCEPT !.tag.sc = TRUE])
           ELSE IF c = EOF THEN Finish(t)
           ELSE Re(t, "ban")

ScriptStep(t, c) ==
    CASE t.st = "rlt" -> LessThan(t, c, "reo", "rcdata")
      [] t.st = "reo" -> EndTagOpen(t, c, "ren", "rcdata")
      [] t.st = "ren" -> EndTagName(t, c, "rcdata")
      [] t.st = "wlt" -> LessThan(t, c, "weo", "rawtext")
      [] t.st = "weo" -> EndTagOpen(t, c, "wen", "rawtext")
      [] t.st = "wen" -> EndTagName(t, c, "rawtext")
      [] t.st = "slt" -> IF c = 33 THEN PutChars(Go(t, "ses"), <<60, 33>>) ELSE LessThan(t, c, "seo", "script")
      [] t.st = "seo" -> EndTagOpen(t, c, "sen", "script")
      [] t.st = "sen" -> EndTagName(t, c, "script")
      [] t.st = "ses" -> IF c = 45 THEN PutC(Go(t, "sesd"), 45) ELSE Re(t, "script")       \* escape start
      [] t.st = "sesd" -> IF c = 45 THEN PutC(Go(t, "sxdd"), 45) ELSE Re(t, "script")      \* escape start dash
      [] t.st \in {"sx", "sxd", "sxdd"} ->                                                 \* escaped, escaped dash, escaped dash dash
           IF c = EOF THEN Finish(t)
           ELSE IF c = 45 THEN PutC(Go(t, IF t.st = "sx" THEN "sxd" ELSE "sxdd"), 45)
           ELSE IF c = 60 THEN Go(t, "sxlt")
           ELSE IF c = 62 /\ t.st = "sxdd" THEN PutC(Go(t, "script"), 62)
           ELSE PutC(Go(t, "sx"), IF c = 0 THEN FFFD ELSE c)
      [] t.st = "sxlt" ->                                                                   \* escaped less-than sign
           IF c = 47 THEN [Go(t, "sxeo") EXCEPT !.tmp = <<>>]
           ELSE IF IsAlpha(c) THEN Re(PutC([t EXCEPT !.tmp = <<>>], 60), "sds")
           ELSE Re(PutC(t, 60), "sx")
      [] t.st = "sxeo" -> EndTagOpen(t, c, "sxen", "sx")
      [] t.st = "sxen" -> EndTagName(t, c, "sx")
      [] t.st = "sds" ->                                                                    \* double escape start
           IF IsWs(c) \/ c = 47 \/ c = 62 THEN PutC(Go(t, IF t.tmp = ScriptW THEN "sdx" ELSE "sx"), c)
           ELSE IF IsAlpha(c) THEN PutC([Stay(t) EXCEPT !.tmp = Append(@, Lower(c))], c)
           ELSE Re(t, "sx")
      [] t.st \in {"sdx", "sdxd", "sdxdd"} ->                                               \* double escaped
           IF c = EOF THEN Finish(t)
           ELSE IF c = 45 THEN PutC(Go(t, IF t.st = "sdx" THEN "sdxd" ELSE "sdxdd"), 45)
           ELSE IF c = 60 THEN PutC(Go(t, "sdlt"), 60)
           ELSE IF c = 62 /\ t.st = "sdxdd" THEN PutC(Go(t, "script"), 62)
           ELSE PutC(Go(t, "sdx"), IF c = 0 THEN FFFD ELSE c)
      [] t.st = "sdlt" -> IF c = 47 THEN PutC([Go(t, "sde") EXCEPT !.tmp = <<>>], 47) ELSE Re(t, "sdx")
      [] t.st = "sde" ->                                                                    \* double escape end
           IF IsWs(c) \/ c = 47 \/ c = 62 THEN PutC(Go(t, IF t.tmp = ScriptW THEN "sx" ELSE "sdx"), c)
           ELSE IF IsAlpha(c) THEN PutC([Stay(t) EXCEPT !.tmp = Append(@, Lower(c))], c)
           ELSE Re(t, "sdx")

\* cd: the adjusted current node exists and is not an HTML element
CommentStep(t, c, In, cd) ==
    CASE t.st = "bc" ->                                                            \* bogus comment
           IF c = EOF THEN Finish(EmitCom(t))
           ELSE IF c = 62 THEN EmitCom(Go(t, "data"))
           ELSE ComC(Stay(t), <<IF c = 0 THEN FFFD ELSE c>>)
      [] t.st = "mdo" ->                                                           \* markup declaration open
           IF Looks(In, t.pos, DashDash, FALSE) THEN [t EXCEPT !.pos = @ + 2, !.st = "cs", !.com = Comment0]
           ELSE IF Looks(In, t.pos, DoctypeW, TRUE) THEN [t EXCEPT !.pos = @ + 7, !.st = "dt"]
           ELSE IF Looks(In, t.pos, CdataW, FALSE) THEN
                  IF cd THEN [t EXCEPT !.pos = @ + 7, !.st = "cdata"]
                  ELSE [t EXCEPT !.pos = @ + 7, !.st = "bc", !.com = [Comment0 EXCEPT !.d = CdataW]]
           ELSE [t EXCEPT !.st = "bc", !.com = Comment0]
      [] t.st = "cs" ->                                                            \* comment start
           IF c = 45 THEN Go(t, "csd") ELSE IF c = 62 THEN EmitCom(Go(t, "data")) ELSE Re(t, "c")
      [] t.st = "csd" ->
           IF c = 45 THEN Go(t, "ce") ELSE IF c = 62 THEN EmitCom(Go(t, "data"))
           ELSE IF c = EOF THEN Finish(EmitCom(t)) ELSE Re(ComC(t, <<45>>), "c")
      [] t.st = "c" ->                                                             \* comment
           IF c = 60 THEN ComC(Go(t, "clt"), <<60>>) ELSE IF c = 45 THEN Go(t, "ced")
           ELSE IF c = EOF THEN Finish(EmitCom(t)) ELSE ComC(Stay(t), <<IF c = 0 THEN FFFD ELSE c>>)
      [] t.st = "clt" -> IF c = 33 THEN ComC(Go(t, "cltb"), <<33>>) ELSE IF c = 60 THEN ComC(Stay(t), <<60>>) ELSE Re(t, "c")
      [] t.st = "cltb" -> IF c = 45 THEN Go(t, "cltbd") ELSE Re(t, "c")
      [] t.st = "cltbd" -> IF c = 45 THEN Go(t, "cltbdd") ELSE Re(t, "ced")
      [] t.st = "cltbdd" -> Re(t, "ce")
      [] t.st = "ced" ->                                                           \* comment end dash
           IF c = 45 THEN Go(t, "ce") ELSE IF c = EOF THEN Finish(EmitCom(t)) ELSE Re(ComC(t, <<45>>), "c")
      [] t.st = "ce" ->                                                            \* comment end
           IF c = 62 THEN EmitCom(Go(t, "data")) ELSE IF c = 33 THEN Go(t, "ceb") ELSE IF c = 45 THEN ComC(Stay(t), <<45>>)
           ELSE IF c = EOF THEN Finish(EmitCom(t)) ELSE Re(ComC(t, <<45, 45>>), "c")
      [] t.st = "ceb" ->                                                           \* comment end bang
           IF c = 45 THEN ComC(Go(t, "ced"), <<45, 45, 33>>) ELSE IF c = 62 THEN EmitCom(Go(t, "data"))
           ELSE IF c = EOF THEN Finish(EmitCom(t)) ELSE Re(ComC(t, <<45, 45, 33>>), "c")
      [] t.st = "cdata" -> IF c = 93 THEN Go(t, "cdb") ELSE IF c = EOF THEN Finish(t) ELSE PutC(Stay(t), c)
      [] t.st = "cdb" -> IF c = 93 THEN Go(t, "cde") ELSE Re(PutC(t, 93), "cdata")
      [] t.st = "cde" -> IF c = 93 THEN PutC(Stay(t), 93) ELSE IF c = 62 THEN Go(t, "data") ELSE Re(PutChars(t, <<93, 93>>), "cdata")

DoctypeStep(t, c, In) ==
    CASE t.st = "dt" -> IF c = EOF THEN DtEof([t EXCEPT !.dt = Doctype0]) ELSE IF IsWs(c) THEN Go(t, "bdn") ELSE Re(t, "bdn")
      [] t.st = "bdn" ->                                                           \* before DOCTYPE name
           IF IsWs(c) THEN Stay(t)
           ELSE IF c = EOF THEN DtEof([t EXCEPT !.dt = Doctype0])
           ELSE IF c = 62 THEN EmitDt(Quirk([Go(t, "data") EXCEPT !.dt = Doctype0]))
           ELSE [Go(t, "dn") EXCEPT !.dt = [Doctype0 EXCEPT !.n = <<IF c = 0 THEN FFFD ELSE Lower(c)>>, !.hn = TRUE]]
      [] t.st = "dn" ->                                                            \* DOCTYPE name
           IF c = EOF THEN DtEof(t) ELSE IF IsWs(c) THEN Go(t, "adn") ELSE IF c = 62 THEN EmitDt(Go(t, "data"))
           ELSE [Stay(t) EXCEPT !.dt.n = Append(@, IF c = 0 THEN FFFD ELSE Lower(c))]
      [] t.st = "adn" ->                                                           \* after DOCTYPE name
           IF c = EOF THEN DtEof(t) ELSE IF IsWs(c) THEN Stay(t) ELSE IF c = 62 THEN EmitDt(Go(t, "data"))
           ELSE IF Looks(In, t.pos, PublicW, TRUE) THEN [t EXCEPT !.pos = @ + 6, !.st = "adp"]
           ELSE IF Looks(In, t.pos, SystemW, TRUE) THEN [t EXCEPT !.pos = @ + 6, !.st = "ads"]
           ELSE Re(Quirk(t), "bdt")
      [] t.st = "adp" -> DtBefore(t, c, "p", "bdp")
      [] t.st = "bdp" -> DtBefore(t, c, "p", "bdp")
      [] t.st = "dpd" -> DtId(t, c, 34, "p", "adpi")
      [] t.st = "dps" -> DtId(t, c, 39, "p", "adpi")
      [] t.st = "adpi" -> DtBetween(t, c, "bps")
      [] t.st = "bps" -> DtBetween(t, c, "bps")
      [] t.st = "ads" -> DtBefore(t, c, "s", "bds")
      [] t.st = "bds" -> DtBefore(t, c, "s", "bds")
      [] t.st = "dsd" -> DtId(t, c, 34, "s", "adsi")
      [] t.st = "dss" -> DtId(t, c, 39, "s", "adsi")
      [] t.st = "adsi" ->                                                          \* after DOCTYPE system identifier
           IF c = EOF THEN DtEof(t) ELSE IF IsWs(c) THEN Stay(t) ELSE IF c = 62 THEN EmitDt(Go(t, "data")) ELSE Re(t, "bdt")
      [] t.st = "bdt" ->                                                           \* bogus DOCTYPE
           IF c = EOF THEN Finish(EmitDt(t)) ELSE IF c = 62 THEN EmitDt(Go(t, "data")) ELSE Stay(t)

RefStep(t, c, In) ==
    CASE t.st = "cref" ->                                                          \* character reference
           IF IsAlnum(c) THEN Re([t EXCEPT !.tmp = <<38>>], "nref")
           ELSE IF c = 35 THEN [Go(t, "num") EXCEPT !.tmp = <<38, 35>>]
           ELSE Re(FlushRef([t EXCEPT !.tmp = <<38>>]), t.ret)
      [] t.st = "nref" ->                                                          \* named character reference
           LET k == EntityLen(In, t.pos)
               nm == SubSeq(In, t.pos, t.pos + k - 1)
               nx == IF t.pos + k <= Len(In) THEN In[t.pos + k] ELSE EOF
           IN IF k = 0 THEN Re(FlushRef(t), "amp")
              ELSE IF InAttr(t) /\ nm[k] # 59 /\ (nx = 61 \/ IsAlnum(nx))
                   THEN LET u == FlushRef([t EXCEPT !.tmp = @ \o nm]) IN [u EXCEPT !.pos = @ + k, !.st = t.ret]
              ELSE LET u == FlushRef([t EXCEPT !.tmp = EntityCodes(nm)]) IN [u EXCEPT !.pos = @ + k, !.st = t.ret]
      [] t.st = "amp" ->                                                           \* ambiguous ampersand
           IF IsAlnum(c) THEN (IF InAttr(t) THEN AttrV(Stay(t), c) ELSE PutC(Stay(t), c)) ELSE Re(t, t.ret)
      [] t.st = "num" ->                                                           \* numeric character reference
           IF c = 120 \/ c = 88 THEN [Go(t, "hexs") EXCEPT !.tmp = Append(@, c), !.code = 0] ELSE Re([t EXCEPT !.code = 0], "decs")
      [] t.st = "hexs" -> IF IsHex(c) THEN Re(t, "hex") ELSE Re(FlushRef(t), t.ret)
      [] t.st = "decs" -> IF IsDigit(c) THEN Re(t, "dec") ELSE Re(FlushRef(t), t.ret)
      [] t.st = "hex" -> IF IsHex(c) THEN Digits(t, 16, HexVal(c)) ELSE IF c = 59 THEN EndRef(Stay(t)) ELSE EndRef(t)
      [] t.st = "dec" -> IF IsDigit(c) THEN Digits(t, 10, c - 48) ELSE IF c = 59 THEN EndRef(Stay(t)) ELSE EndRef(t)

TagStates == {"to", "eto", "tn", "ban", "an", "aan", "bav", "avdq", "avsq", "avuq", "aavq", "sc"}
ScriptStates == {"rlt", "reo", "ren", "wlt", "weo", "wen", "slt", "seo", "sen", "ses", "sesd", "sx", "sxd", "sxdd", "sxlt", "sxeo", "sxen", "sds", "sdx", "sdxd", "sdxdd", "sdlt", "sde"}
CommentStates == {"bc", "mdo", "cs", "csd", "c", "clt", "cltb", "cltbd", "cltbdd", "ced", "ce", "ceb", "cdata", "cdb", "cde"}
DoctypeStates == {"dt", "bdn", "dn", "adn", "adp", "bdp", "dpd", "dps", "adpi", "bps", "ads", "bds", "dsd", "dss", "adsi", "bdt"}
RefStates == {"cref", "nref", "amp", "num", "hexs", "decs", "hex", "dec"}
TextStates == {"data", "rcdata", "rawtext", "script", "plaintext"}
AllStates == TagStates \cup ScriptStates \cup CommentStates \cup DoctypeStates \cup RefStates \cup TextStates

Step(t, In, cd) ==
    LET c == IF t.pos <= Len(In) THEN In[t.pos] ELSE EOF IN
    CASE t.st = "data" -> DataStep(t, c)
      [] t.st = "rcdata" -> Text(t, c, "rcdata", "rlt")
      [] t.st = "rawtext" -> Text(t, c, "", "wlt")
      [] t.st = "script" -> Text(t, c, "", "slt")
      [] t.st = "plaintext" -> Text(t, c, "", "")
      [] t.st \in TagStates -> TagStep(t, c)
      [] t.st \in ScriptStates -> ScriptStep(t, c)
      [] t.st \in CommentStates -> CommentStep(t, c, In, cd)
      [] t.st \in DoctypeStates -> DoctypeStep(t, c, In)
      [] t.st \in RefStates -> RefStep(t, c, In)

\* --- a whole run, and the tokens with adjacent characters joined ---
RECURSIVE RunFrom(_, _, _)
RunFrom(t, In, cd) == IF t.done THEN t ELSE RunFrom(Step(t, In, cd), In, cd)
RECURSIVE Join(_, _, _)
Join(ts, i, acc) ==
    IF i > Len(ts) THEN acc
    ELSE IF ts[i].t = "c" /\ acc # <<>> /\ acc[Len(acc)].t = "c" THEN Join(ts, i + 1, [acc EXCEPT ![Len(acc)].d = @ \o ts[i].d])
    ELSE Join(ts, i + 1, Append(acc, ts[i]))
Tokens(input, state, last, cd) == LET In == Normalise(input) IN Join(RunFrom(Tok0(state, last), In, cd).out, 1, <<>>)
=============================================================================
