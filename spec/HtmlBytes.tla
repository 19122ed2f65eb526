------------------------------ MODULE HtmlBytes ------------------------------
(* A document given as bytes (HTML Standard 13.2.3): its encoding, the confidence in it, and the tree made of the bytes.    *)
(* A reading is [enc, conf]; a meta element met while the confidence is tentative changes it ("changing the encoding while  *)
(* parsing"), whereupon the bytes are read again from the start.  A byte order mark comes before everything else.            *)
EXTENDS HtmlTree
Cd == INSTANCE Encoding

Conf == {"tentative", "certain", "irrelevant"}
WIN1252 == 22
Sp == {9, 10, 12, 13, 32}
W_charset == <<99, 104, 97, 114, 115, 101, 116>>
W_content == <<99, 111, 110, 116, 101, 110, 116>>
W_equiv == <<104, 116, 116, 112, 45, 101, 113, 117, 105, 118>>
W_ctype == W_content \o <<45, 116, 121, 112, 101>>

\* --- 2.5.2 extracting a character encoding from a meta element; 0: nothing ---
RECURSIVE SkipWs(_, _), FindW(_, _), FirstIn(_, _, _), Extract(_, _)
SkipWs(t, i) == IF i <= Len(t) /\ t[i] \in Sp THEN SkipWs(t, i + 1) ELSE i
FindW(t, i) == IF i + 6 > Len(t) THEN 0 ELSE IF SubSeq(t, i, i + 6) = W_charset THEN i ELSE FindW(t, i + 1)      \* the word charset, from i on
FirstIn(t, i, C) == IF i > Len(t) \/ t[i] \in C THEN i ELSE FirstIn(t, i + 1, C)
Extract(t, i) ==
    LET p == FindW(t, i) IN
    IF p = 0 THEN 0
    ELSE LET e == SkipWs(t, p + 7) IN
         IF e > Len(t) THEN 0
         ELSE IF t[e] # 61 THEN Extract(t, e)
         ELSE LET v == SkipWs(t, e + 1) IN
              IF v > Len(t) THEN 0
              ELSE IF t[v] \in {34, 39}
                   THEN LET z == FirstIn(t, v + 1, {t[v]}) IN IF z > Len(t) THEN 0 ELSE Cd!LabelName(SubSeq(t, v + 1, z - 1))
              ELSE Cd!LabelName(SubSeq(t, v, FirstIn(t, v, Sp \cup {59}) - 1))
ExtractMeta(t) == Extract(LowerSeq(t), 1)

\* --- what a meta element declares ---
Attr(a, w) == LET K == {i \in 1..Len(a) : a[i].n = w} IN IF K = {} THEN <<>> ELSE <<a[CHOOSE i \in K : \A j \in K : i <= j].v>>
Declares(a) ==
    LET cs == Attr(a, W_charset)  he == Attr(a, W_equiv)  co == Attr(a, W_content) IN
    IF cs # <<>> /\ Cd!LabelName(cs[1]) # 0 THEN Cd!LabelName(cs[1])
    ELSE IF he # <<>> /\ LowerSeq(he[1]) = W_ctype /\ co # <<>> THEN ExtractMeta(co[1])
    ELSE 0
RECURSIVE FirstDeclared(_, _)
FirstDeclared(ms, i) == IF i > Len(ms) THEN 0 ELSE LET d == Declares(ms[i]) IN IF d # 0 THEN d ELSE FirstDeclared(ms, i + 1)

\* --- readings ---
Opening(bytes, enc, conf) ==
    LET b == Cd!BomOf(bytes) IN
    IF b # 0 THEN [enc |-> b, conf |-> "certain"] ELSE [enc |-> IF enc = 0 THEN Cd!UTF8 ELSE enc, conf |-> conf]
Tree(bytes, enc) == RunDoc(Cd!HookDecode(enc, bytes), FALSE, FALSE)
\* 13.2.3.4 changing the encoding while parsing: the reading after a meta element declares d
Change(r, d) ==
    LET e == IF d \in {Cd!UTF16BE, Cd!UTF16LE} THEN Cd!UTF8 ELSE IF d = Cd!XUSER THEN WIN1252 ELSE d IN
    IF r.enc \in {Cd!UTF16BE, Cd!UTF16LE} THEN [r EXCEPT !.conf = "certain"] ELSE [enc |-> e, conf |-> "certain"]
After(r, tree) ==
    IF r.conf # "tentative" THEN r ELSE LET d == FirstDeclared(tree.metas, 1) IN IF d = 0 THEN r ELSE Change(r, d)
Read(bytes, enc, conf) ==
    LET r0 == Opening(bytes, enc, conf)
        t0 == Tree(bytes, r0.enc)
        r1 == After(r0, t0)
    IN [r |-> r1, tree |-> IF r1.enc = r0.enc THEN t0 ELSE Tree(bytes, r1.enc)]
=============================================================================
