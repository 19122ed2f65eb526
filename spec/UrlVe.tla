------------------------------- MODULE UrlVe -------------------------------
(* Validation errors of the URL Standard: whether reading a text is an error that does not stop the parser.  Errs says
   for one step of the machine of Url.tla whether it raises one; a text is valid when reading it raises none and succeeds. *)
EXTENDS Url

(* URL code points; Plane-end noncharacters and U+FDD0..FDEF are none *)
UrlCp(c) == \/ IsAlnum(c) \/ c \in {33, 36, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 61, 63, 64, 95, 126}
            \/ In(c, 160, 1114109) /\ ~In(c, 55296, 57343) /\ ~In(c, 64976, 65007) /\ (c % 65536) \notin {65534, 65535}
Two(in, p) == p + 2 <= Len(in) /\ IsHex(in[p + 1]) /\ IsHex(in[p + 2])       \* two hex digits follow position p
Stray(in, p) == IF in[p] = 37 THEN ~Two(in, p) ELSE ~UrlCp(in[p])
AnyStray(s) == \E p \in 1..Len(s) : Stray(s, p)

(* hosts that parse, but not without an error *)
V4Errs(s) == /\ ParseV4(s).t = 2
             /\ LET raw == Split(s, 46)
                    parts == IF raw[Len(raw)] = <<>> THEN SubSeq(raw, 1, Len(raw) - 1) ELSE raw
                IN \/ raw[Len(raw)] = <<>>
                   \/ \E i \in 1..Len(parts) : Len(parts[i]) >= 2 /\ parts[i][1] = 48
                   \/ LET v == V4Number(parts[Len(parts)]).v IN \E j \in 1..3 : v[j] # 0
HostErrs(s, notSpecial) ==
  IF s # <<>> /\ s[1] = 91 THEN FALSE
  ELSE IF notSpecial THEN AnyStray(s)
  ELSE V4Errs(DomainToAscii(Text(UTF8, UnpctText(s))).s)

HostStep(m, c) == (c = 58 /\ ~m.br) \/ Ends(c, m.u)
Errs(m, in, base) ==
  LET c == IF In(m.p, 1, Len(in)) THEN in[m.p] ELSE EOFc
      next == IF m.p >= 0 /\ m.p < Len(in) THEN in[m.p + 1] ELSE EOFc
      special == Special(m.u)
  IN CASE m.st = "scheme" -> c = 58 /\ m.buf = FILE /\ ~(m.p + 2 <= Len(in) /\ in[m.p + 1] = 47 /\ in[m.p + 2] = 47)
       [] m.st \in {"special relative or authority", "special authority slashes"} -> ~(c = 47 /\ next = 47)
       [] m.st = "relative" -> base[1].s \in SpecialSchemes /\ c = 92
       [] m.st = "relative slash" -> special /\ c = 92
       [] m.st = "special authority ignore slashes" -> c \in {47, 92}
       [] m.st = "authority" -> c = 64
       [] m.st \in {"host", "hostname"} -> HostStep(m, c) /\ m.buf # <<>> /\ HostErrs(m.buf, ~special)
       [] m.st = "file" -> c = 92 \/ (c \notin {47, 63, 35, EOFc} /\ base # <<>> /\ base[1].s = FILE /\ StartsDrive(in, m.p))
       [] m.st = "file slash" -> c = 92
       [] m.st = "file host" -> c \in {EOFc, 47, 92, 63, 35} /\ m.buf # <<>> /\ (Drive(m.buf) \/ HostErrs(m.buf, ~special))
       [] m.st = "path start" -> special /\ c = 92
       [] m.st = "path" -> IF c \in {EOFc, 47, 63, 35} THEN FALSE ELSE IF special /\ c = 92 THEN TRUE ELSE Stray(in, m.p)
       [] m.st = "cannot be a base" -> c \notin {EOFc, 63, 35} /\ Stray(in, m.p)
       [] m.st = "query" -> c \notin {EOFc, 35} /\ Stray(in, m.p)
       [] m.st = "fragment" -> c # EOFc /\ Stray(in, m.p)
       [] OTHER -> FALSE

RECURSIVE RunErrs(_, _, _, _)
RunErrs(m, in, base, e) == IF m.res # "run" THEN [ok |-> m.res = "done", ve |-> e]
                           ELSE RunErrs(Step(m, in, base, ""), in, base, e \/ Errs(m, in, base))
(* [ok, ve]: does s parse; does reading it raise a validation error *)
Judge(s, base, enc) == RunErrs(Start("scheme start", OutEnc(enc), NoUrl), Input(s), base, Input(s) # s)
=============================================================================
