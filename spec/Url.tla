-------------------------------- MODULE Url --------------------------------
(* The basic URL parser of the URL Standard as a state machine (one step per code point), the URL record, the serialiser
   and the API's setters, transcribed from the Standard in the version the library implements (early 2021, with the
   cannot-be-a-base-URL flag), plus the Standard's later corrections that make serialisation reversible.

   A record: s scheme, u username, w password, h host (see UrlHost), p port (<<>> or <<n>>), path (segments),
   q query and f fragment (<<>> or <<text>>), c cannot-be-a-base-URL. *)
EXTENDS UrlHost

EOFc == -1
NoUrl == [s |-> <<>>, u |-> <<>>, w |-> <<>>, h |-> NullHost, p |-> <<>>, path |-> <<>>, q |-> <<>>, f |-> <<>>, c |-> FALSE]

Str == (1 :> <<102, 116, 112>>) @@ (2 :> <<102, 105, 108, 101>>) @@ (3 :> <<104, 116, 116, 112>>) @@ (4 :> <<104, 116, 116, 112, 115>>)
    @@ (5 :> <<119, 115>>) @@ (6 :> <<119, 115, 115>>)
FILE == Str[2]
SpecialSchemes == {Str[i] : i \in 1..6}
DefaultPort(s) == CASE s = Str[1] -> <<21>> [] s \in {Str[3], Str[5]} -> <<80>> [] s \in {Str[4], Str[6]} -> <<443>> [] OTHER -> <<>>
Special(u) == u.s \in SpecialSchemes
Credentials(u) == u.u # <<>> \/ u.w # <<>>
NoCredHost(u) == u.h.t = 0 \/ SerHost(u.h) = <<>> \/ u.c \/ u.s = FILE       \* cannot have a username/password/port

IsAlpha(c) == In(c, 65, 90) \/ In(c, 97, 122)
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)
Drive(s) == Len(s) = 2 /\ IsAlpha(s[1]) /\ s[2] \in {58, 124}
NormDrive(s) == Len(s) = 2 /\ IsAlpha(s[1]) /\ s[2] = 58
StartsDrive(in, p) == Len(in) - p + 1 >= 2 /\ Drive(SubSeq(in, p, p + 1)) /\ (Len(in) - p + 1 = 2 \/ in[p + 2] \in {47, 92, 63, 35})
LowerStr(s) == [i \in 1..Len(s) |-> Lower(s[i])]
SingleDot(s) == LowerStr(s) \in {<<46>>, <<37, 50, 101>>}
DoubleDot(s) == LowerStr(s) \in {<<46, 46>>, <<46, 37, 50, 101>>, <<37, 50, 101, 46>>, <<37, 50, 101, 37, 50, 101>>}
Shorten(u) == IF u.s = FILE /\ Len(u.path) = 1 /\ NormDrive(u.path[1]) THEN u
              ELSE IF u.path = <<>> THEN u ELSE [u EXCEPT !.path = SubSeq(@, 1, Len(@) - 1)]

States == {"scheme start", "scheme", "no scheme", "special relative or authority", "path or authority", "relative", "relative slash",
           "special authority slashes", "special authority ignore slashes", "authority", "host", "hostname", "port", "file", "file slash",
           "file host", "path start", "path", "cannot be a base", "query", "fragment"}

(* machine state: st, p (1-based pointer), buf, at, br, pw, enc, u, res \in {"run", "done", "fail", "return"} *)
Start(st, enc, u) == [st |-> st, p |-> 1, buf |-> <<>>, at |-> FALSE, br |-> FALSE, pw |-> FALSE, enc |-> enc, u |-> u, res |-> "run"]
Go(m, st) == [m EXCEPT !.st = st]
Back(m, st) == [m EXCEPT !.st = st, !.p = @ - 1]
Failed(m) == [m EXCEPT !.res = "fail"]
Ret(m) == [m EXCEPT !.res = "return"]
ToQuery(m) == [m EXCEPT !.st = "query", !.u.q = <<<<>>>>]
ToFragment(m) == [m EXCEPT !.st = "fragment", !.u.f = <<<<>>>>]

OnSchemeStart(m, c, ov) ==
  IF IsAlpha(c) THEN [m EXCEPT !.st = "scheme", !.buf = Append(@, Lower(c))]
  ELSE IF ov = "" THEN Back(m, "no scheme") ELSE Failed(m)

OnScheme(m, c, in, base, ov) ==
  IF IsAlnum(c) \/ c \in {43, 45, 46} THEN [m EXCEPT !.buf = Append(@, Lower(c))]
  ELSE IF c = 58 THEN
    IF ov # "" THEN
      IF \/ Special(m.u) # (m.buf \in SpecialSchemes)
         \/ (Credentials(m.u) \/ m.u.p # <<>>) /\ m.buf = FILE
         \/ m.u.s = FILE /\ m.u.h.t = 5
      THEN Ret(m)
      ELSE Ret([m EXCEPT !.u.s = m.buf, !.u.p = IF @ # <<>> /\ @ = DefaultPort(m.buf) THEN <<>> ELSE @])
    ELSE LET m1 == [m EXCEPT !.u.s = m.buf, !.buf = <<>>] IN
      IF m1.u.s = FILE THEN Go(m1, "file")
      ELSE IF Special(m1.u) /\ base # <<>> /\ base[1].s = m1.u.s THEN Go(m1, "special relative or authority")
      ELSE IF Special(m1.u) THEN Go(m1, "special authority slashes")
      ELSE IF m.p < Len(in) /\ in[m.p + 1] = 47 THEN [m1 EXCEPT !.st = "path or authority", !.p = @ + 1]
      ELSE [m1 EXCEPT !.u.c = TRUE, !.u.path = <<<<>>>>, !.st = "cannot be a base"]
  ELSE IF ov = "" THEN [m EXCEPT !.buf = <<>>, !.st = "no scheme", !.p = 0]
  ELSE Failed(m)

OnNoScheme(m, c, base) ==
  IF base = <<>> \/ (base[1].c /\ c # 35) THEN Failed(m)
  ELSE LET b == base[1] IN
    IF b.c THEN ToFragment([m EXCEPT !.u = [@ EXCEPT !.s = b.s, !.path = b.path, !.q = b.q, !.c = TRUE]])
    ELSE IF b.s # FILE THEN Back(m, "relative") ELSE Back(m, "file")

OnSpecialRelOrAuth(m, c, in) ==
  IF c = 47 /\ m.p < Len(in) /\ in[m.p + 1] = 47 THEN [m EXCEPT !.st = "special authority ignore slashes", !.p = @ + 1]
  ELSE Back(m, "relative")
OnPathOrAuth(m, c) == IF c = 47 THEN Go(m, "authority") ELSE Back(m, "path")

OnRelative(m0, c, base) ==
  LET b == base[1]  m == [m0 EXCEPT !.u.s = b.s] IN
  IF c = 47 \/ (Special(m.u) /\ c = 92) THEN Go(m, "relative slash")
  ELSE LET m1 == [m EXCEPT !.u = [@ EXCEPT !.u = b.u, !.w = b.w, !.h = b.h, !.p = b.p, !.path = b.path, !.q = b.q]] IN
    IF c = 63 THEN ToQuery(m1) ELSE IF c = 35 THEN ToFragment(m1)
    ELSE IF c = EOFc THEN m1
    ELSE [m1 EXCEPT !.u = Shorten([@ EXCEPT !.q = <<>>]), !.st = "path", !.p = @ - 1]
OnRelativeSlash(m, c, base) ==
  LET b == base[1] IN
  IF Special(m.u) /\ c \in {47, 92} THEN Go(m, "special authority ignore slashes")
  ELSE IF c = 47 THEN Go(m, "authority")
  ELSE Back([m EXCEPT !.u = [@ EXCEPT !.u = b.u, !.w = b.w, !.h = b.h, !.p = b.p]], "path")

OnSpecialAuthSlashes(m, c, in) ==
  IF c = 47 /\ m.p < Len(in) /\ in[m.p + 1] = 47 THEN [m EXCEPT !.st = "special authority ignore slashes", !.p = @ + 1]
  ELSE Back(m, "special authority ignore slashes")
OnSpecialAuthIgnore(m, c) == IF c \notin {47, 92} THEN Back(m, "authority") ELSE m

RECURSIVE UserInfo(_, _, _, _, _)
UserInfo(b, i, pw, u, w) ==
  IF i > Len(b) THEN [pw |-> pw, u |-> u, w |-> w]
  ELSE IF b[i] = 58 /\ ~pw THEN UserInfo(b, i + 1, TRUE, u, w)
  ELSE LET e == Utf8Pct(KUserinfo, <<b[i]>>) IN IF pw THEN UserInfo(b, i + 1, pw, u, w \o e) ELSE UserInfo(b, i + 1, pw, u \o e, w)
Ends(c, u) == c \in {EOFc, 47, 63, 35} \/ (Special(u) /\ c = 92)
OnAuthority(m, c) ==
  IF c = 64 THEN
    LET r == UserInfo((IF m.at THEN <<37, 52, 48>> ELSE <<>>) \o m.buf, 1, m.pw, m.u.u, m.u.w) IN
    [m EXCEPT !.at = TRUE, !.pw = r.pw, !.u = [@ EXCEPT !.u = r.u, !.w = r.w], !.buf = <<>>]
  ELSE IF Ends(c, m.u) THEN
    IF m.at /\ m.buf = <<>> THEN Failed(m) ELSE [m EXCEPT !.p = @ - (Len(m.buf) + 1), !.buf = <<>>, !.st = "host"]
  ELSE [m EXCEPT !.buf = Append(@, c)]

OnHost(m, c, ov) ==
  IF ov # "" /\ m.u.s = FILE THEN Back(m, "file host")
  ELSE IF c = 58 /\ ~m.br THEN
    IF m.buf = <<>> THEN Failed(m)
    ELSE LET h == ParseHost(m.buf, ~Special(m.u)) IN
      IF h.t = -1 THEN Failed(m)
      ELSE LET m1 == [m EXCEPT !.u.h = h, !.buf = <<>>, !.st = "port"] IN IF ov = "hostname" THEN Ret(m1) ELSE m1
  ELSE IF Ends(c, m.u) THEN
    IF Special(m.u) /\ m.buf = <<>> THEN Failed(m)
    ELSE IF ov # "" /\ m.buf = <<>> /\ (Credentials(m.u) \/ m.u.p # <<>>) THEN Ret(m)
    ELSE LET h == ParseHost(m.buf, ~Special(m.u)) IN
      IF h.t = -1 THEN Failed(m)
      ELSE LET m1 == [m EXCEPT !.p = @ - 1, !.u.h = h, !.buf = <<>>, !.st = "path start"] IN IF ov # "" THEN Ret(m1) ELSE m1
  ELSE [m EXCEPT !.br = IF c = 91 THEN TRUE ELSE IF c = 93 THEN FALSE ELSE @, !.buf = Append(@, c)]

RECURSIVE PortVal(_, _, _)
PortVal(b, i, v) == IF i > Len(b) THEN v ELSE IF v > 65535 THEN v ELSE PortVal(b, i + 1, v * 10 + b[i] - 48)
OnPort(m, c, ov) ==
  IF IsDigit(c) THEN [m EXCEPT !.buf = Append(@, c)]
  ELSE IF Ends(c, m.u) \/ ov # "" THEN
    LET v == PortVal(m.buf, 1, 0)
        m1 == IF m.buf = <<>> THEN m ELSE [m EXCEPT !.u.p = IF <<v>> = DefaultPort(m.u.s) THEN <<>> ELSE <<v>>, !.buf = <<>>]
    IN IF m.buf # <<>> /\ v > 65535 THEN Failed(m) ELSE IF ov # "" THEN Ret(m1) ELSE Back(m1, "path start")
  ELSE Failed(m)

OnFile(m0, c, in, base) ==
  LET m == [m0 EXCEPT !.u = [@ EXCEPT !.s = FILE, !.h = EmptyHost]] IN
  IF c \in {47, 92} THEN Go(m, "file slash")
  ELSE IF base # <<>> /\ base[1].s = FILE THEN
    LET b == base[1]  m1 == [m EXCEPT !.u = [@ EXCEPT !.h = b.h, !.path = b.path, !.q = b.q]] IN
    IF c = 63 THEN ToQuery(m1) ELSE IF c = 35 THEN ToFragment(m1) ELSE IF c = EOFc THEN m1
    ELSE LET m2 == [m1 EXCEPT !.u.q = <<>>] IN
      Back(IF StartsDrive(in, m.p) THEN [m2 EXCEPT !.u.path = <<>>] ELSE [m2 EXCEPT !.u = Shorten(@)], "path")
  ELSE Back(m, "path")
OnFileSlash(m, c, in, base) ==
  IF c \in {47, 92} THEN Go(m, "file host")
  ELSE IF base # <<>> /\ base[1].s = FILE THEN
    LET b == base[1]  m1 == [m EXCEPT !.u.h = b.h] IN
    Back(IF ~StartsDrive(in, m.p) /\ b.path # <<>> /\ NormDrive(b.path[1]) THEN [m1 EXCEPT !.u.path = Append(@, b.path[1])] ELSE m1, "path")
  ELSE Back(m, "path")
Localhost == <<108, 111, 99, 97, 108, 104, 111, 115, 116>>
OnFileHost(m, c, ov) ==
  IF c \in {EOFc, 47, 92, 63, 35} THEN
    IF ov = "" /\ Drive(m.buf) THEN Back(m, "path")
    ELSE IF m.buf = <<>> THEN LET m1 == [m EXCEPT !.u.h = EmptyHost] IN IF ov # "" THEN Ret(m1) ELSE Back(m1, "path start")
    ELSE LET h0 == ParseHost(m.buf, ~Special(m.u))  h == IF h0.t = 1 /\ h0.v = Localhost THEN EmptyHost ELSE h0 IN
      IF h.t = -1 THEN Failed(m)
      ELSE LET m1 == [m EXCEPT !.u.h = h] IN IF ov # "" THEN Ret(m1) ELSE Back([m1 EXCEPT !.buf = <<>>], "path start")
  ELSE [m EXCEPT !.buf = Append(@, c)]

OnPathStart(m, c, ov) ==
  IF Special(m.u) THEN IF c \in {47, 92} THEN Go(m, "path") ELSE Back(m, "path")
  ELSE IF ov = "" /\ c = 63 THEN ToQuery(m)
  ELSE IF ov = "" /\ c = 35 THEN ToFragment(m)
  ELSE IF c # EOFc THEN IF c = 47 THEN Go(m, "path") ELSE Back(m, "path")
  ELSE IF ov # "" /\ m.u.h.t = 0 THEN [m EXCEPT !.u.path = Append(@, <<>>)]
  ELSE m
OnPath(m, c, ov) ==
  LET slash == c = 47 \/ (Special(m.u) /\ c = 92) IN
  IF c = EOFc \/ slash \/ (ov = "" /\ c \in {63, 35}) THEN
    LET u1 == IF DoubleDot(m.buf) THEN LET x == Shorten(m.u) IN IF slash THEN x ELSE [x EXCEPT !.path = Append(@, <<>>)]
              ELSE IF SingleDot(m.buf) THEN IF slash THEN m.u ELSE [m.u EXCEPT !.path = Append(@, <<>>)]
              ELSE [m.u EXCEPT !.path = Append(@, IF m.u.s = FILE /\ m.u.path = <<>> /\ Drive(m.buf) THEN <<m.buf[1], 58>> ELSE m.buf)]
        m1 == [m EXCEPT !.u = u1, !.buf = <<>>]
    IN IF c = 63 THEN ToQuery(m1) ELSE IF c = 35 THEN ToFragment(m1) ELSE m1
  ELSE [m EXCEPT !.buf = @ \o Utf8Pct(KPath, <<c>>)]
OnCannot(m, c) ==
  IF c = 63 THEN ToQuery(m) ELSE IF c = 35 THEN ToFragment(m) ELSE IF c = EOFc THEN m
  ELSE [m EXCEPT !.u.path[1] = @ \o Utf8Pct(KC0, <<c>>)]
OnQuery(m0, c, ov) ==
  LET m == IF ~Special(m0.u) \/ m0.u.s \in {Str[5], Str[6]} THEN [m0 EXCEPT !.enc = UTF8] ELSE m0 IN
  IF (ov = "" /\ c = 35) \/ c = EOFc THEN
    LET m1 == [m EXCEPT !.u.q[1] = @ \o PctText(m.enc, IF Special(m.u) THEN KSpecialQuery ELSE KQuery, FALSE, m.buf), !.buf = <<>>] IN
    IF c = 35 THEN ToFragment(m1) ELSE m1
  ELSE [m EXCEPT !.buf = Append(@, c)]
OnFragment(m, c) == IF c = EOFc THEN m ELSE [m EXCEPT !.u.f[1] = @ \o Utf8Pct(KFragment, <<c>>)]

Step(m, in, base, ov) ==
  LET c == IF In(m.p, 1, Len(in)) THEN in[m.p] ELSE EOFc
      r == CASE m.st = "scheme start" -> OnSchemeStart(m, c, ov)
             [] m.st = "scheme" -> OnScheme(m, c, in, base, ov)
             [] m.st = "no scheme" -> OnNoScheme(m, c, base)
             [] m.st = "special relative or authority" -> OnSpecialRelOrAuth(m, c, in)
             [] m.st = "path or authority" -> OnPathOrAuth(m, c)
             [] m.st = "relative" -> OnRelative(m, c, base)
             [] m.st = "relative slash" -> OnRelativeSlash(m, c, base)
             [] m.st = "special authority slashes" -> OnSpecialAuthSlashes(m, c, in)
             [] m.st = "special authority ignore slashes" -> OnSpecialAuthIgnore(m, c)
             [] m.st = "authority" -> OnAuthority(m, c)
             [] m.st \in {"host", "hostname"} -> OnHost(m, c, ov)
             [] m.st = "port" -> OnPort(m, c, ov)
             [] m.st = "file" -> OnFile(m, c, in, base)
             [] m.st = "file slash" -> OnFileSlash(m, c, in, base)
             [] m.st = "file host" -> OnFileHost(m, c, ov)
             [] m.st = "path start" -> OnPathStart(m, c, ov)
             [] m.st = "path" -> OnPath(m, c, ov)
             [] m.st = "cannot be a base" -> OnCannot(m, c)
             [] m.st = "query" -> OnQuery(m, c, ov)
             [] OTHER -> OnFragment(m, c)
  IN IF r.res # "run" THEN r ELSE IF r.p > Len(in) THEN [r EXCEPT !.res = "done"] ELSE [r EXCEPT !.p = @ + 1]
RECURSIVE RunUrl(_, _, _, _)
RunUrl(m, in, base, ov) == IF m.res # "run" THEN m ELSE RunUrl(Step(m, in, base, ov), in, base, ov)

(* input preprocessing *)
C0Space(c) == c <= 32
Trim(s) == LET K == {i \in 1..Len(s) : ~C0Space(s[i])} IN
  IF K = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in K : \A j \in K : i <= j, CHOOSE i \in K : \A j \in K : j <= i)
NoNewline(s) == SelectSeq(s, LAMBDA c : c \notin {9, 10, 13})
Input(s) == NoNewline(Trim(s))
OutEnc(e) == IF e \in {REPL, UTF16BE, UTF16LE} THEN UTF8 ELSE e

(* parse: <<>> failure, <<record>> otherwise; base: <<>> or <<record>> *)
ParseUrl(s, base, enc) ==
  LET r == RunUrl(Start("scheme start", OutEnc(enc), NoUrl), Input(s), base, "") IN IF r.res = "done" THEN <<r.u>> ELSE <<>>

SerPath(u) == IF u.c THEN u.path[1] ELSE LET RECURSIVE F(_) F(i) == IF i > Len(u.path) THEN <<>> ELSE <<47>> \o u.path[i] \o F(i + 1) IN F(1)
SerUrl(u, nofrag) ==
  u.s \o <<58>>
  \o (IF u.h.t = 0 THEN <<>>
      ELSE <<47, 47>> \o (IF Credentials(u) THEN u.u \o (IF u.w = <<>> THEN <<>> ELSE <<58>> \o u.w) \o <<64>> ELSE <<>>)
           \o SerHost(u.h) \o (IF u.p = <<>> THEN <<>> ELSE <<58>> \o Digits(u.p[1])))
  \o (IF ~u.c /\ u.h.t = 0 /\ Len(u.path) > 1 /\ u.path[1] = <<>> THEN <<47, 46>> ELSE <<>>)
  \o SerPath(u)
  \o (IF u.q = <<>> THEN <<>> ELSE <<63>> \o u.q[1])
  \o (IF nofrag \/ u.f = <<>> THEN <<>> ELSE <<35>> \o u.f[1])

------------------------------------------------------------------------------------------------------------------
(* API getters and setters *)
GHost(u) == IF u.h.t = 0 THEN <<>> ELSE SerHost(u.h) \o (IF u.p = <<>> THEN <<>> ELSE <<58>> \o Digits(u.p[1]))
GHostname(u) == IF u.h.t = 0 THEN <<>> ELSE SerHost(u.h)
GPort(u) == IF u.p = <<>> THEN <<>> ELSE Digits(u.p[1])
GSearch(u) == IF u.q = <<>> THEN <<>> ELSE IF u.q[1] = <<>> THEN <<>> ELSE <<63>> \o u.q[1]
GHash(u) == IF u.f = <<>> THEN <<>> ELSE IF u.f[1] = <<>> THEN <<>> ELSE <<35>> \o u.f[1]

Override(u, s, st) == RunUrl(Start(st, UTF8, u), NoNewline(s), <<>>, st).u
RECURSIVE DropSpaces(_)
DropSpaces(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN DropSpaces(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* without a query and a fragment an opaque path must not end in spaces, or they would be lost on reparsing *)
StripOpaque(u) == IF u.c /\ u.q = <<>> /\ u.f = <<>> THEN [u EXCEPT !.path[1] = DropSpaces(@)] ELSE u

SetProtocol(u, s) == Override(u, Append(s, 58), "scheme start")
SetUsername(u, s) == IF NoCredHost(u) THEN u ELSE [u EXCEPT !.u = Utf8Pct(KUserinfo, s)]
SetPassword(u, s) == IF NoCredHost(u) THEN u ELSE [u EXCEPT !.w = Utf8Pct(KUserinfo, s)]
SetHost(u, s) == IF u.c THEN u ELSE Override(u, s, "host")
SetHostname(u, s) == IF u.c THEN u ELSE Override(u, s, "hostname")
SetPort(u, s) == IF NoCredHost(u) THEN u ELSE IF s = <<>> THEN [u EXCEPT !.p = <<>>] ELSE Override(u, s, "port")
SetPathname(u, s) == IF u.c THEN u ELSE Override([u EXCEPT !.path = <<>>], s, "path start")
SetSearch(u, s) == IF s = <<>> THEN StripOpaque([u EXCEPT !.q = <<>>])
                   ELSE Override([u EXCEPT !.q = <<<<>>>>], IF s[1] = 63 THEN Tail(s) ELSE s, "query")
SetHash(u, s) == IF s = <<>> THEN StripOpaque([u EXCEPT !.f = <<>>])
                 ELSE Override([u EXCEPT !.f = <<<<>>>>], IF s[1] = 35 THEN Tail(s) ELSE s, "fragment")
(* href: fails (throws) and changes nothing when the text is no absolute URL *)
SetHref(u, s) == LET r == ParseUrl(s, <<>>, UTF8) IN IF r = <<>> THEN u ELSE r[1]
Set(k, u, s) == CASE k = 0 -> SetProtocol(u, s) [] k = 1 -> SetUsername(u, s) [] k = 2 -> SetPassword(u, s) [] k = 3 -> SetHost(u, s)
                  [] k = 4 -> SetHostname(u, s) [] k = 5 -> SetPort(u, s) [] k = 6 -> SetPathname(u, s) [] k = 7 -> SetSearch(u, s)
                  [] k = 8 -> SetHash(u, s) [] OTHER -> SetHref(u, s)

------------------------------------------------------------------------------------------------------------------
(* What every URL record satisfies *)
WellFormed(u) ==
  /\ u.s # <<>>
  /\ u.c => u.h.t = 0 /\ Len(u.path) = 1
  /\ (Credentials(u) \/ u.p # <<>>) => (u.h.t \notin {0, 5} /\ SerHost(u.h) # <<>> /\ u.s # FILE)
  /\ u.p # <<>> => In(u.p[1], 0, 65535) /\ u.p # DefaultPort(u.s)
  /\ Special(u) => ~u.c /\ u.h.t # 0 /\ u.path # <<>>
  /\ (Special(u) /\ u.s # FILE) => u.h.t \in {1, 2, 3} /\ SerHost(u.h) # <<>>
  /\ ~u.c => \A i \in 1..Len(u.path) : ~SingleDot(u.path[i]) /\ ~DoubleDot(u.path[i]) /\ \A j \in 1..Len(u.path[i]) : u.path[i][j] # 47
(* an IPv4-looking or other host keeps its kind except that the empty host and an opaque host "" read the same *)
SameHost(a, b) == a = b \/ (a.t \in {4, 5} /\ b.t \in {4, 5} /\ a.v = <<>> /\ b.v = <<>>)
SameUrl(a, b) == [a EXCEPT !.h = b.h] = b /\ SameHost(a.h, b.h)
RoundTrip(u) == LET r == ParseUrl(SerUrl(u, FALSE), <<>>, UTF8) IN r # <<>> /\ SameUrl(r[1], u) /\ SerUrl(r[1], FALSE) = SerUrl(u, FALSE)
=============================================================================
