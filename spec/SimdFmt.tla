------------------------------- MODULE SimdFmt -------------------------------
(* C16: formatting.  Strings are TLA+ strings.  Flags of an event:            *)
(*   wd width (-1: none), fl fill (one character), al alignment (0 none,      *)
(*   1 left, 2 center, 3 right), plus, alt, zero (0/1); room: how many        *)
(*   characters the sink takes before it fails (-1: all), e: 1 if an error    *)
(*   came back.                                                               *)
EXTENDS SimdTypes, TLC

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n-1)
DigitsLo == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
DigitsUp == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
\* several digits at a time: base^Chunk(base) = Pow(base)
Chunk(base) == CASE base = 2 -> 16 [] base = 8 -> 6 [] base = 10 -> 6 [] base = 16 -> 4
Pow(base)   == CASE base = 2 -> 65536 [] base = 8 -> 262144 [] base = 10 -> 1000000 [] base = 16 -> 65536
RECURSIVE SmallText(_, _, _, _)
SmallText(k, n, base, tab) ==      \* at least n digits of the TLC integer k
  IF k = 0 /\ n <= 0 THEN "" ELSE SmallText(k \div base, n - 1, base, tab) \o tab[(k % base) + 1]
RECURSIVE Digits(_, _, _)
Digits(a, base, tab) ==            \* a # 0 and normal; most significant digit first
  LET qr == DivSmall(a, Pow(base))
      q  == Norm(qr[1])
  IN  IF q = <<>> THEN SmallText(qr[2], 1, base, tab)
      ELSE Digits(q, base, tab) \o SmallText(qr[2], Chunk(base), base, tab)
Number(a, base, tab) == IF IsZero(a) THEN "0" ELSE Digits(Norm(a), base, tab)

\* padding of text s to the width; dflt is the alignment when none was asked for
Pad(ev, s, dflt) ==
  LET k == ev.wd - Len(s)
      al == IF ev.al = 0 THEN dflt ELSE ev.al
      lft == IF al = 1 THEN 0 ELSE IF al = 3 THEN k ELSE k \div 2
  IN  IF k <= 0 THEN s ELSE Rep(ev.fl, lft) \o s \o Rep(ev.fl, k - lft)
\* an integer: sign, prefix (alternate form), digits
PadInt(ev, neg, prefix, digits) ==
  LET sign == IF neg THEN "-" ELSE IF ev.plus = 1 THEN "+" ELSE ""
      pre  == sign \o (IF ev.alt = 1 THEN prefix ELSE "")
  IN  IF ev.zero = 1 THEN pre \o Rep("0", ev.wd - Len(pre) - Len(digits)) \o digits
      ELSE Pad(ev, pre \o digits, 3)
IntText(ev, T, a) ==
  CASE ev.op = "debug"    -> PadInt(ev, Neg(Signed(T), a), "", Number(Mag(Signed(T), a), 10, DigitsLo))
    [] ev.op \in {"lowerhex", "debugx"} -> PadInt(ev, FALSE, "0x", Number(a, 16, DigitsLo))
    [] ev.op \in {"upperhex", "debugX"} -> PadInt(ev, FALSE, "0x", Number(a, 16, DigitsUp))
    [] ev.op = "octal"    -> PadInt(ev, FALSE, "0o", Number(a, 8, DigitsLo))
    [] ev.op = "binary"   -> PadInt(ev, FALSE, "0b", Number(a, 2, DigitsLo))
\* text of lane i: integers and booleans are specified here, the text of a
\* float or pointer lane is the scalar's own (ev.x, from the standard library)
LaneText(ev, T, i) ==
  LET a == Lane(ev.a, T.w, i) IN
  CASE T.k \in {"i", "u"} -> IntText(ev, T, a)
    [] T.k = "m" -> Pad(ev, IF a = Ones(T.w) THEN "true" ELSE "false", 1)
    [] OTHER -> ev.x[i]
RECURSIVE Join(_, _, _)
Join(ev, T, i) == LaneText(ev, T, i) \o (IF i = T.n THEN "" ELSE ", " \o Join(ev, T, i+1))
FmtOps == {"debug", "debugx", "debugX", "lowerhex", "upperhex", "octal", "binary", "smask_debug"}
FmtOK(ev) ==
  /\ ev.p = 0
  /\ IF ev.op = "smask_debug"
     THEN ev.r = ev.nm \o "(" \o (IF ev.a[1] = 1 THEN "true" ELSE "false") \o ")"
     ELSE LET T == Types[ev.t] IN
          \* the printed name: the vector type's, with the pointee for pointers
          LET name == IF T.k = "p" THEN ev.t \o "<" \o ev.nm \o ">" ELSE ev.t
              text == name \o "(" \o Join(ev, T, 1) \o ")"
              cut  == ev.room # -1 /\ ev.room < Len(text)
          IN  \* a sink with too little room has got the beginning, and its error is passed on
              /\ ev.r = IF cut THEN SubSeq(text, 1, ev.room) ELSE text
              /\ ev.e = IF cut THEN 1 ELSE 0
=============================================================================
