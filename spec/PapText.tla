------------------------------- MODULE PapText -------------------------------
(* Text, numbers and code point arithmetic shared by every PapilioCharontis  *)
(* specification module.                                                     *)
(*                                                                           *)
(* A text is a sequence of code points (Nat).  A 64-bit magnitude is a       *)
(* sequence of four 16-bit limbs, least significant first, because TLC's     *)
(* integers have 32 bits.  An integer value is [g |-> 0 or 1 (1: negative),  *)
(* l |-> limbs].                                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------------------- characters
LB == 123  \* {
RB == 125  \* }
DOLLAR == 36
COLON == 58
QUEST == 63
BANG == 33
EQ == 61
GT == 62
LT == 60
QUOTE == 39
DQUOTE == 34
BSLASH == 92
DOT == 46
LSB == 91
RSB == 93
MINUS == 45
PLUS == 43
SPACE == 32
HASH == 35
ZERO == 48
CARET == 94
UNDERSCORE == 95

IsDigit(c) == c >= 48 /\ c <= 57
\* The characters skipped as white space inside a scripted field
IsWs(c) == c \in {32, 9, 10, 11, 12, 13}
IsNameCh(c, first) ==
    \/ IsDigit(c) /\ ~first
    \/ c >= 65 /\ c <= 90
    \/ c >= 97 /\ c <= 122
    \/ c = UNDERSCORE
    \/ c >= 128
IsAlignCh(c) == c \in {LT, GT, CARET}
IsSignCh(c) == c \in {PLUS, SPACE, MINUS}

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Rep(c, n) == [i \in 1..n |-> c]

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>>
                 ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* First position >= p that does not hold a white space / digit / name character
RECURSIVE SkipWs(_, _)
SkipWs(S, p) == IF p <= Len(S) /\ IsWs(S[p]) THEN SkipWs(S, p + 1) ELSE p
RECURSIVE DigitsEnd(_, _)
DigitsEnd(S, p) == IF p <= Len(S) /\ IsDigit(S[p]) THEN DigitsEnd(S, p + 1) ELSE p
RECURSIVE NameEnd(_, _, _)
NameEnd(S, p, first) ==
    IF p <= Len(S) /\ IsNameCh(S[p], first) THEN NameEnd(S, p + 1, FALSE) ELSE p

\* ------------------------------------------------------- display width
WideRanges == { <<4352, 4447>>, <<9001, 9002>>, <<11904, 12350>>, <<12352, 42191>>,
                <<44032, 55203>>, <<63744, 64255>>, <<65040, 65049>>, <<65072, 65135>>,
                <<65280, 65376>>, <<65504, 65510>>, <<127744, 128591>>,
                <<129280, 129535>>, <<131072, 196605>>, <<196608, 262141>> }
CpWidth(c) == IF c < 4352 THEN 1
              ELSE IF \E r \in WideRanges : c >= r[1] /\ c <= r[2] THEN 2 ELSE 1
RECURSIVE TextWidth(_)
TextWidth(s) == IF s = <<>> THEN 0 ELSE CpWidth(Head(s)) + TextWidth(Tail(s))

\* ------------------------------------------------------ code unit counts
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Utf16Len(c) == IF c < 65536 THEN 1 ELSE 2
RECURSIVE Units(_, _)
\* Number of code units of a text; w = 1 or 4: one unit per code point (wide,
\* UTF-32), w = 2: UTF-16, otherwise UTF-8
Units(s, w) == IF w \in {1, 4} THEN Len(s)
               ELSE IF s = <<>> THEN 0
               ELSE (IF w = 2 THEN Utf16Len(Head(s)) ELSE Utf8Len(Head(s))) + Units(Tail(s), w)

\* A negative element -1-b of a text stands for the code unit b of a malformed text
Utf8(c) == IF c < 0 THEN <<0 - 1 - c>>
           ELSE IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf16(c) == IF c < 65536 THEN <<c>>
            ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>
RECURSIVE EncUtf8(_)
EncUtf8(s) == IF s = <<>> THEN <<>> ELSE Utf8(Head(s)) \o EncUtf8(Tail(s))
RECURSIVE EncUtf16(_)
EncUtf16(s) == IF s = <<>> THEN <<>> ELSE Utf16(Head(s)) \o EncUtf16(Tail(s))

\* ----------------------------------------------------- 64-bit magnitudes
Zero64 == <<0, 0, 0, 0>>
Max63 == <<65535, 65535, 65535, 32767>>          \* 2^63 - 1
Pow63 == <<0, 0, 0, 32768>>                       \* 2^63

RECURSIVE LimbLess(_, _, _)
LimbLess(a, b, i) == IF i = 0 THEN FALSE
                     ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LimbLess(a, b, i - 1)
MagLess(a, b) == LimbLess(a, b, 4)
MagIsSmall(a) == a[4] = 0 /\ a[3] = 0 /\ a[2] < 16384      \* below 2^30
MagSmall(a) == a[2] * 65536 + a[1]
SmallMag(n) == <<n % 65536, n \div 65536, 0, 0>>

\* a * 10 + d, as [ok |-> no overflow of 64 bits, l |-> limbs]
MulAdd10(a, d) ==
    LET t1 == a[1] * 10 + d
        t2 == a[2] * 10 + (t1 \div 65536)
        t3 == a[3] * 10 + (t2 \div 65536)
        t4 == a[4] * 10 + (t3 \div 65536)
    IN [ok |-> t4 < 65536, l |-> <<t1 % 65536, t2 % 65536, t3 % 65536, t4 % 65536>>]

\* Parse the digits S[p..q-1]; ok = the value does not exceed lim
RECURSIVE ParseMag(_, _, _, _, _)
ParseMag(S, p, q, acc, lim) ==
    IF p >= q THEN [ok |-> TRUE, l |-> acc]
    ELSE LET r == MulAdd10(acc, S[p] - 48)
         IN IF ~r.ok \/ MagLess(lim, r.l) THEN [ok |-> FALSE, l |-> acc]
            ELSE ParseMag(S, p + 1, q, r.l, lim)

DivSmall(a, b) ==
    LET q4 == a[4] \div b  r4 == a[4] % b
        t3 == r4 * 65536 + a[3]
        q3 == t3 \div b  r3 == t3 % b
        t2 == r3 * 65536 + a[2]
        q2 == t2 \div b  r2 == t2 % b
        t1 == r2 * 65536 + a[1]
    IN [q |-> <<t1 \div b, q2, q3, q4>>, r |-> t1 % b]

DigitCh(d, upper) == IF d < 10 THEN 48 + d ELSE (IF upper THEN 55 ELSE 87) + d
RECURSIVE MagDigits(_, _, _)
MagDigits(a, base, upper) ==
    LET r == DivSmall(a, base)
        c == DigitCh(r.r, upper)
    IN IF r.q = Zero64 THEN <<c>> ELSE Append(MagDigits(r.q, base, upper), c)

\* An integer value clamped into TLC's range (sizes of texts and containers
\* are far below 2^30, so positions beyond it all mean "outside")
ClampInt(i) == IF MagIsSmall(i.l) THEN (IF i.g = 1 THEN 0 - MagSmall(i.l) ELSE MagSmall(i.l))
               ELSE IF i.g = 1 THEN 0 - 1073741824 ELSE 1073741824
IntVal(n) == IF n < 0 THEN [g |-> 1, l |-> SmallMag(0 - n)] ELSE [g |-> 0, l |-> SmallMag(n)]

\* signed comparison of integer values
IntEq(a, b) == a.l = b.l /\ (a.g = b.g \/ a.l = Zero64)
IntLt(a, b) == IF IntEq(a, b) THEN FALSE
               ELSE IF a.g = 1 /\ b.g = 0 THEN TRUE
               ELSE IF a.g = 0 /\ b.g = 1 THEN FALSE
               ELSE IF a.g = 0 THEN MagLess(a.l, b.l) ELSE MagLess(b.l, a.l)

NatText(n) == MagDigits(SmallMag(n), 10, FALSE)
HexText(n) == MagDigits(SmallMag(n), 16, FALSE)

\* lexicographic order of texts by code point
RECURSIVE TextLess(_, _)
TextLess(a, b) == IF b = <<>> THEN FALSE
                  ELSE IF a = <<>> THEN TRUE
                  ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
                  ELSE TextLess(Tail(a), Tail(b))

\* ------------------------------------------------------- constant texts
T_true == <<116, 114, 117, 101>>
T_false == <<102, 97, 108, 115, 101>>
T_error == <<101, 114, 114, 111, 114>>
T_name == <<110, 97, 109, 101>>
T_nullopt == <<110, 117, 108, 108, 111, 112, 116>>
T_monostate == <<109, 111, 110, 111, 115, 116, 97, 116, 101>>
T_inf == <<105, 110, 102>>
T_nan == <<110, 97, 110>>
T_INF == <<73, 78, 70>>
T_NAN == <<78, 65, 78>>
T_length == <<108, 101, 110, 103, 116, 104>>
T_size == <<115, 105, 122, 101>>
T_first == <<102, 105, 114, 115, 116>>
T_second == <<115, 101, 99, 111, 110, 100>>
T_min == <<109, 105, 110>>
T_max == <<109, 97, 120>>
T_text == <<116, 101, 120, 116>>
T_value == <<118, 97, 108, 117, 101>>
T_has_value == <<104, 97, 115, 95, 118, 97, 108, 117, 101>>
T_index == <<105, 110, 100, 101, 120>>
T_year == <<121, 101, 97, 114>>
T_month == <<109, 111, 110, 116, 104>>
T_mday == <<109, 100, 97, 121>>
T_hour == <<104, 111, 117, 114>>
T_sec == <<115, 101, 99>>
T_wday == <<119, 100, 97, 121>>
T_yday == <<121, 100, 97, 121>>
T_is_dst == <<105, 115, 95, 100, 115, 116>>

Upper(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]
==============================================================================
