------------------------------- MODULE PapSpec -------------------------------
(* The standard format specification                                         *)
(*   [[fill]align][sign][#][0][width][.precision][L][type]                   *)
(* and the rendering of every value that has no parts: integers, floating    *)
(* point numbers, booleans, code points, pointers, strings, enumerations.    *)
EXTENDS PapAccess

\* align: 0 default, 1 left, 2 middle, 3 right;  sign: 0 default, 1 '+', 2 ' ', 3 '-'
D0 == [fill |-> 0, align |-> 0, sign |-> 0, alt |-> FALSE, zero |-> FALSE,
       w |-> 0, prec |-> 0 - 1, loc |-> FALSE, type |-> 0]

AlignOf(c) == IF c = LT THEN 1 ELSE IF c = CARET THEN 2 ELSE 3
SignOf(c) == IF c = PLUS THEN 1 ELSE IF c = SPACE THEN 2 ELSE 3

Stop(S, p) == p > Len(S) \/ S[p] = RB

\* The value of a width or precision given by another argument
DynVal(v, w, isPrec) ==
    IF v.t = "i"
    THEN IF v.g = 1 /\ v.l # Zero64 THEN [e |-> "format_error", x |-> 0]
         ELSE IF v.l = Zero64 /\ ~isPrec THEN [e |-> "format_error", x |-> 0]
         ELSE [e |-> "", x |-> ClampInt(v)]
    ELSE IF v.t \in {"b", "f"} THEN [e |-> "format_error", x |-> 0]
    \* texts are variables of the narrow character type only
    ELSE IF v.t \in {"s", "c", "sb"} THEN [e |-> IF w = 0 THEN "format_error" ELSE "not_integer", x |-> 0]
    ELSE [e |-> "invalid_conversion", x |-> 0]

\* wider fields are not judged
MaxWidth == 5000
\* A width (isPrec = FALSE) or precision at S[p], which exists
ParseVal(S, p, n, m, A, isPrec) ==
    IF ~isPrec /\ S[p] = ZERO THEN Err("format_error", p, n, m)
    ELSE IF S[p] = LB
         THEN LET r == Access(S, p + 1, n, m, A)
              IN IF r.e # "" THEN r
                 ELSE IF r.p > Len(S) \/ S[r.p] # RB THEN Err("format_error", r.p, r.n, r.m)
                 ELSE LET d == DynVal(r.v, A.w, isPrec)
                      IN IF d.e # "" THEN Err(d.e, r.p, r.n, r.m)
                         ELSE IF ~isPrec /\ d.x > MaxWidth THEN Err("?", r.p, r.n, r.m)
                         ELSE Ok(r.p + 1, r.n, r.m, d.x)
    ELSE IF IsDigit(S[p])
         THEN LET q == DigitsEnd(S, p)
                  r == ParseMag(S, p, q, Zero64, Max63)
              IN IF ~r.ok THEN Err("format_error", p, n, m)
                 ELSE IF ~isPrec /\ ClampInt([g |-> 0, l |-> r.l]) > MaxWidth THEN Err("?", p, n, m)
                 ELSE Ok(q, n, m, ClampInt([g |-> 0, l |-> r.l]))
    ELSE Err("format_error", p, n, m)

\* [fill]align: [p, fill, align]
ParseAlign(S, p) ==
    LET two == p + 1 <= Len(S) /\ IsAlignCh(S[p + 1])
        p1 == IF two THEN p + 2 ELSE p
        f == IF two THEN S[p] ELSE 0
        a == IF two THEN AlignOf(S[p + 1]) ELSE 0
    IN IF ~Stop(S, p1) /\ IsAlignCh(S[p1])
       THEN [p |-> p1 + 1, fill |-> f, align |-> AlignOf(S[p1])]
       ELSE [p |-> p1, fill |-> f, align |-> a]

ParseWidth(S, p, n, m, A) ==
    IF ~Stop(S, p) /\ (IsDigit(S[p]) \/ S[p] = LB) THEN ParseVal(S, p, n, m, A, FALSE)
    ELSE Ok(p, n, m, 0)

\* types: the set of type characters the value supports
ParseStd(S, p, n, m, A, types) ==
    IF Stop(S, p) THEN Ok(p, n, m, D0)
    ELSE
    LET a == ParseAlign(S, p)
        sgn == ~Stop(S, a.p) /\ IsSignCh(S[a.p])
        p2 == IF sgn THEN a.p + 1 ELSE a.p
        alt == ~Stop(S, p2) /\ S[p2] = HASH
        p3 == IF alt THEN p2 + 1 ELSE p2
        zero == ~Stop(S, p3) /\ S[p3] = ZERO
        p4 == IF zero THEN p3 + 1 ELSE p3
        w == ParseWidth(S, p4, n, m, A)
    IN IF w.e # "" THEN w
       ELSE
       LET hasPrec == ~Stop(S, w.p) /\ S[w.p] = DOT
           pr == IF ~hasPrec THEN Ok(w.p, w.n, w.m, 0 - 1)
                 ELSE IF w.p + 1 > Len(S) THEN Err("format_error", w.p, w.n, w.m)
                 ELSE ParseVal(S, w.p + 1, w.n, w.m, A, TRUE)
       IN IF pr.e # "" THEN pr
          ELSE
          LET loc == ~Stop(S, pr.p) /\ S[pr.p] = 76
              p5 == IF loc THEN pr.p + 1 ELSE pr.p
              hasType == ~Stop(S, p5)
          IN IF hasType /\ S[p5] \notin types THEN Err("format_error", p5, pr.n, pr.m)
             ELSE Ok(IF hasType THEN p5 + 1 ELSE p5, pr.n, pr.m,
                     [fill |-> a.fill, align |-> a.align,
                      sign |-> IF sgn THEN SignOf(S[a.p]) ELSE 0,
                      alt |-> alt, zero |-> zero, w |-> w.v, prec |-> pr.v, loc |-> loc,
                      type |-> IF hasType THEN S[p5] ELSE 0])

\* [fill]align width [L], used by stream output and calendar times
ParseSimple(S, p, n, m, A) ==
    IF Stop(S, p) THEN Ok(p, n, m, D0)
    ELSE LET a == ParseAlign(S, p)
             w == ParseWidth(S, a.p, n, m, A)
         IN IF w.e # "" THEN w
            ELSE LET loc == ~Stop(S, w.p) /\ S[w.p] = 76
                 IN Ok(IF loc THEN w.p + 1 ELSE w.p, w.n, w.m,
                       [D0 EXCEPT !.fill = a.fill, !.align = a.align, !.w = w.v, !.loc = loc])

\* ----------------------------------------------------- sets of type characters
Ty_int == {88, 120, 66, 98, 111, 100, 99}
Ty_num == {88, 120, 66, 98, 111, 100}
Ty_float == {102, 70, 103, 71, 101, 69, 97, 65}
Ty_cp == Ty_num \cup {99, 63}
Ty_bool == Ty_num \cup {115}
Ty_str == {115, 63}
Ty_ptr == {112, 80}
Ty_enum == Ty_bool
Ty_path == {63, 103}

\* ----------------------------------------------------- padding
FillCh(d) == IF d.fill = 0 THEN SPACE ELSE d.fill
\* Pad s, which takes `used' columns; dflt is the alignment used when none is given
Pad(s, used, d, dflt) ==
    IF d.w <= used THEN s
    ELSE LET r == d.w - used
             a == IF d.align = 0 THEN dflt ELSE d.align
             left == IF a = 3 THEN r ELSE IF a = 2 THEN r \div 2 ELSE 0
         IN Rep(FillCh(d), left) \o s \o Rep(FillCh(d), r - left)

SignText(neg, d) == IF neg THEN <<MINUS>>
                    ELSE IF d.sign = 1 THEN <<PLUS>> ELSE IF d.sign = 2 THEN <<SPACE>> ELSE <<>>

\* sign, prefix and digits of a number
Number(sgn, prefix, digits, d, zeroOk) ==
    LET used == Len(sgn) + Len(prefix) + Len(digits)
    IN IF d.zero /\ d.align = 0 /\ zeroOk
       THEN sgn \o prefix \o Rep(ZERO, IF d.w > used THEN d.w - used ELSE 0) \o digits
       ELSE Pad(sgn \o prefix \o digits, used, d, 3)

BaseOf(t) == IF t \in {120, 88, 112, 80} THEN 16 ELSE IF t \in {98, 66} THEN 2
             ELSE IF t = 111 THEN 8 ELSE 10
RenderInt(x, d) ==
    LET up == d.type \in {88, 66, 80}
        base == BaseOf(d.type)
        neg == x.g = 1 /\ x.l # Zero64
        prefix == IF ~d.alt \/ base = 10 THEN <<>>
                  ELSE IF base = 16 THEN <<ZERO, IF up THEN 88 ELSE 120>>
                  ELSE IF base = 2 THEN <<ZERO, IF up THEN 66 ELSE 98>>
                  ELSE <<ZERO>>
    IN Number(SignText(neg, d), prefix, MagDigits(x.l, base, up), d, TRUE)

\* ----------------------------------------------------- texts
EscSeq(c, q) == IF c = 9 THEN <<BSLASH, 116>>
                ELSE IF c = 10 THEN <<BSLASH, 110>>
                ELSE IF c = 13 THEN <<BSLASH, 114>>
                ELSE IF c = BSLASH THEN <<BSLASH, BSLASH>>
                ELSE IF c = q THEN <<BSLASH, q>>
                ELSE IF c < 0 THEN <<BSLASH, 120, LB>> \o HexText(0 - 1 - c) \o <<RB>>
                ELSE IF c < 32 THEN <<BSLASH, 117, LB>> \o HexText(c) \o <<RB>>
                ELSE <<c>>
RECURSIVE Escape(_, _)
Escape(s, q) == IF s = <<>> THEN <<>> ELSE EscSeq(Head(s), q) \o Escape(Tail(s), q)

\* The longest prefix that is not wider than lim
RECURSIVE CutTo(_, _)
CutTo(s, lim) == IF s = <<>> THEN <<>>
                 ELSE LET w == CpWidth(Head(s))
                      IN IF w > lim THEN <<>> ELSE <<Head(s)>> \o CutTo(Tail(s), lim - w)
RenderStr(s, d) ==
    IF d.type = QUEST THEN LET t == Escape(s, DQUOTE) IN Pad(t, TextWidth(t), d, 1)
    ELSE LET t == IF d.prec < 0 THEN s ELSE CutTo(s, d.prec)
         IN Pad(t, TextWidth(t), d, 1)
RenderCp(c, d) == LET t == IF d.type = QUEST THEN Escape(<<c>>, QUOTE) ELSE <<c>> IN Pad(t, TextWidth(t), d, 1)

\* Malformed narrow text: the code units that belong to no well-formed sequence
\* become negative elements.
IsTrail(b) == b >= 128 /\ b < 192
SeqLen(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4
RECURSIVE TrailEnd(_, _, _)
TrailEnd(B, i, lim) == IF i < lim /\ i <= Len(B) /\ IsTrail(B[i]) THEN TrailEnd(B, i + 1, lim) ELSE i
RECURSIVE EscUnits(_, _)
\* escaped text of the code units B from position i; well-formed sequences are
\* kept as they are (as raw units)
EscUnits(B, i) ==
    IF i > Len(B) THEN <<>>
    ELSE LET b == B[i]
         IN IF IsTrail(b) \/ b >= 248 THEN EscSeq(0 - 1 - b, DQUOTE) \o EscUnits(B, i + 1)
            ELSE LET j == TrailEnd(B, i + 1, i + SeqLen(b))
                     u == SubSeq(B, i, j - 1)
                 IN (IF b < 128 THEN EscSeq(b, DQUOTE)
                     ELSE IF Len(u) = SeqLen(b) THEN [k \in 1..Len(u) |-> 0 - 1 - u[k]]
                     ELSE Flatten([k \in 1..Len(u) |-> EscSeq(0 - 1 - u[k], DQUOTE)]))
                    \o EscUnits(B, j)
RawUnits(B) == [k \in 1..Len(B) |-> 0 - 1 - B[k]]

\* ----------------------------------------------------- floating point
\* x.r holds the correctly rounded texts of the magnitude, one for each
\* notation and precision: [k |-> notation, p |-> precision, s |-> text]
\* (k: 101 e, 102 f, 103 g, 97 a, 0 shortest general; p = -1: none given)
FloatKey(d) ==
    LET t == IF d.type >= 65 /\ d.type <= 90 THEN d.type + 32 ELSE d.type
    IN IF t = 97 THEN <<97, d.prec>>
       ELSE IF t = 0 THEN (IF d.prec < 0 THEN <<0, 0 - 1>> ELSE <<103, d.prec>>)
       ELSE <<t, IF d.prec < 0 THEN 6 ELSE d.prec>>
FloatUp(d) == d.type \in {65, 69, 70, 71}
FloatText(x, d) ==
    LET k == FloatKey(d)
        c == {i \in 1..Len(x.r) : x.r[i].k = k[1] /\ x.r[i].p = k[2]}
        s == IF c # {} THEN x.r[CHOOSE i \in c : TRUE].s ELSE <<>>
    IN IF FloatUp(d) THEN Upper(s) ELSE s
\* no rendering is known: the result is not judged
FloatKnown(x, d) == LET k == FloatKey(d) IN x.cls # 0 \/ \E i \in 1..Len(x.r) : x.r[i].k = k[1] /\ x.r[i].p = k[2]
RenderFloat(x, d) ==
    IF x.cls = 1 THEN Number(SignText(x.g = 1, d), <<>>, IF FloatUp(d) THEN T_INF ELSE T_inf, d, FALSE)
    ELSE IF x.cls = 2 THEN Number(SignText(x.g = 1, d), <<>>, IF FloatUp(d) THEN T_NAN ELSE T_nan, d, FALSE)
    ELSE Number(SignText(x.g = 1, d), <<>>, FloatText(x, d), d, TRUE)

\* ----------------------------------------------------- scalar values
Scalar(x) == x.t \in {"i", "f", "c", "b", "s", "sb", "p", "e", "path"}
TypesOf(x) == CASE x.t = "i" -> Ty_int [] x.t = "f" -> Ty_float [] x.t = "c" -> Ty_cp
                [] x.t = "b" -> Ty_bool [] x.t \in {"s", "sb"} -> Ty_str [] x.t = "p" -> Ty_ptr
                [] x.t = "e" -> Ty_enum [] OTHER -> Ty_path

CpInt(c) == [g |-> 0, l |-> <<c % 65536, c \div 65536, 0, 0>>]
ROk(s) == [e |-> "", s |-> s]
RErr(e) == [e |-> e, s |-> <<>>]

RenderScalar(x, d, A) ==
    CASE x.t = "i" ->
            IF d.type # 99 THEN ROk(RenderInt(x, d))
            ELSE IF (x.g = 1 /\ x.l # Zero64) \/ MagLess(<<65535, 16, 0, 0>>, x.l) THEN RErr("format_error")
            ELSE ROk(RenderCp(MagSmall(x.l), d))
      [] x.t = "f" -> IF FloatKnown(x, d) THEN ROk(RenderFloat(x, d)) ELSE RErr("?")
      [] x.t = "c" -> IF d.type \in {0, 99, 63} THEN ROk(RenderCp(x.v, d)) ELSE ROk(RenderInt(CpInt(x.v), d))
      [] x.t = "b" ->
            IF d.type \in {0, 115}
            \* no locale has names for the Unicode character types
            THEN IF d.loc /\ A.w >= 2 THEN RErr("?") ELSE ROk(RenderStr(IF d.loc THEN (IF x.v = 1 THEN A.tn ELSE A.fn)
                               ELSE (IF x.v = 1 THEN T_true ELSE T_false), d))
            ELSE ROk(RenderInt(CpInt(x.v), d))
      [] x.t = "s" -> ROk(RenderStr(x.v, d))
      [] x.t = "sb" -> ROk(IF d.type = QUEST THEN EscUnits(x.v, 1) ELSE RawUnits(x.v))
      [] x.t = "p" -> ROk(RenderInt([g |-> 0, l |-> x.l],
                                    [d EXCEPT !.alt = TRUE, !.type = IF d.type = 80 THEN 88 ELSE 120]))
      [] x.t = "e" -> IF d.type \in {0, 115} THEN ROk(RenderStr(x.nm, d)) ELSE ROk(RenderInt(x, d))
      [] OTHER -> ROk(RenderStr(x.v, d))

\* a pointer does not take the locale flag
SpecError(x, d) == IF x.t = "p" /\ d.loc THEN "format_error" ELSE ""
=============================================================================
