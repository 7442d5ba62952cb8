-------------------------------- MODULE PapUtf --------------------------------
(* Code units, sequences of them, and what the library says about them.      *)
(*                                                                           *)
(* An encoding is w = 0 (UTF-8), 2 (UTF-16) or 1 (one unit per code point).  *)
(* A sequence of units may be malformed: then a unit that announces more     *)
(* units takes those that are there, and a unit that can begin nothing stands*)
(* for itself.  Offsets are counted from zero.                               *)
EXTENDS PapText

Trailing(b) == b >= 128 /\ b <= 191
ByteCount(b) == IF b < 128 THEN 1
                ELSE IF b >= 192 /\ b <= 223 THEN 2
                ELSE IF b >= 224 /\ b <= 239 THEN 3
                ELSE IF b >= 240 /\ b <= 247 THEN 4
                ELSE 1
HighSur(u) == u >= 55296 /\ u <= 56319
LowSur(u) == u >= 56320 /\ u <= 57343
Wants(u, w) == IF w = 0 THEN ByteCount(u) ELSE IF w = 2 /\ HighSur(u) THEN 2 ELSE 1
\* a unit that cannot begin a code point
Stray(u, w) == (w = 0 /\ Trailing(u)) \/ (w = 2 /\ LowSur(u))

RECURSIVE SegsFrom(_, _, _)
SegsFrom(s, p, w) ==
    IF p > Len(s) THEN <<>>
    ELSE LET n == Min(Wants(s[p], w), Len(s) - p + 1)
         IN << <<p - 1, n>> >> \o SegsFrom(s, p + n, w)
Segs(s, w) == SegsFrom(s, 1, w)

\* ------------------------------------------------------------ well-formed text
Tail6(b) == b % 64
\* the code point of a segment, -1 if it is not the encoding of one
CodeOf(u, w) ==
    IF w = 1 THEN u[1]
    ELSE IF w = 2 THEN
        IF Len(u) = 1 THEN (IF HighSur(u[1]) \/ LowSur(u[1]) THEN -1 ELSE u[1])
        ELSE IF LowSur(u[2]) THEN 65536 + (u[1] - 55296) * 1024 + (u[2] - 56320) ELSE -1
    ELSE IF Len(u) # ByteCount(u[1]) \/ (\E k \in 2..Len(u) : ~Trailing(u[k])) THEN -1
    ELSE IF Len(u) = 1 THEN (IF u[1] < 128 THEN u[1] ELSE -1)
    ELSE LET c == IF Len(u) = 2 THEN (u[1] - 192) * 64 + Tail6(u[2])
                  ELSE IF Len(u) = 3 THEN (u[1] - 224) * 4096 + Tail6(u[2]) * 64 + Tail6(u[3])
                  ELSE (u[1] - 240) * 262144 + Tail6(u[2]) * 4096 + Tail6(u[3]) * 64 + Tail6(u[4])
         IN IF Utf8Len(c) # Len(u) \/ c > 1114111 \/ (c >= 55296 /\ c <= 57343) THEN -1 ELSE c
Unit(s, g) == SubSeq(s, g[1] + 1, g[1] + g[2])
Codes(s, w) == LET g == Segs(s, w) IN [i \in 1..Len(g) |-> CodeOf(Unit(s, g[i]), w)]
WellFormed(s, w) == \A i \in 1..Len(Codes(s, w)) : Codes(s, w)[i] >= 0
Encode(t, w) == IF w = 1 THEN t ELSE IF w = 2 THEN EncUtf16(t) ELSE EncUtf8(t)

\* --------------------------------------------------------------------- lengths
\* up to the first zero, if there is one
RECURSIVE CutAt0(_, _)
CutAt0(s, p) == IF p > Len(s) THEN s ELSE IF s[p] = 0 THEN SubSeq(s, 1, p - 1) ELSE CutAt0(s, p + 1)
Cut(s) == CutAt0(s, 1)
Firsts(s, w, P(_)) == {i \in 1..Len(Segs(s, w)) : P(s[Segs(s, w)[i][1] + 1])}
\* modes: 0 replace, 1 ignore, 2 stop, 3 exception; -2: an exception, -9: not said
Length(s, w, mode) ==
    LET g == Segs(s, w)
        stray == {i \in 1..Len(g) : Stray(s[g[i][1] + 1], w)}
        cut == g # <<>> /\ g[Len(g)][2] < Wants(s[g[Len(g)][1] + 1], w)
    IN IF w = 1 THEN Len(s)
       ELSE IF w = 2 THEN
            IF WellFormed(s, w) THEN Len(g)
            ELSE IF mode \in {0, 1} THEN Cardinality({i \in 1..Len(s) : ~LowSur(s[i])})
            ELSE -9
       ELSE CASE mode = 0 -> Len(g)
              [] mode = 1 -> Len(g) - Cardinality(stray)
              [] mode = 2 -> IF stray = {} THEN Len(g) ELSE (CHOOSE i \in stray : \A j \in stray : i <= j) - 1
              [] mode = 3 -> IF stray # {} \/ cut THEN -2 ELSE Len(g)

\* --------------------------------------------------------------------- offsets
\* of code point number i from the beginning / from the end; -1: there is none,
\* -9: not said
Offset(s, w, i) ==
    LET g == Segs(s, w)
    IN IF i >= Len(g) \/ (\E k \in 1..i : Stray(s[g[k][1] + 1], w)) THEN -1 ELSE g[i + 1][1]
OffsetBack(s, w, i) ==
    LET g == Segs(s, w)
    IN IF ~WellFormed(s, w) THEN -9 ELSE IF i >= Len(g) THEN -1 ELSE g[Len(g) - i][1]

\* ------------------------------------------------------------- one code point
Digit(c) == c >= 48 /\ c <= 57
White(c) == c \in {32, 9, 10, 11, 12, 13}
Surrogate(c) == c >= 55296 /\ c <= 57343

\* ------------------------------------------------- everything about a sequence
\* -9: not said; -3: out of range
Modes == 0..3
NotSaid == -9
Snowman == 9731
\* the code point that stands at an offset of a sequence, as the decoder has it
CodeAt(s, w, o, none) ==
    IF o = -1 THEN none
    ELSE IF o = NotSaid THEN NotSaid
    ELSE LET n == Min(Wants(s[o + 1], w), Len(s) - o)
             c == CodeOf(SubSeq(s, o + 1, o + n), w)
         IN IF c >= 0 THEN c ELSE IF w = 2 /\ HighSur(s[o + 1]) THEN -2 ELSE NotSaid
Observed(s, w) ==
    LET n == Len(s)
        g == Segs(s, w)
        wf == WellFormed(s, w)
        off == [k \in 1..(n + 2) |-> Offset(s, w, k - 1)]
        rof == [k \in 1..(n + 2) |-> OffsetBack(s, w, k - 1)]
        t == Codes(s, w)
        size(v) == IF v = w THEN n ELSE IF wf THEN Units(t, v) ELSE NotSaid
    IN [len |-> [m \in 1..4 |-> Length(s, w, m - 1)],
        max |-> [m \in 1..4 |-> [k \in 1..(n + 1) |-> Length(Cut(SubSeq(s, 1, k - 1)), w, m - 1)]],
        nul |-> [m \in 1..4 |-> Length(Cut(s), w, m - 1)],
        off |-> off,
        rof |-> rof,
        seg |-> g,
        cps |-> [i \in 1..Len(g) |-> CodeAt(s, w, g[i][1], 0)],
        back |-> IF wf THEN [i \in 1..Len(g) |-> g[Len(g) + 1 - i][1]] ELSE <<NotSaid>>,
        at |-> [k \in 1..(n + 1) |-> CodeAt(s, w, off[k], -3)],
        or |-> [k \in 1..(n + 1) |-> CodeAt(s, w, off[k], Snowman)],
        rat |-> [k \in 1..(n + 1) |-> CodeAt(s, w, rof[k], -3)],
        ref |-> <<Length(s, w, 0), n, IF n = 0 THEN 1 ELSE 0>>,
        dec |-> IF n = 0 THEN 0 ELSE IF CodeAt(s, w, 0, 0) = -2 THEN -2 ELSE IF w = 1 THEN 1 ELSE g[1][2],
        dcp |-> IF n = 0 THEN 0 ELSE CodeAt(s, w, 0, 0),
        cv |-> <<size(0), size(0), size(2), size(1), size(1)>>,
        wf |-> IF wf THEN 1 ELSE 0]

\* ------------------------------- an observation agrees with what was expected
One(x, y) == x = NotSaid \/ x = y
Flat(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : One(x[k], y[k])
Deep(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Flat(x[k], y[k])
\* stepping back over a malformed sequence: inside of it, and never standing still
GoesBack(b, n) ==
    /\ (n = 0) = (b = <<>>)
    /\ \A k \in 1..Len(b) : b[k] >= 0 /\ b[k] < (IF k = 1 THEN n ELSE b[k - 1])
    /\ b # <<>> => b[Len(b)] = 0
Agrees(x, y, n) ==
    /\ Flat(x.len, y.len) /\ Deep(x.max, y.max) /\ Flat(x.nul, y.nul)
    /\ Flat(x.off, y.off) /\ Flat(x.rof, y.rof)
    /\ x.seg = y.seg /\ Flat(x.cps, y.cps)
    /\ GoesBack(y.back, n) /\ (x.back # <<NotSaid>> => x.back = y.back)
    /\ Flat(x.at, y.at) /\ Flat(x.or, y.or) /\ Flat(x.rat, y.rat)
    /\ x.ref = y.ref /\ One(x.dec, y.dec) /\ One(x.dcp, y.dcp) /\ Flat(x.cv, y.cv)
    \* an offset counted from the end is that of a unit of the text
    /\ \A k \in 1..Len(y.rof) : y.rof[k] >= -1 /\ y.rof[k] < n

\* ------------------------------------------- one code point, in every encoding
Bool(b) == IF b THEN 1 ELSE 0
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
InUtf16(c) == c <= 1114111 /\ ~Surrogate(c)
Code1(c) ==
    << <<Utf8(c)>>,
       << IF InUtf16(c) THEN Utf16(c) ELSE <<-2>> >>,
       << <<c>> >>,
       << <<c>> >>,
       << <<c, Utf8Len(c), 1>> >>,
       << IF InUtf16(c) THEN <<c, Utf16Len(c), 1>> ELSE <<-2>> >>,
       << <<c, 1, 1>> >>,
       << Bool(Digit(c)), Bool(Digit(c)), Bool(White(c)), CpWidth(c), Bool(c = 0), Bool(c # 0) >>,
       << IF c = 0 THEN 0 ELSE 1, 0, -1, Sign(c, 127), Sign(c, 65536) >> >>
Unit1(u) ==
    <<Bool(HighSur(u)), Bool(LowSur(u))>> \o
    (IF u > 255 THEN <<>> ELSE <<Bool(~Trailing(u)), Bool(Trailing(u)), IF Trailing(u) THEN 0 ELSE ByteCount(u)>>)

\* ------------------------------------ an iterator over the code points of a text
\* it is the number of code points before it: it.p, and a marked one it.m
Here(t, w, p) == Units(SubSeq(t, 1, p), w)
It0 == [p |-> 0, m |-> 0]
RECURSIVE FindFrom(_, _, _)
FindFrom(t, p, c) == IF p >= Len(t) THEN Len(t) ELSE IF t[p + 1] = c THEN p ELSE FindFrom(t, p + 1, c)
Target(t, it, op) ==
    LET o == op[1]
        n == IF Len(op) > 1 THEN op[2] ELSE 0
    IN CASE o \in {"inc", "inc_"} -> it.p + 1
         [] o \in {"dec", "dec_"} -> it.p - 1
         [] o \in {"add", "plus", "sulp", "next"} -> it.p + n
         [] o \in {"sub", "minus", "rev"} -> it.p - n
         [] o = "begin" -> 0
         [] o = "end" -> Len(t)
         [] o = "swap" -> it.m
         [] o = "find" -> FindFrom(t, it.p, n)
         [] OTHER -> it.p
CanMove(t, it, op) == Target(t, it, op) \in 0..Len(t)
Move(t, it, op) ==
    [p |-> Target(t, it, op),
     m |-> IF op[1] \in {"swap", "mark"} THEN it.p ELSE it.m]
\* what such a step returns, and what the iterator is afterwards
Seen(t, w, it, op) ==
    LET z == Move(t, it, op)
        ret == IF op[1] \in {"inc_", "dec_"} THEN it.p ELSE IF op[1] \in {"swap", "mark"} THEN z.m ELSE z.p
        end == z.p = Len(t)
    IN << Here(t, w, ret), Here(t, w, z.p), z.p - z.m, Sign(z.p, z.m) >> \o
       (IF end THEN <<-1, 0, 0>> ELSE <<t[z.p + 1], Units(<<t[z.p + 1]>>, w), Here(t, w, z.p)>>)

\* ------------------------------------------------------------------ properties
\* the segments cover the sequence without gaps and overlaps
Covers(s, w) ==
    LET g == Segs(s, w)
    IN /\ \A i \in 1..Len(g) : g[i][1] = (IF i = 1 THEN 0 ELSE g[i - 1][1] + g[i - 1][2]) /\ g[i][2] > 0
       /\ (IF g = <<>> THEN 0 ELSE g[Len(g)][1] + g[Len(g)][2]) = Len(s)
\* a well-formed sequence is the encoding of its code points, in every encoding
RoundTrip(s, w) ==
    WellFormed(s, w) => /\ Encode(Codes(s, w), w) = s
                        /\ \A v \in {0, 1, 2} : Codes(Encode(Codes(s, w), v), v) = Codes(s, w)
\* nothing but an encoding of code points is well-formed: no unit is left over
LengthsAgree(s, w) ==
    /\ WellFormed(s, w) => \A m \in Modes : Length(s, w, m) = Len(Codes(s, w))
    /\ Length(s, w, 1) <= Length(s, w, 0)
    /\ w = 0 => (Length(s, w, 2) <= Length(s, w, 0) /\ (Length(s, w, 3) = -2 \/ Length(s, w, 3) = Length(s, w, 0)))
OffsetsAgree(s, w) ==
    LET n == Len(Segs(s, w))
    IN WellFormed(s, w) => \A i \in 0..(n - 1) : Offset(s, w, i) = OffsetBack(s, w, n - 1 - i)
===============================================================================
