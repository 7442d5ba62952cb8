------------------------------- MODULE PapVar -------------------------------
(* Script variables: a pool of variables, each a boolean, an integer of 64   *)
(* bits, a floating point number of 24 bits, or a string.                    *)
(* A number is [s |-> its sign, m |-> its binary digits, the first and the   *)
(* last a one, e |-> its exponent]: 0.m times 2 to the e; zero has no        *)
(* digits.  Infinity is 0.1 times 2^INF.                                     *)
(* A variable is [k |-> kind, n |-> the number, t |-> the text (symbols),    *)
(* own |-> 1 it owns its text, 0 it does not, -1 either, at |-> the other    *)
(* variable whose text it may look at].                                      *)
EXTENDS Naturals, Integers, Sequences
INF == 999
InvalidConversion == <<-2>>
BadAccess == <<-3>>
Unordered == 9
Zero == [s |-> 0, m |-> <<>>, e |-> 0]

\* ---------------------------------------------------------------- numbers
\* digit of weight 2^p
Dig(x, p) == LET i == x.e - p IN IF i >= 1 /\ i <= Len(x.m) THEN x.m[i] ELSE 0
RECURSIVE FirstOne(_, _)
FirstOne(m, i) == IF i > Len(m) THEN 0 ELSE IF m[i] = 1 THEN i ELSE FirstOne(m, i + 1)
RECURSIVE LastOne(_, _)
LastOne(m, i) == IF i = 0 THEN 0 ELSE IF m[i] = 1 THEN i ELSE LastOne(m, i - 1)
\* digits m, the first of weight 2^(e - 1)
Norm(s, m, e) == LET f == FirstOne(m, 1)
                     l == LastOne(m, Len(m))
                 IN IF f = 0 THEN Zero ELSE [s |-> s, m |-> SubSeq(m, f, l), e |-> e - f + 1]
RECURSIVE Lex(_, _, _)
Lex(a, b, i) == IF i > Len(a) THEN IF i > Len(b) THEN 0 ELSE -1
                ELSE IF i > Len(b) THEN 1
                ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE Lex(a, b, i + 1)
\* order of the magnitudes, and of the numbers
CmpMag(x, y) == IF x.m = <<>> THEN IF y.m = <<>> THEN 0 ELSE -1
                ELSE IF y.m = <<>> THEN 1
                ELSE IF x.e # y.e THEN (IF x.e < y.e THEN -1 ELSE 1) ELSE Lex(x.m, y.m, 1)
CmpNum(x, y) == IF x.m = <<>> /\ y.m = <<>> THEN 0
                ELSE IF x.m = <<>> THEN (IF y.s = 1 THEN 1 ELSE -1)
                ELSE IF y.m = <<>> THEN (IF x.s = 1 THEN -1 ELSE 1)
                ELSE IF x.s # y.s THEN (IF x.s = 1 THEN -1 ELSE 1)
                ELSE IF x.s = 1 THEN 0 - CmpMag(x, y) ELSE CmpMag(x, y)
Hi(x, y) == IF x.e > y.e THEN x.e ELSE y.e
LowEnd(x) == x.e - Len(x.m)
Lo(x, y) == IF LowEnd(x) < LowEnd(y) THEN LowEnd(x) ELSE LowEnd(y)
RECURSIVE Sum(_, _, _, _, _), Dif(_, _, _, _, _)
\* digits from weight p up to the weight of hi, carrying c
Sum(x, y, p, hi, c) == IF p > hi THEN <<>>
                       ELSE LET d == Dig(x, p) + Dig(y, p) + c IN IF d >= 2 THEN Append(Sum(x, y, p + 1, hi, 1), d - 2) ELSE Append(Sum(x, y, p + 1, hi, 0), d)
Dif(x, y, p, hi, c) == IF p > hi THEN <<>>
                       ELSE LET d == Dig(x, p) - Dig(y, p) - c
                            IN IF d < 0 THEN Append(Dif(x, y, p + 1, hi, 1), d + 2) ELSE Append(Dif(x, y, p + 1, hi, 0), d)
AddMag(x, y) == IF x.m = <<>> THEN [y EXCEPT !.s = 0] ELSE IF y.m = <<>> THEN [x EXCEPT !.s = 0]
                ELSE Norm(0, Sum(x, y, Lo(x, y), Hi(x, y), 0), Hi(x, y) + 1)
SubMag(x, y) == \* of the larger the smaller
    IF y.m = <<>> THEN [x EXCEPT !.s = 0]
    ELSE Norm(0, Dif(x, y, Lo(x, y), x.e, 0), x.e + 1)
Distance(x, y) == IF x.m # <<>> /\ y.m # <<>> /\ x.s # y.s THEN AddMag(x, y)
                  ELSE IF CmpMag(x, y) >= 0 THEN SubMag(x, y) ELSE SubMag(y, x)
Pow2(k) == [s |-> 0, m |-> <<1>>, e |-> k + 1]
\* to the nearest number of w digits, ties to the even one
Round(x, w) ==
    IF Len(x.m) <= w THEN x
    ELSE LET keep == SubSeq(x.m, 1, w)
             up == x.m[w + 1] = 1 /\ (Len(x.m) > w + 1 \/ keep[w] = 1)
             y == Norm(x.s, keep, x.e)
         IN IF up THEN [AddMag(y, Pow2(x.e - w)) EXCEPT !.s = x.s] ELSE y
\* towards zero
Trunc(x) == IF x.e <= 0 THEN Zero ELSE IF Len(x.m) <= x.e THEN x ELSE Norm(x.s, SubSeq(x.m, 1, x.e), x.e)
\* an integer in w bits (two's complement), sg 1: signed
Wrap(x, w, sg) ==
    LET low == IF x.e <= w THEN [x EXCEPT !.s = 0]
               ELSE Norm(0, SubSeq(x.m, x.e - w + 1, Len(x.m)), w)
        u == IF x.s = 1 /\ low.m # <<>> THEN SubMag(Pow2(w), low) ELSE low
    IN IF sg = 1 /\ u.e = w /\ u.m # <<>> THEN [SubMag(Pow2(w), u) EXCEPT !.s = 1] ELSE u
ENum(x) == IF x.m = <<>> THEN <<0, 0>> ELSE <<x.s, x.e>> \o x.m

\* ------------------------------------------------------------ conversions
\* name of the target -> [bits, signed] or digits of a floating point type
IntT == [i8 |-> <<8, 1>>, u8 |-> <<8, 0>>, i16 |-> <<16, 1>>, u16 |-> <<16, 0>>, i32 |-> <<32, 1>>, u32 |-> <<32, 0>>,
         i64 |-> <<64, 1>>, u64 |-> <<64, 0>>]
FltT == [f32 |-> 24, f64 |-> 53]
StrT == {"cont", "view", "str", "ref"}
Targets == DOMAIN IntT \cup DOMAIN FltT \cup StrT \cup {"bool"}
\* a conversion to an integer type that cannot hold the value is not defined
Defined(v, T) == (v.k = "f" /\ T \in DOMAIN IntT) =>
                 /\ v.n.e < INF
                 /\ Wrap(Trunc(v.n), IntT[T][1], IntT[T][2]) = Trunc(v.n)
                 /\ v.n.e <= 64
As(v, T) ==
    IF T = "bool" THEN <<IF v.k = "t" THEN (IF v.t = <<>> THEN 0 ELSE 1) ELSE IF v.n.m = <<>> THEN 0 ELSE 1>>
    ELSE IF T \in StrT THEN IF v.k = "t" THEN v.t ELSE InvalidConversion
    ELSE IF v.k = "t" THEN InvalidConversion
    ELSE IF T \in DOMAIN IntT THEN ENum(Wrap(Trunc(v.n), IntT[T][1], IntT[T][2]))
    ELSE ENum(Round(v.n, FltT[T]))
\* extracting the value of a kind
Get(v, kind) == IF v.k # kind THEN BadAccess ELSE IF kind = "t" THEN v.t ELSE ENum(v.n)

\* ------------------------------------------------------------- comparison
AsFloat(v) == Round(v.n, 24)
RECURSIVE CmpText(_, _)
CmpText(s, t) == IF s = <<>> THEN IF t = <<>> THEN 0 ELSE -1
                 ELSE IF t = <<>> THEN 1
                 ELSE IF s[1] < t[1] THEN -1 ELSE IF s[1] > t[1] THEN 1
                 ELSE CmpText(Tail(s), Tail(t))
Compare(v, w) ==
    IF v.k = "t" /\ w.k = "t" THEN CmpText(v.t, w.t)
    ELSE IF v.k = "t" \/ w.k = "t" THEN Unordered
    ELSE IF v.k = "f" \/ w.k = "f" THEN CmpNum(AsFloat(v), AsFloat(w))
    ELSE CmpNum(v.n, w.n)
Near(x, y, eps) == \/ x = y
                   \/ x.e < INF /\ y.e < INF /\ CmpNum(Round(Distance(x, y), 24), eps) < 0
Equal(v, w, eps) ==
    IF v.k = "t" /\ w.k = "t" THEN v.t = w.t
    ELSE IF v.k = "t" \/ w.k = "t" THEN FALSE
    ELSE IF v.k = "f" \/ w.k = "f" THEN Near(AsFloat(v), AsFloat(w), eps)
    ELSE v.n = w.n
Epsilon == Pow2(-23)

\* ---------------------------------------------------------------- the pool
Dead == [k |-> "n", n |-> Zero, t |-> <<>>, own |-> 1, at |-> 0]
Unknown == [Dead EXCEPT !.k = "u"]
Start(NS) == [i \in 1..NS |-> Dead]
Viewed(st, a) == \E j \in 1..Len(st) : j # a /\ st[j].at = a
Known(st, a) == st[a].k \notin {"n", "u"}
\* arguments that are variables
Legal(st, op) ==
    LET o == op[1]
        a == op[2]
    IN CASE o = "put" -> ~Viewed(st, a)
         [] o = "del" -> st[a].k # "n" /\ ~Viewed(st, a)
         [] o \in {"cpy", "cas", "mv", "mas"} ->
              /\ Known(st, op[3]) /\ ~Viewed(st, a)
              /\ (o \in {"mv", "mas"}) => ~Viewed(st, op[3]) /\ a # op[3]
              /\ (o \in {"cpy", "mv"}) => st[a].k = "n"
              /\ (o \in {"cas", "mas"}) => st[a].k # "n"
              /\ st[op[3]].at # a
         [] o = "swap" -> Known(st, a) /\ Known(st, op[3]) /\ a # op[3] /\ ~Viewed(st, a) /\ ~Viewed(st, op[3])
         [] o = "as" -> Known(st, a) /\ Defined(st[a], op[3])
         [] o = "get" -> Known(st, a)
         [] o \in {"cmp", "eq", "eqe"} -> Known(st, a) /\ Known(st, op[3])
         [] OTHER -> FALSE
R(s, e) == [s |-> s, e |-> e]
\* a number is stored rounded
Store(v) == [k |-> v.k, n |-> IF v.k = "f" THEN Round(v.n, 24) ELSE v.n, t |-> v.t, own |-> v.own, at |-> 0]
Copied(st, a, b) == IF st[b].k # "t" THEN st[b]
                    ELSE [st[b] EXCEPT !.own = IF st[b].own = 0 THEN 0 ELSE -1, !.at = b]
Do(st, op) ==
    LET o == op[1]
        a == op[2]
    IN CASE o = "put" -> R([st EXCEPT ![a] = Store(op[3])], <<>>)
         [] o = "del" -> R([st EXCEPT ![a] = Dead], <<>>)
         [] o \in {"cpy", "cas"} -> R(IF a = op[3] THEN st ELSE [st EXCEPT ![a] = Copied(st, a, op[3])], <<>>)
         [] o \in {"mv", "mas"} -> R([st EXCEPT ![a] = st[op[3]], ![op[3]] = Unknown], <<>>)
         [] o = "swap" -> R([st EXCEPT ![a] = st[op[3]], ![op[3]] = st[a]], <<>>)
         [] o = "as" -> R(st, As(st[a], op[3]))
         [] o = "get" -> R(st, Get(st[a], op[3]))
         [] o = "cmp" -> R(st, <<Compare(st[a], st[op[3]])>>)
         [] o = "eq" -> R(st, <<IF Equal(st[a], st[op[3]], Epsilon) THEN 1 ELSE 0>>)
         [] o = "eqe" -> R(st, <<IF Equal(st[a], st[op[3]], op[4]) THEN 1 ELSE 0>>)
\* what the real variables show: kind, value, ownership (-1: either)
Show(v) == <<v.k, IF v.k = "t" THEN v.t ELSE ENum(v.n), v.own>>

Inv(st) == \A i \in 1..Len(st) :
             /\ st[i].at # i
             /\ st[i].at # 0 => st[i].k = "t"
             /\ st[i].k = "f" => Len(st[i].n.m) <= 24
             /\ st[i].k = "b" => st[i].n \in {Zero, Pow2(0)}
\* comparison is consistent
Consistent(v, w) ==
    LET c == Compare(v, w)
        d == Compare(w, v)
        e == Equal(v, w, Epsilon)
    IN /\ c = Unordered <=> d = Unordered
       /\ c # Unordered => c = 0 - d
       /\ e = Equal(w, v, Epsilon)
       /\ c = 0 => e
       /\ (v.k # "f" /\ w.k # "f") => (e <=> c = 0)
       /\ (v.k = "t") # (w.k = "t") => ~e /\ c = Unordered
       /\ Equal(v, v, Epsilon) /\ Compare(v, v) = 0
\* no number of another kind comes between, unless rounding to floating point does it
Transitive(u, v, w) == (Compare(u, v) = -1 /\ Compare(v, w) = -1 /\ u.k # "f" => Compare(u, w) # 1)
=============================================================================
