------------------------------- MODULE UtfTrace -------------------------------
(* Judges recorded executions: sequences of units, code points in every       *)
(* encoding, conversions and comparisons of texts, walks of iterators.        *)
EXTENDS PapUtf, TLC, Json, IOUtils
VARIABLES k, i, it
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == k \in 1..Len(Trace) /\ i = 0 /\ it = It0
\* character type -> encoding: char, char8_t, char16_t, char32_t, wchar_t
W(t) == IF t < 2 THEN 0 ELSE IF t = 2 THEN 2 ELSE 1
T == Trace[k]
Steps == IF T.k = "walk" THEN Len(T.ops) ELSE IF T.k \in {"cps", "units"} THEN Len(T.c) ELSE 1
Order(a, b) == IF a = b THEN 0 ELSE IF TextLess(a, b) THEN -1 ELSE 1
Want ==
    CASE T.k = "seq" -> Observed(T.s, W(T.t))
      [] T.k = "cps" -> Code1(T.c[i + 1])
      [] T.k = "units" -> Unit1(T.c[i + 1])
      [] T.k = "conv" -> << <<EncUtf8(T.s)>>, <<EncUtf8(T.s)>>, <<EncUtf16(T.s)>>, <<T.s>>, <<T.s>> >>
      [] T.k = "cmp" -> << <<Order(T.s, T.y), Bool(T.s = T.y), Bool(T.s = T.y)>> >>
      [] OTHER -> Seen(T.s, W(T.t), it, T.ops[i + 1])
Explained ==
    CASE T.k = "seq" -> Agrees(Want, T.r, Len(T.s))
      [] T.k \in {"cps", "units", "walk"} -> Want = T.r[i + 1]
      [] OTHER -> Want = T.r
Step == /\ i >= 0 /\ i < Steps
        /\ IF Explained
           THEN i' = i + 1 /\ it' = (IF T.k = "walk" THEN Move(T.s, it, T.ops[i + 1]) ELSE it)
           ELSE PrintT(<<"V", k, 0, i + 1, Want, {}>>) /\ i' = -1 /\ it' = it
        /\ k' = k
Accept == i >= 0 /\ i = Steps /\ PrintT(<<"V", k, 1, {T.k}>>) /\ i' = -1 /\ UNCHANGED <<k, it>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_<<k, i, it>>
TInv == T.k = "walk" => it.p \in 0..Len(T.s) /\ it.m \in 0..Len(T.s)
===============================================================================
