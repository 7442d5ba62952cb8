----------------------------- MODULE ScriptTrace -----------------------------
(* Judges recorded calls of the real formatting functions: record i says     *)
(* which script and arguments were given and what came out; the behaviour of *)
(* PapScript for them must end with the same text or the same error.         *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
VARIABLES k, s, h
Trace == ndJsonDeserialize(IOEnv.TRACE)
TScript(i) == Trace[i].s
TArgs(i) == Trace[i].A
INSTANCE PapScript WITH ScriptOf <- TScript, ArgsOf <- TArgs

Init == k \in 1..Len(Trace) /\ s = S0 /\ h = {}

SameErr(a, b) == a = b \/ (a = "not_integer" /\ b \in {"format_error", "invalid_conversion"})
\* character types: 0 char, 1 wchar_t (of four bytes), 2 char16_t, 3 char8_t, 4 char32_t
OutUnits(x, w) == IF w \in {1, 4} THEN x ELSE IF w = 2 THEN EncUtf16(x) ELSE EncUtf8(x)
Matches(r) == IF s.ph = "fail" THEN r.r.ok = 0 /\ SameErr(s.e, r.r.e)
              ELSE r.r.ok = 1 /\ OutUnits(s.out, r.A.w) = r.r.o
\* verdict: 1 accepted, 0 rejected, 2 not judged
Judge == /\ Terminal
         /\ PrintT(IF s.e = "?" THEN <<"V", k, 2, h>>
                   ELSE IF Matches(Trace[k]) THEN <<"V", k, 1, h>> ELSE <<"V", k, 0, s.e, s.out, h>>)
         /\ s' = [s EXCEPT !.ph = "judged"]
         /\ k' = k
         /\ h' = h
Next == Step \/ Judge
Spec == Init /\ [][Next]_<<k, s, h>>
StepProp == [][s.ph = "judged" \/ s'.ph = "judged" \/ StepOk]_<<k, s, h>>
TInv == s.ph # "judged" => Inv
=============================================================================
