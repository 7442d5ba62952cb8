------------------------------- MODULE StepTrace -----------------------------
(* Judges recorded runs of the real interpreter, interrupted after the units   *)
(* of work that were asked for, and recorded accesses of single fields.        *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
VARIABLES k, s, h, u, cuts
Trace == ndJsonDeserialize(IOEnv.TRACE)
TScript(i) == Trace[i].s
TArgs(i) == Trace[i].A
INSTANCE PapStep WITH ScriptOf <- TScript, ArgsOf <- TArgs
Init == k \in 1..Len(Trace) /\ s = S0 /\ h = {} /\ u = 0 /\ cuts = <<>>
SameErr(a, b) == a = b \/ (a = "not_integer" /\ b \in {"format_error", "invalid_conversion"})
OutUnits(x, w) == IF w \in {1, 4} THEN x ELSE IF w = 2 THEN EncUtf16(x) ELSE EncUtf8(x)
Rec == Trace[k]
Calls == Rec.calls
IsAccess == Calls = <<>>
More == ~IsAccess /\ Len(cuts) < Len(Calls)
\* a call ends when it did its units, or when nothing is left; the last one runs to the end
MustCut == More /\ s.ph = "text" /\ (u = Calls[Len(cuts) + 1] \/ s.p > Len(Sc))
Position(p) == Len(OutUnits(SubSeq(Sc, 1, p - 1), Ar.w))
CutSeen(i) == LET o == Rec.r.at[i]
              IN (o.n = cuts[i].u \/ o.n = -1) /\ o.p = Position(cuts[i].p) /\ o.o = OutUnits(cuts[i].o, Ar.w)
RunMatches == /\ Len(Rec.r.at) = Len(cuts)
              /\ \A i \in 1..Len(cuts) : CutSeen(i)
              /\ IF s.ph = "fail" THEN Rec.r.ok = 0 /\ SameErr(s.e, Rec.r.e) /\ Rec.r.ep >= -1 /\ Rec.r.ep <= Position(Len(Sc) + 1)
                 ELSE Rec.r.ok = 1 /\ Len(cuts) = Len(Calls)
\* the field at the start of the text: the value it names and where its name ends
Field == Access(Sc, 1, 0, FALSE, Ar)
FieldText == FormatField(Field.v, <<RB>>, 1, Field.n, Field.m, Ar)
AccMatches == IF Field.e # "" THEN Rec.r.ok = 0 /\ SameErr(Field.e, Rec.r.e)
              ELSE /\ Rec.r.ok = 1 /\ Rec.r.p = Position(Field.p)
                   /\ IF FieldText.e = "?" THEN TRUE
                      ELSE IF FieldText.e # "" THEN SameErr(FieldText.e, Rec.r.e)
                      ELSE Rec.r.e = "" /\ Rec.r.o = OutUnits(FieldText.v, Ar.w)
Say(x) == PrintT(x) /\ s' = [s EXCEPT !.ph = "judged"] /\ UNCHANGED <<k, h, u, cuts>>
Judge == IF IsAccess
         THEN Say(IF Field.e = "?" THEN <<"V", k, 2, {"Access"}>> ELSE IF AccMatches THEN <<"V", k, 1, {"Access"}>>
                  ELSE <<"V", k, 0, Field.e, IF Field.e = "" THEN FieldText.v ELSE <<>>, Field.p, {}>>)
         ELSE Say(IF s.e = "?" THEN <<"V", k, 2, h>> ELSE IF RunMatches THEN <<"V", k, 1, h>> ELSE <<"V", k, 0, s.e, s.out, cuts, h>>)
Next == s.ph # "judged" /\ IF IsAccess \/ s.ph = "fail" \/ ~More THEN Judge ELSE IF MustCut THEN Cut ELSE Unit
Spec == Init /\ [][Next]_<<k, s, h, u, cuts>>
TInv == s.ph # "judged" => Inv /\ CutsOk
=============================================================================
