------------------------------- MODULE PapStep -------------------------------
(* The interpreter run in steps.  One unit of work is one ordinary character, *)
(* one escaped brace, one replacement field or one scripted field (all of its  *)
(* conditions and branches).  Between two units the run may be interrupted:    *)
(* u counts the units since the last interruption, and cuts holds, for every   *)
(* interruption, the units done, the position reached and the text written.    *)
EXTENDS PapScript
VARIABLES u, cuts
TextOne == /\ s.ph = "text" /\ s.p <= Len(Sc) /\ ~At(LB) /\ ~At(RB)
           /\ s' = [s EXCEPT !.p = @ + 1, !.out = Append(@, Sc[s.p])]
           /\ Did("TextOne") /\ k' = k
AtText == s.ph = "text" /\ s.p <= Len(Sc) /\ ~At(LB) /\ ~At(RB)
Unit == /\ IF AtText THEN TextOne ELSE Step
        /\ u' = IF s'.ph = "text" /\ s.ph # "done" THEN u + 1 ELSE u
        /\ cuts' = cuts
Cut == /\ s.ph = "text"
       /\ cuts' = Append(cuts, [u |-> u, p |-> s.p, o |-> s.out])
       /\ u' = 0
       /\ h' = h \cup {"Cut"}
       /\ UNCHANGED <<k, s>>
\* what was written and read before an interruption stays as it was
CutsOk == \A i \in 1..Len(cuts) :
            /\ IsPre(cuts[i].o, s.out) /\ cuts[i].p <= s.p
            /\ i > 1 => /\ IsPre(cuts[i - 1].o, cuts[i].o) /\ cuts[i - 1].p <= cuts[i].p
                        /\ cuts[i].u = 0 => cuts[i] = [cuts[i - 1] EXCEPT !.u = 0]
                        /\ cuts[i].u > 0 => cuts[i - 1].p < cuts[i].p
=============================================================================
