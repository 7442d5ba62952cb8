------------------------------- MODULE StepEnum ------------------------------
(* Every script of the families, interrupted in every way (at most CUTS times): *)
(* each behaviour is printed, to be replayed on the real code.                 *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
VARIABLES k, s, h, u, cuts
Enum == JsonDeserialize(IOEnv.ENUM)
Fam(f) == Enum.families[f]
EScript(x) == x.sc
EArgs(x) == Enum.lists[Fam(x.f).args[x.a]]
INSTANCE PapStep WITH ScriptOf <- EScript, ArgsOf <- EArgs
Init == /\ k \in {[f |-> f, a |-> a, c |-> <<>>, sc |-> <<>>] : f \in 1..Len(Enum.families), a \in 1..Enum.nlists}
        /\ k.a <= Len(Fam(k.f).args)
        /\ s = [S0 EXCEPT !.ph = "choose"]
        /\ h = {} /\ u = 0 /\ cuts = <<>>
Choose == /\ s.ph = "choose"
          /\ \E ch \in 1..Len(Fam(k.f).slots[Len(k.c) + 1]) :
                /\ k' = [k EXCEPT !.c = Append(@, ch), !.sc = @ \o Fam(k.f).slots[Len(k.c) + 1][ch]]
                /\ s' = IF Len(k'.c) = Len(Fam(k.f).slots) THEN S0 ELSE s
                /\ UNCHANGED <<h, u, cuts>>
Report == /\ Terminal
          /\ PrintT(<<"R", k.f, k.a, k.c, s.e, s.out, u, cuts, h>>)
          /\ s' = [s EXCEPT !.ph = "judged"]
          /\ UNCHANGED <<k, h, u, cuts>>
Running == s.ph \notin {"choose", "judged"}
\* nothing is done in at most one call running
MayCut == IF cuts = <<>> THEN TRUE ELSE Len(cuts) < Enum.cuts /\ (u > 0 \/ cuts[Len(cuts)].u > 0)
Next == Choose \/ (Running /\ (Unit \/ Report \/ (MayCut /\ Cut)))
Spec == Init /\ [][Next]_<<k, s, h, u, cuts>>
EInv == Running => Inv /\ CutsOk
=============================================================================
