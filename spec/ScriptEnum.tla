------------------------------ MODULE ScriptEnum ------------------------------
(* Exhaustive exploration of PapScript: every script that is a choice of one *)
(* text per slot of a family, with each list of arguments of the family.     *)
(* Every complete behaviour is printed, to be replayed on the real code.     *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
VARIABLES k, s, h
\* families: [slots |-> sequence of (sequences of texts), args |-> sequence of indices into lists]
Enum == JsonDeserialize(IOEnv.ENUM)
Fam(f) == Enum.families[f]
EScript(x) == x.sc
EArgs(x) == Enum.lists[Fam(x.f).args[x.a]]
INSTANCE PapScript WITH ScriptOf <- EScript, ArgsOf <- EArgs

\* the choices are made slot by slot, so that they are explored in parallel
Init == /\ k \in {[f |-> f, a |-> a, c |-> <<>>, sc |-> <<>>] : f \in 1..Len(Enum.families), a \in 1..Enum.nlists}
        /\ k.a <= Len(Fam(k.f).args)
        /\ s = [S0 EXCEPT !.ph = "choose"]
        /\ h = {}
Choose == /\ s.ph = "choose"
          /\ \E ch \in 1..Len(Fam(k.f).slots[Len(k.c) + 1]) :
                /\ k' = [k EXCEPT !.c = Append(@, ch), !.sc = @ \o Fam(k.f).slots[Len(k.c) + 1][ch]]
                /\ s' = IF Len(k'.c) = Len(Fam(k.f).slots) THEN S0 ELSE s
                /\ h' = h
Report == /\ Terminal
          /\ PrintT(<<"R", k.f, k.a, k.c, s.e, s.out, h>>)
          /\ s' = [s EXCEPT !.ph = "judged"]
          /\ k' = k
          /\ h' = h
Running == s.ph \notin {"choose", "judged"}
Next == Choose \/ (Running /\ (Step \/ Report))
Spec == Init /\ [][Next]_<<k, s, h>>
StepProp == [][(Running /\ s'.ph # "judged") => StepOk]_<<k, s, h>>
EInv == Running => Inv
\* no script is stuck
Moves == (Running /\ ~Terminal) => ENABLED Step
=============================================================================
