------------------------------- MODULE UtfEnum --------------------------------
(* Every sequence of units over an alphabet, up to a length: a step appends   *)
(* one unit.                                                                  *)
EXTENDS PapUtf, TLC, Json
CONSTANTS W, UNITS, MAXLEN
VARIABLE s
Init == s = <<>>
Show(t) == Observed(t, W)
Next == \E u \in UNITS :
          /\ Len(s) < MAXLEN
          /\ s' = Append(s, u)
          /\ PrintT("E" \o ToJson(<<s, u, Show(s'), s'>>))
Spec == Init /\ [][Next]_s
UInv == Covers(s, W) /\ RoundTrip(s, W) /\ LengthsAgree(s, W) /\ OffsetsAgree(s, W)
===============================================================================
