------------------------------- MODULE PapScript ------------------------------
(* The interpreter of format strings as a state machine.                     *)
(*                                                                           *)
(* One behaviour interprets one script: s.p is the next unread position,     *)
(* s.out the text written so far, s.n / s.m the state of automatic argument  *)
(* numbering, and s.ph what the interpreter is about to do:                  *)
(*   text    read literal text, an escape, a field, or the start of a script *)
(*   cond    read and evaluate a condition                                   *)
(*   branch  execute (s.run) or skip (~s.run) a branch                       *)
(*   after   look for a further branch or the end of the scripted field      *)
(*   done / fail                                                             *)
(* k selects what is interpreted: ScriptOf(k) and ArgsOf(k) are given by the *)
(* module that instantiates this one (a recorded call of the real code, or   *)
(* one of all scripts over an alphabet).                                     *)
EXTENDS PapFmt

\* ------------------------------------------------------------ variables
\* A variable of a condition: kind b, i, f or s.  Floating point values are
\* kept as thousandths q and a small number u of units of 2^-26; z is 1 for an
\* infinity of the sign of q and 2 for what is not a number.  Only values that
\* are exact in both are judged.
VErr(e, p, n, m) == Err(e, p, n, m)
MakeVar(v) ==
    CASE v.t = "b" -> [e |-> "", v |-> [k |-> "b", i |-> IntVal(v.v)]]
      [] v.t = "i" -> IF v.g = 0 /\ MagLess(Max63, v.l) THEN [e |-> "?", v |-> <<>>]
                      ELSE [e |-> "", v |-> [k |-> "i", i |-> [g |-> v.g, l |-> v.l]]]
      [] v.t = "f" -> IF v.hq = 1 THEN [e |-> "", v |-> [k |-> "f", q |-> v.q, u |-> v.u, z |-> v.cls]] ELSE [e |-> "?", v |-> <<>>]
      [] v.t = "s" -> [e |-> "", v |-> [k |-> "s", s |-> v.v]]
      [] v.t = "sb" -> [e |-> "?", v |-> <<>>]
      [] v.t = "c" -> [e |-> "", v |-> [k |-> "s", s |-> <<v.v>>]]
      [] OTHER -> [e |-> "invalid_conversion", v |-> <<>>]

Truth(x) == CASE x.k \in {"b", "i"} -> x.i.l # Zero64
              [] x.k = "f" -> <<x.q, x.u, x.z>> # <<0, 0, 0>>
              [] OTHER -> x.s # <<>>
FloatOf(x) == IF x.k = "f" THEN x ELSE [k |-> "f", q |-> ClampInt(x.i) * 1000, u |-> 0, z |-> 0]
NotANumber(a, b) == \E x \in {a, b} : x.k = "f" /\ x.z = 2
\* two different floating point values whose distance is at most the epsilon
\* (eight units): equal, but not in the same place of the order
NearlySame(a, b) == /\ "f" \in {a.k, b.k} /\ "s" \notin {a.k, b.k}
               /\ LET x == FloatOf(a) y == FloatOf(b)
                  IN x.z = 0 /\ y.z = 0 /\ x.q = y.q /\ x.u # y.u /\ x.u - y.u < 8 /\ y.u - x.u < 8
FloatEq(x, y) == IF x.z # 0 \/ y.z # 0 THEN x.z = y.z /\ x.q = y.q ELSE x.q = y.q /\ x.u - y.u < 8 /\ y.u - x.u < 8
FloatLt(x, y) == IF x.z # 0 THEN x.q < 0 /\ ~(y.z = 1 /\ y.q < 0)
                 ELSE IF y.z # 0 THEN y.q > 0
                 ELSE x.q < y.q \/ (x.q = y.q /\ x.u < y.u)
\* a comparison that is not judged: of an integer and a floating point value
\* that cannot hold it, or at the edge of the epsilon, or (for the order) of
\* values that are equal within it
Inexact(op, a, b) ==
    \/ \E x \in {a, b} : \E y \in {a, b} :
           x.k = "f" /\ y.k \in {"b", "i"} /\ ~(MagIsSmall(y.i.l) /\ MagSmall(y.i.l) < 1000000)
    \/ /\ "f" \in {a.k, b.k} /\ "s" \notin {a.k, b.k}
       /\ LET x == FloatOf(a) y == FloatOf(b)
          IN x.z = 0 /\ y.z = 0 /\ x.q = y.q /\ (x.u - y.u \in {8, -8} \/ (NearlySame(a, b) /\ op \notin {"==", "!="}))
VarEq(a, b) == IF (a.k = "s") # (b.k = "s") \/ NotANumber(a, b) THEN FALSE
               ELSE IF a.k = "s" THEN a.s = b.s
               ELSE IF "f" \in {a.k, b.k} THEN FloatEq(FloatOf(a), FloatOf(b))
               ELSE IntEq(a.i, b.i)
VarLt(a, b) == IF (a.k = "s") # (b.k = "s") \/ NotANumber(a, b) THEN FALSE
               ELSE IF a.k = "s" THEN TextLess(a.s, b.s)
               ELSE IF "f" \in {a.k, b.k} THEN FloatLt(FloatOf(a), FloatOf(b))
               ELSE IntLt(a.i, b.i)
Compare(op, a, b) ==
    CASE op = "==" -> VarEq(a, b) [] op = "!=" -> ~VarEq(a, b)
      [] op = ">" -> VarLt(b, a) [] op = ">=" -> VarLt(b, a) \/ VarEq(a, b)
      [] op = "<" -> VarLt(a, b) [] OTHER -> VarLt(a, b) \/ VarEq(a, b)

\* thousandths of [-]digits.digits (at most three digits after the point count)
RECURSIVE DigitsNat(_, _, _, _)
DigitsNat(S, p, q, acc) == IF p >= q THEN acc ELSE DigitsNat(S, p + 1, q, acc * 10 + (S[p] - 48))
FracThousandths(S, p, q) ==
    (IF p < q THEN (S[p] - 48) * 100 ELSE 0) + (IF p + 1 < q THEN (S[p + 1] - 48) * 10 ELSE 0)
    + (IF p + 2 < q THEN S[p + 2] - 48 ELSE 0)

ParseVariable(S, p, n, m, A) ==
    IF p > Len(S) THEN Err("end_of_string", p, n, m)
    ELSE IF S[p] = LB
         THEN LET r == Access(S, p + 1, n, m, A)
              IN IF r.e # "" THEN r
                 ELSE IF r.p > Len(S) THEN Err("end_of_string", r.p, r.n, r.m)
                 ELSE IF S[r.p] # RB THEN Err("unenclosed_brace", r.p, r.n, r.m)
                 ELSE LET v == MakeVar(r.v)
                      IN IF v.e # "" THEN Err(v.e, r.p, r.n, r.m) ELSE Ok(r.p + 1, r.n, r.m, v.v)
    ELSE IF S[p] = QUOTE
         THEN LET r == ParseQStr(S, p + 1)
              IN IF r.e # "" THEN Err(r.e, r.p, n, m) ELSE Ok(r.p, n, m, [k |-> "s", s |-> r.v])
    ELSE IF S[p] = MINUS \/ IsDigit(S[p]) \/ S[p] = DOT
         THEN LET b == IF S[p] = MINUS THEN p + 1 ELSE p
                  q == DigitsEnd(S, b)
              IN IF q <= Len(S) /\ S[q] = DOT
                 THEN LET f == DigitsEnd(S, q + 1)
                          t == DigitsNat(S, b, Min(q, b + 6), 0) * 1000 + FracThousandths(S, q + 1, f)
                      IN IF q = b /\ f = q + 1 THEN Err("runtime", p, n, m)
                         ELSE IF f > q + 4 \/ q > b + 3 THEN Err("?", p, n, m)
                         ELSE Ok(f, n, m, [k |-> "f", q |-> IF S[p] = MINUS THEN 0 - t ELSE t, u |-> 0, z |-> 0])
                 ELSE LET r == ParseInt64(S, p)
                      IN IF r.e = "invalid_index" THEN Err("invalid_condition", p, n, m)
                         ELSE IF r.e # "" THEN Err(r.e, p, n, m) ELSE Ok(q, n, m, [k |-> "i", i |-> r.v])
    ELSE Err("invalid_condition", p, n, m)

IsOpCh(c) == c \in {EQ, BANG, GT, LT}
\* [e, p, op]
ParseOp(S, p) ==
    LET nx == IF p + 1 <= Len(S) THEN S[p + 1] ELSE 0
    IN IF S[p] = EQ
       THEN IF nx = EQ THEN [e |-> "", p |-> p + 2, op |-> "=="]
            ELSE IF nx = 0 /\ p + 1 > Len(S) THEN [e |-> "end_of_string", p |-> p, op |-> ""]
            ELSE [e |-> "invalid_operator", p |-> p, op |-> ""]
       ELSE IF S[p] = BANG
       THEN IF nx = EQ THEN [e |-> "", p |-> p + 2, op |-> "!="]
            ELSE IF p + 1 > Len(S) THEN [e |-> "end_of_string", p |-> p, op |-> ""]
            ELSE [e |-> "invalid_operator", p |-> p, op |-> ""]
       ELSE IF nx = EQ THEN [e |-> "", p |-> p + 2, op |-> IF S[p] = GT THEN ">=" ELSE "<="]
       ELSE [e |-> "", p |-> p + 1, op |-> IF S[p] = GT THEN ">" ELSE "<"]

\* the end of a condition: white space and '?'
CondEnd(S, r, truth) ==
    LET q == SkipWs(S, r.p)
    IN IF q > Len(S) THEN Err("end_of_string", q, r.n, r.m)
       ELSE IF S[q] # QUEST THEN Err("invalid_condition", q, r.n, r.m)
       ELSE Ok(q + 1, r.n, r.m, truth)

ParseCondition(S, p0, n, m, A) ==
    LET p == SkipWs(S, p0)
    IN IF p > Len(S) THEN Err("end_of_string", p, n, m)
       ELSE IF S[p] = BANG
       THEN LET r == ParseVariable(S, SkipWs(S, p + 1), n, m, A)
            IN IF r.e # "" THEN r ELSE CondEnd(S, r, ~Truth(r.v))
       ELSE IF ~(S[p] \in {QUOTE, LB, MINUS, DOT} \/ IsDigit(S[p])) THEN Err("invalid_condition", p, n, m)
       ELSE
       LET r == ParseVariable(S, p, n, m, A)
       IN IF r.e # "" THEN r
          ELSE LET q == SkipWs(S, r.p)
               IN IF q > Len(S) THEN Err("end_of_string", q, r.n, r.m)
                  ELSE IF ~IsOpCh(S[q]) THEN CondEnd(S, r, Truth(r.v))
                  ELSE LET o == ParseOp(S, q)
                       IN IF o.e # "" THEN Err(o.e, o.p, r.n, r.m)
                          ELSE LET r2 == ParseVariable(S, SkipWs(S, o.p), r.n, r.m, A)
                               IN IF r2.e # "" THEN r2
                                  ELSE IF Inexact(o.op, r.v, r2.v) THEN Err("?", q, r.n, r.m)
                                  ELSE CondEnd(S, r2, Compare(o.op, r.v, r2.v))

\* ------------------------------------------------------------ fields
\* a replacement field whose opening brace has been read; exec: write its text
ReplField(S, p, n, m, A, exec) ==
    LET r == Access(S, p, n, m, A)
    IN IF r.e # "" THEN r
       ELSE IF r.p > Len(S) THEN Err("end_of_string", r.p, r.n, r.m)
       ELSE LET q == IF S[r.p] = COLON THEN r.p + 1 ELSE r.p
                f == IF exec THEN FormatField(r.v, S, q, r.n, r.m, A) ELSE SkipField(r.v, S, q, r.n, r.m, A)
            IN IF f.e # "" THEN f
               ELSE IF f.p > Len(S) THEN Err("end_of_string", f.p, f.n, f.m)
               ELSE IF S[f.p] # RB THEN Err("unenclosed_brace", f.p, f.n, f.m)
               ELSE Ok(f.p + 1, f.n, f.m, IF exec THEN f.v ELSE <<>>)

\* a branch of a scripted field
Branch(S, p0, n, m, A, exec) ==
    LET p == SkipWs(S, p0)
    IN IF p > Len(S) THEN Err("end_of_string", p, n, m)
       ELSE IF S[p] = QUOTE
       THEN IF exec THEN LET r == ParseQStr(S, p + 1)
                         IN IF r.e # "" THEN Err(r.e, r.p, n, m) ELSE Ok(SkipWs(S, r.p), n, m, r.v)
            ELSE Ok(SkipWs(S, SkipQStr(S, p + 1)), n, m, <<>>)
       ELSE IF S[p] = LB
       THEN LET r == ReplField(S, p + 1, n, m, A, exec)
            IN IF r.e # "" THEN r ELSE Ok(SkipWs(S, r.p), r.n, r.m, r.v)
       ELSE Err("invalid_string", p, n, m)

RECURSIVE TextEnd(_, _)
TextEnd(S, p) == IF p <= Len(S) /\ S[p] # LB /\ S[p] # RB THEN TextEnd(S, p + 1) ELSE p

\* ------------------------------------------------------------ the machine
CONSTANTS ScriptOf(_), ArgsOf(_)
VARIABLES k, s,
          h   \* the names of the actions taken (a function of the history; not read by any action)

S0 == [ph |-> "text", p |-> 1, out |-> <<>>, n |-> 0, m |-> FALSE,
       taken |-> FALSE, run |-> FALSE, els |-> FALSE, nsel |-> 0, e |-> ""]
Sc == ScriptOf(k)
Ar == ArgsOf(k)
Fail(e) == s' = [s EXCEPT !.ph = "fail", !.e = e]
At(c) == s.p <= Len(Sc) /\ Sc[s.p] = c
Next1 == IF s.p + 1 <= Len(Sc) THEN Sc[s.p + 1] ELSE -1

Text == /\ s.ph = "text" /\ s.p <= Len(Sc) /\ ~At(LB) /\ ~At(RB)
        /\ LET q == TextEnd(Sc, s.p)
           IN s' = [s EXCEPT !.p = q, !.out = @ \o SubSeq(Sc, s.p, q - 1)]
Escaped == /\ s.ph = "text" /\ (At(LB) \/ At(RB)) /\ Next1 = Sc[s.p]
           /\ s' = [s EXCEPT !.p = @ + 2, !.out = Append(@, Sc[s.p])]
BadBrace == /\ s.ph = "text"
            /\ \/ At(RB) /\ Next1 # RB /\ Fail(IF Next1 = -1 THEN "end_of_string" ELSE "unenclosed_brace")
               \/ At(LB) /\ Next1 = -1 /\ Fail("end_of_string")
Replace == /\ s.ph = "text" /\ At(LB) /\ Next1 \notin {-1, LB, DOLLAR}
           /\ LET r == ReplField(Sc, s.p + 1, s.n, s.m, Ar, TRUE)
              IN IF r.e # "" THEN Fail(r.e)
                 ELSE s' = [s EXCEPT !.p = r.p, !.n = r.n, !.m = r.m, !.out = @ \o r.v]
Open == /\ s.ph = "text" /\ At(LB) /\ Next1 = DOLLAR
        /\ s' = [s EXCEPT !.ph = "cond", !.p = @ + 2, !.taken = FALSE, !.els = FALSE, !.nsel = 0]
Condition == /\ s.ph = "cond"
             /\ LET r == ParseCondition(Sc, s.p, s.n, s.m, Ar)
                IN IF r.e # "" THEN Fail(r.e)
                   ELSE s' = [s EXCEPT !.ph = "branch", !.p = r.p, !.n = r.n, !.m = r.m,
                                       !.run = r.v /\ ~s.taken, !.els = FALSE]
BranchResult(exec) ==
    LET r == Branch(Sc, s.p, s.n, s.m, Ar, exec)
    IN IF r.e # "" THEN Fail(r.e)
       ELSE s' = [s EXCEPT !.ph = "after", !.p = r.p, !.n = r.n, !.m = r.m, !.out = @ \o r.v,
                           !.taken = @ \/ (exec /\ ~s.els), !.nsel = IF exec THEN @ + 1 ELSE @]
Execute == s.ph = "branch" /\ s.run /\ BranchResult(TRUE)
Skip == s.ph = "branch" /\ ~s.run /\ BranchResult(FALSE)
ElseIf == /\ s.ph = "after" /\ At(COLON)
          /\ LET q == SkipWs(Sc, s.p + 1)
             IN q <= Len(Sc) /\ Sc[q] = DOLLAR /\ s' = [s EXCEPT !.ph = "cond", !.p = q + 1]
Else == /\ s.ph = "after" /\ At(COLON)
        /\ LET q == SkipWs(Sc, s.p + 1)
           IN ~(q <= Len(Sc) /\ Sc[q] = DOLLAR)
              /\ s' = [s EXCEPT !.ph = "branch", !.p = q, !.run = ~s.taken, !.els = TRUE]
Close == /\ s.ph = "after" /\ ~At(COLON)
         /\ IF s.p > Len(Sc) THEN Fail("end_of_string")
            ELSE IF Sc[s.p] # RB THEN Fail("unenclosed_brace")
            ELSE s' = [s EXCEPT !.ph = "text", !.p = @ + 1]
Finish == s.ph = "text" /\ s.p > Len(Sc) /\ s' = [s EXCEPT !.ph = "done"]

Did(a) == h' = h \cup {a}
Step == /\ k' = k
        /\ \/ Text /\ Did("Text")
           \/ Escaped /\ Did("Escaped")
           \/ BadBrace /\ Did("BadBrace")
           \/ Replace /\ Did("Replace")
           \/ Open /\ Did("Open")
           \/ Condition /\ Did("Condition")
           \/ Execute /\ Did("Execute")
           \/ Skip /\ Did("Skip")
           \/ ElseIf /\ Did("ElseIf")
           \/ Else /\ Did("Else")
           \/ Close /\ Did("Close")
           \/ Finish /\ Did("Finish")
Terminal == s.ph \in {"done", "fail"}

\* ------------------------------------------------------------ properties
\* The interpreter never runs past the script
InScript == s.p >= 1 /\ s.p <= Len(Sc) + 1
\* exactly one action is possible until the end: no script is stuck, and the
\* result depends on the script and the arguments only
Progress == ~Terminal => ENABLED Step
\* at most one branch of a scripted field with at most one else is printed
OneBranch == s.ph = "after" /\ ~s.els => s.nsel <= 1
\* automatic numbering stops at the first explicit index
NumberingOk == s.n <= Len(Ar.pos)
ErrOk == (s.ph = "fail") = (s.e # "")
\* "?": what the value renders or compares as is outside of the model
ErrorKinds == {"", "?", "end_of_string", "unenclosed_brace", "invalid_field_name", "invalid_condition", "invalid_index",
               "invalid_attribute", "invalid_operator", "invalid_string", "format_error", "out_of_range",
               "invalid_conversion", "not_integer", "attr", "runtime"}
KnownError == s.e \in ErrorKinds
Inv == InScript /\ OneBranch /\ NumberingOk /\ ErrOk /\ KnownError

IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* text is only ever appended; the position advances except when a field ends
OnlyAppends == IsPre(s.out, s'.out)
Advances == s'.p >= s.p /\ (s'.p = s.p => s'.ph # s.ph)
NoAutoAfterManual == s.m => s'.m /\ s'.n = s.n
StepOk == OnlyAppends /\ Advances /\ NoAutoAfterManual
=============================================================================
