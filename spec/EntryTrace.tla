----------------------------- MODULE EntryTrace -----------------------------
(* Judges the results of all entry points for one script and arguments: the  *)
(* behaviour of PapScript gives the one text (or error) that every one of    *)
(* them has to deliver in its own way.                                       *)
(* Record: s, A, ek (character type), forms (what was called), r (results);  *)
(* the first form is a plain format().                                       *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
VARIABLES k, s, h
Trace == ndJsonDeserialize(IOEnv.TRACE)
TScript(i) == Trace[i].s
TArgs(i) == Trace[i].A
INSTANCE PapScript WITH ScriptOf <- TScript, ArgsOf <- TArgs
ST == INSTANCE PapStyle

Init == k \in 1..Len(Trace) /\ s = S0 /\ h = {}

\* character types: 0 char, 1 char16_t, 2 char32_t, 3 wchar_t, 4 char8_t
Enc(x, ek) == CASE ek = 1 -> EncUtf16(x) [] ek \in {2, 3} -> x [] OTHER -> EncUtf8(x)
SameErr(a, b) == a = b \/ (a = "not_integer" /\ b \in {"format_error", "invalid_conversion"})
NL == <<10>>
First(t, n) == SubSeq(t, 1, IF n < Len(t) THEN n ELSE Len(t))
Pre(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN SubSeq(a, 1, n) = SubSeq(b, 1, n)

TextForms == {"format", "vformat", "dyn", "to_back", "to_vec", "to_deq", "to_ptr", "vto_back", "vto_list", "range", "os", "file", "out"}
LineForms == {"osln", "fileln", "outln"}
BoundForms == {"n_ptr", "n_back", "n_list"}

\* the one result: [ok, o, e]; where the model leaves the text open, that of
\* the plain call
Ref(T) == IF s.e = "?" THEN T.r[1]
          ELSE IF s.ph = "fail" THEN [ok |-> 0, o |-> Enc(s.out, T.ek), e |-> s.e]
          ELSE [ok |-> 1, o |-> Enc(s.out, T.ek), e |-> ""]

\* what a form delivers of the text t
Good(f, r, t) ==
    LET st == ST!StyleOf(f.st)
    IN /\ r.ok = 1
       /\ CASE f.f \in TextForms -> r.o = t /\ r.n = 0
            [] f.f \in LineForms -> r.o = t \o NL
            [] f.f \in BoundForms -> r.o = First(t, f.n) /\ r.n = Len(First(t, f.n))
            [] f.f = "twice" -> r.o = t \o NL \o t
            [] f.f = "size" -> r.n = Len(t)
            [] f.f \in {"st", "sty"} -> r.o = ST!Enclose(st, t)
            [] f.f = "stln" -> r.o = ST!Enclose(st, t) \o NL
            [] OTHER -> FALSE
\* the bounded forms may end before the error is reached
Bad(f, r, ref) == IF r.ok = 0 THEN SameErr(ref.e, r.e)
                  ELSE f.f \in BoundForms /\ Len(r.o) = f.n /\ r.n = f.n /\ Pre(r.o, ref.o)
FormOk(T, ref, i) == IF T.forms[i].f = "nl" THEN T.r[i].ok = 1 /\ T.r[i].o = NL
                     ELSE IF ref.ok = 1 THEN Good(T.forms[i], T.r[i], ref.o) ELSE Bad(T.forms[i], T.r[i], ref)

Judge == /\ Terminal
         /\ LET T == Trace[k]
                ref == Ref(T)
                wrong == {i \in 1..Len(T.forms) : ~FormOk(T, ref, i)}
            IN PrintT(IF wrong = {} THEN <<"V", k, 1, h>>
                      ELSE LET i == CHOOSE x \in wrong : \A y \in wrong : x <= y
                           IN <<"V", k, 0, i, T.forms[i].f, T.forms[i].n, ref.e, ref.o, T.r[i].o, h>>)
         /\ s' = [s EXCEPT !.ph = "judged"]
         /\ k' = k
         /\ h' = h
Next == Step \/ Judge
Spec == Init /\ [][Next]_<<k, s, h>>
StepProp == [][s.ph = "judged" \/ s'.ph = "judged" \/ StepOk]_<<k, s, h>>
TInv == s.ph # "judged" => Inv
=============================================================================
