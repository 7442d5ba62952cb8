------------------------------- MODULE PapStyle -----------------------------
(* Styles of terminal output.                                                *)
(*   st == [b |-> set of attributes (1 bold, 2 faint, 3 italic, 4 underline),*)
(*          f |-> foreground, g |-> background (0 none, 1..8 black .. white)]*)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Plain == [b |-> {}, f |-> 0, g |-> 0]
IsPlain(st) == st = Plain
\* what can be combined: at most one of the two gives a color
CanCombine(x, y) == ~(x.f # 0 /\ y.f # 0) /\ ~(x.g # 0 /\ y.g # 0)
Combine(x, y) == [b |-> x.b \cup y.b, f |-> IF x.f # 0 THEN x.f ELSE y.f, g |-> IF x.g # 0 THEN x.g ELSE y.g]

\* an operand of a combination: <<"s", attribute>>, <<"f", c>>, <<"b", c>>
Operand(op) == CASE op[1] = "s" -> [Plain EXCEPT !.b = IF op[2] = 0 THEN {} ELSE {op[2]}]
                 [] op[1] = "f" -> [Plain EXCEPT !.f = op[2]]
                 [] OTHER -> [Plain EXCEPT !.g = op[2]]
RECURSIVE StyleOf(_)
StyleOf(ops) == IF ops = <<>> THEN Plain
                ELSE Combine(StyleOf(SubSeq(ops, 1, Len(ops) - 1)), Operand(ops[Len(ops)]))

ESC == 27
Dig2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Attr1(k) == <<ESC, 91, 48 + k, 109>>
RECURSIVE Attrs(_, _)
Attrs(b, k) == IF k > 4 THEN <<>> ELSE (IF k \in b THEN Attr1(k) ELSE <<>>) \o Attrs(b, k + 1)
Colors(st) == IF st.f # 0 /\ st.g # 0 THEN <<ESC, 91>> \o Dig2(29 + st.f) \o <<59>> \o Dig2(39 + st.g) \o <<109>>
              ELSE IF st.f # 0 THEN <<ESC, 91>> \o Dig2(29 + st.f) \o <<109>>
              ELSE IF st.g # 0 THEN <<ESC, 91>> \o Dig2(39 + st.g) \o <<109>>
              ELSE <<>>
Codes(st) == Attrs(st.b, 1) \o Colors(st)
Reset(st) == IF IsPlain(st) THEN <<>> ELSE <<ESC, 91, 48, 109>>
Enclose(st, text) == Codes(st) \o text \o Reset(st)

\* what a program can ask a style
Queries(st) == <<IF st.f # 0 THEN 1 ELSE 0, IF st.g # 0 THEN 1 ELSE 0, IF st.b # {} THEN 1 ELSE 0>>
               \o [k \in 1..4 |-> IF k \in st.b THEN 1 ELSE 0]

\* ------------------------------------------------- a pool of style values
\* op: <<"new", a, k>> <<"fg", a, c>> <<"bg", a, c>> <<"cp", a, b>>
\*     <<"ors", a, k>> <<"ort", a, b>> <<"bs", a, b, k>> <<"bt", a, b, c>>
Legal(p, op) ==
    CASE op[1] = "ort" -> CanCombine(p[op[2]], p[op[3]])
      [] op[1] = "bt" -> CanCombine(p[op[3]], p[op[4]])
      [] OTHER -> TRUE
Do(p, op) ==
    CASE op[1] = "new" -> [p EXCEPT ![op[2]] = Operand(<<"s", op[3]>>)]
      [] op[1] = "fg" -> [p EXCEPT ![op[2]] = Operand(<<"f", op[3]>>)]
      [] op[1] = "bg" -> [p EXCEPT ![op[2]] = Operand(<<"b", op[3]>>)]
      [] op[1] = "cp" -> [p EXCEPT ![op[2]] = p[op[3]]]
      [] op[1] = "ors" -> [p EXCEPT ![op[2]] = Combine(@, Operand(<<"s", op[3]>>))]
      [] op[1] = "ort" -> [p EXCEPT ![op[2]] = Combine(@, p[op[3]])]
      [] op[1] = "bs" -> [p EXCEPT ![op[2]] = Combine(p[op[3]], Operand(<<"s", op[4]>>))]
      [] OTHER -> [p EXCEPT ![op[2]] = Combine(p[op[3]], p[op[4]])]
\* has_style(k) of the operand masks: any of several attributes at once
HasAny(st, mask) == (mask \cap st.b) # {}

\* ------------------------------------------------------------ properties
RECURSIVE Count(_, _, _)
Count(t, u, i) == IF i + Len(u) - 1 > Len(t) THEN 0
                  ELSE (IF SubSeq(t, i, i + Len(u) - 1) = u THEN 1 ELSE 0) + Count(t, u, i + 1)
\* every attribute that is set appears exactly once, nothing else does
EachOnce(st) == \A k \in 1..4 : Count(Codes(st), Attr1(k), 1) = IF k \in st.b THEN 1 ELSE 0
OneReset(st) == LET t == Enclose(st, <<120>>) IN Count(t, <<ESC, 91, 48, 109>>, 1) = IF IsPlain(st) THEN 0 ELSE 1
Commutes(x, y) == CanCombine(x, y) => Combine(x, y) = Combine(y, x)
=============================================================================
