-------------------------------- MODULE PapFmt --------------------------------
(* Formatting of one replacement field: which specification the type of the  *)
(* argument takes, and the text of the value under that specification, also  *)
(* for ranges, tuples, wrappers, calendar times and user types.              *)
(*                                                                           *)
(* The specification of a type is parsed before any value is looked at (a    *)
(* range parses the specification of its elements also when it is empty), so *)
(* parsing works on type descriptors: a record with the fields t, and e (the *)
(* descriptor of the elements) for ranges, n for tuples.  A value is its own *)
(* descriptor.                                                               *)
EXTENDS PapSpec

T_comma == <<44, 32>>
T_colon == <<COLON, 32>>

\* Types whose formatter has a parser of its own (the others read nothing from
\* the specification, or read it while they write)
Parsable(ty) == ty.t \notin {"opt", "var", "exp", "tid", "join"} /\ ~(ty.t = "u" /\ ty.k \in {"adl", "adlp"})
Formattable(ty) == ty.t \notin {"n", "ti"} /\ ~(ty.t = "u" /\ ty.k = "none")

\* The elements of a map are pairs
ElemTy(ty) == IF ty.t = "map" THEN [t |-> "tup", n |-> 2] ELSE ty.e
IsSetKind(ty) == ty.t = "map" \/ ty.k = "set"

\* ------------------------------------------------------------ parsed formats
\* [c |-> "std", d], [c |-> "rng", ty, dbg, sep, op, cl, und],
\* [c |-> "tup", sep, op, cl], [c |-> "tm", d, spec], [c |-> "cls", mode, w]
RECURSIVE DefFmt(_)
DefFmt(ty) ==
    CASE ty.t \in {"seq", "map"} ->
            [c |-> "rng", ty |-> 0, dbg |-> FALSE, sep |-> T_comma,
             op |-> <<IF IsSetKind(ty) THEN LB ELSE LSB>>, cl |-> <<IF IsSetKind(ty) THEN RB ELSE RSB>>,
             und |-> DefFmt(ElemTy(ty))]
      [] ty.t = "tup" -> [c |-> "tup", sep |-> T_comma, op |-> <<40>>, cl |-> <<41>>]
      [] ty.t = "tm" -> [c |-> "tm", d |-> D0, spec |-> <<>>]
      [] ty.t = "u" /\ ty.k = "cls" -> [c |-> "cls", mode |-> <<>>, w |-> 0]
      [] OTHER -> [c |-> "std", d |-> D0]

\* What an enclosing range asks of the format of its elements
Bare(f) == IF f.c \in {"rng", "tup"} THEN [f EXCEPT !.op = <<>>, !.cl = <<>>, !.sep = T_colon] ELSE f
RECURSIVE FindRB(_, _)
FindRB(S, p) == IF p > Len(S) \/ S[p] = RB THEN p ELSE FindRB(S, p + 1)
RECURSIVE LowerEnd(_, _)
LowerEnd(S, p) == IF p <= Len(S) /\ S[p] >= 97 /\ S[p] <= 122 THEN LowerEnd(S, p + 1) ELSE p

RECURSIVE ParseFmt(_, _, _, _, _, _)
ParseRange(ty, S, p, n, m, A) ==
    IF p > Len(S) THEN Ok(p, n, m, DefFmt(ty))
    ELSE
    LET f0 == DefFmt(ty)
        dbg == S[p] = QUEST
    IN IF dbg /\ (p + 1 > Len(S) \/ S[p + 1] # 115) THEN Err("format_error", p, n, m)
       ELSE IF ~dbg /\ S[p] \notin {110, 109, 115, COLON} THEN Ok(p, n, m, f0)
       ELSE
       LET k == IF dbg THEN 115 ELSE IF S[p] = COLON THEN 0 ELSE S[p]
           q == IF dbg THEN p + 2 ELSE IF k = 0 THEN p ELSE p + 1
           f1 == [f0 EXCEPT !.ty = k, !.dbg = dbg,
                            !.op = IF k = 110 THEN <<>> ELSE IF k = 109 THEN <<LB>> ELSE @,
                            !.cl = IF k = 110 THEN <<>> ELSE IF k = 109 THEN <<RB>> ELSE @]
           r == IF q <= Len(S) /\ S[q] = COLON THEN ParseFmt(ElemTy(ty), S, q + 1, n, m, A)
                ELSE Ok(q, n, m, f1.und)
       IN IF r.e # "" THEN r
          ELSE Ok(r.p, r.n, r.m,
                  [f1 EXCEPT !.und = IF k = 109 THEN Bare(r.v) ELSE r.v])

ParseTuple(ty, S, p, n, m) ==
    IF p > Len(S) THEN Ok(p, n, m, DefFmt(ty))
    ELSE LET f0 == DefFmt(ty)
         IN IF ty.n = 2 /\ S[p] = 109
            THEN Ok(p + 1, n, m, [f0 EXCEPT !.sep = T_colon, !.op = <<>>, !.cl = <<>>])
            ELSE IF S[p] = 110 THEN Ok(p + 1, n, m, [f0 EXCEPT !.op = <<>>, !.cl = <<>>])
            ELSE Ok(p, n, m, f0)

ParseFmt(ty, S, p, n, m, A) ==
    CASE ty.t \in {"seq", "map"} -> ParseRange(ty, S, p, n, m, A)
      [] ty.t = "tup" -> ParseTuple(ty, S, p, n, m)
      [] ty.t = "tm" ->
            LET r == ParseSimple(S, p, n, m, A)
            IN IF r.e # "" THEN r
               ELSE LET q == FindRB(S, r.p)
                    IN Ok(q, r.n, r.m, [c |-> "tm", d |-> r.v, spec |-> SubSeq(S, r.p, q - 1)])
      [] ty.t = "u" /\ ty.k = "str" ->
            LET r == ParseSimple(S, p, n, m, A)
            IN IF r.e # "" THEN r ELSE Ok(r.p, r.n, r.m, [c |-> "std", d |-> r.v])
      [] ty.t = "u" ->     \* "cls": lower case letters, then possibly {argument}
            LET q == LowerEnd(S, p)
                md == SubSeq(S, p, q - 1)
            IN IF q > Len(S) \/ S[q] # LB THEN Ok(q, n, m, [c |-> "cls", mode |-> md, w |-> 0])
               ELSE LET r == ParseVal(S, q, n, m, A, FALSE)
                    IN IF r.e # "" THEN r ELSE Ok(r.p, r.n, r.m, [c |-> "cls", mode |-> md, w |-> r.v])
      [] OTHER ->
            LET r == ParseStd(S, p, n, m, A, TypesOf(ty))
            IN IF r.e # "" THEN r
               ELSE IF SpecError(ty, r.v) # "" THEN Err(SpecError(ty, r.v), r.p, r.n, r.m)
               ELSE Ok(r.p, r.n, r.m, [c |-> "std", d |-> r.v])

\* Leave out a specification that the value's formatter does not parse on its own
RECURSIVE SkipBalanced(_, _, _)
SkipBalanced(S, p, depth) ==
    IF p > Len(S) THEN p
    ELSE IF S[p] = LB THEN SkipBalanced(S, p + 1, depth + 1)
    ELSE IF S[p] = RB THEN (IF depth = 0 THEN p ELSE SkipBalanced(S, p + 1, depth - 1))
    ELSE SkipBalanced(S, p + 1, depth)

\* ------------------------------------------------------------ rendering
Weekdays == << <<83,117,110>>, <<77,111,110>>, <<84,117,101>>, <<87,101,100>>, <<84,104,117>>, <<70,114,105>>, <<83,97,116>> >>
Months == << <<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>,
             <<74,117,108>>, <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>> >>
Dec(n, w, zero) == RenderInt(IntVal(n), [D0 EXCEPT !.w = w, !.zero = zero])
Take(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
AscTime(x) ==
    Take(Weekdays[x.wday + 1] \o <<SPACE>> \o Months[x.mon + 1] \o <<SPACE>> \o Dec(x.mday, 2, FALSE)
         \o <<SPACE>> \o Dec(x.hour, 2, TRUE) \o <<COLON>> \o Dec(x.min, 2, TRUE) \o <<COLON>>
         \o Dec(x.sec, 2, TRUE) \o <<SPACE>> \o Dec(x.year + 1900, 4, FALSE), 24)
\* the renderings of a strftime-style specification come with the value
\* (ls: with the locale asked for, which frames every conversion)
TmText(x, spec, loc) ==
    LET c == {i \in 1..Len(x.r) : x.r[i].k = spec}
        e == x.r[CHOOSE i \in c : TRUE]
    IN IF loc THEN e.ls ELSE e.s
TmKnown(x, spec) == spec = <<>> \/ \E i \in 1..Len(x.r) : x.r[i].k = spec

Elems(x) == IF x.t = "map" THEN [i \in 1..Len(x.v) |-> [t |-> "tup", n |-> 2, v |-> <<x.v[i][1], x.v[i][2]>>]]
            ELSE x.v

\* join the texts of [e, s] results; the first error wins
RECURSIVE Seqd(_, _)
Seqd(rs, sep) ==
    IF rs = <<>> THEN ROk(<<>>)
    ELSE IF rs[1].e # "" THEN RErr(rs[1].e)
    ELSE IF Len(rs) = 1 THEN rs[1]
    ELSE LET r == Seqd(Tail(rs), sep)
         IN IF r.e # "" THEN r ELSE ROk(rs[1].s \o sep \o r.s)
Wrap(op, r, cl) == IF r.e # "" THEN r ELSE ROk(op \o r.s \o cl)

RECURSIVE Render(_, _, _)
\* the text of x as the field "{}" prints it
Plain(x, A) == IF ~Formattable(x) THEN RErr("format_error") ELSE Render(DefFmt(x), x, A)
Render(f, x, A) ==
    CASE x.t \in {"seq", "map"} ->
            IF f.ty = 115
            THEN IF ElemTy(x).t # "c" THEN RErr("?")   \* not specified
                 ELSE LET s == [i \in 1..Len(x.v) |-> x.v[i].v]
                      IN ROk(IF f.dbg THEN Escape(s, DQUOTE) ELSE s)
            ELSE LET es == Elems(x)
                 IN Wrap(f.op, Seqd([i \in 1..Len(es) |-> Render(f.und, es[i], A)], f.sep), f.cl)
      [] x.t = "tup" -> Wrap(f.op, Seqd([i \in 1..Len(x.v) |-> Plain(x.v[i], A)], f.sep), f.cl)
      [] x.t = "opt" -> IF x.h = 1 THEN Plain(x.v, A) ELSE ROk(T_nullopt)
      [] x.t = "exp" -> Plain(x.v, A)      \* the value or the error
      [] x.t = "tid" -> ROk(x.v)
      [] x.t = "var" -> IF x.v.t = "n" THEN ROk(T_monostate) ELSE Plain(x.v, A)
      [] x.t = "tm" -> IF ~TmKnown(x, f.spec) THEN RErr("?")
                        ELSE ROk(RenderStr(IF f.spec = <<>> THEN AscTime(x) ELSE TmText(x, f.spec, f.d.loc /\ A.loc = 1), f.d))
      [] x.t = "u" /\ x.k = "str" ->
            \* its stream operator appends the name of truth of the stream's locale
            ROk(RenderStr(x.v \o (IF A.w >= 2 THEN <<>> ELSE IF f.d.loc THEN A.tn ELSE T_true), f.d))
      [] x.t = "u" /\ x.k = "cls" ->
            \* writes "<" mode "|" text "|" code point twice "|" nested field ">"
            ROk(<<LT>> \o f.mode \o <<124>> \o x.v \o <<124>> \o x.c \o x.c \o <<124>>
                \o Pad(x.v, TextWidth(x.v), [D0 EXCEPT !.w = 5 + f.w, !.fill = 42], 1)
                \o (IF 108 \in {f.mode[i] : i \in 1..Len(f.mode)} THEN A.tn ELSE <<>>) \o <<GT>>)
      [] OTHER -> RenderScalar(x, f.d, A)

\* ------------------------------------------------------------ fields
\* Format x with the specification at S[p]; the result's v is the text
FormatField(x, S, p, n, m, A) ==
    IF ~Formattable(x) THEN Err("format_error", p, n, m)
    ELSE IF Parsable(x)
         THEN LET r == ParseFmt(x, S, p, n, m, A)
              IN IF r.e # "" THEN r
                 ELSE LET t == Render(r.v, x, A)
                      IN IF t.e # "" THEN Err(t.e, r.p, r.n, r.m) ELSE Ok(r.p, r.n, r.m, t.s)
    ELSE IF x.t = "join"
         THEN LET r == ParseFmt(x.e, S, p, n, m, A)
              IN IF r.e # "" THEN r
                 ELSE LET t == Seqd([i \in 1..Len(x.v) |-> Render(r.v, x.v[i], A)], x.sep)
                      IN IF t.e # "" THEN Err(t.e, r.p, r.n, r.m) ELSE Ok(r.p, r.n, r.m, t.s)
    ELSE IF x.t = "u"
         THEN \* "adl": writes its text; "adlp": reads the specification up to } as well
              IF x.k = "adl" THEN Ok(p, n, m, <<33>> \o x.v)
              ELSE LET q == FindRB(S, p) IN Ok(q, n, m, <<QUEST>> \o SubSeq(S, p, q - 1) \o <<COLON>> \o x.v)
    ELSE LET t == Render([c |-> "none"], x, A)
         IN IF t.e # "" THEN Err(t.e, p, n, m) ELSE Ok(p, n, m, t.s)

SkipField(x, S, p, n, m, A) ==
    IF ~Formattable(x) THEN Err("format_error", p, n, m)
    ELSE IF Parsable(x) THEN ParseFmt(x, S, p, n, m, A)
    ELSE IF x.t = "tid" THEN Ok(p, n, m, <<>>)      \* takes no specification at all
    ELSE Ok(SkipBalanced(S, p, 0), n, m, <<>>)
=============================================================================
