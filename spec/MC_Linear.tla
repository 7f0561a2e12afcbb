------------------------------- MODULE MC_Linear -------------------------------
(* One dimension, in the manner of MC_Envelope: growing intervals, pairs of them; *)
(* and "lines": growing lists of points and of lines.                              *)
EXTENDS Api, Emit, TLC

CONSTANTS Values, Steps
VARIABLES u, v, added, log
vars == <<u, v, added, log>>
Numbers == {0, 1, 2, NAN, PINF, NINF, NZERO}
Fewer == {0, 2, NAN, PINF, NZERO}

Things == {<<1, a>> : a \in Values} \cup {<<0, <<a, b>>>> : a, b \in Values} \cup {<<0, <<>>>>}
NumbersOf(t) == IF t[1] = 1 THEN {t[2]} ELSE {t[2][i] : i \in DOMAIN t[2]}
Kinds == {log'[i][2][2] : i \in DOMAIN log'}
Given == [i \in DOMAIN log' |-> log'[i][2][3]]
About(x) == <<Bit(x = <<>>), Bit(IntervalValid(x)), x>>
AllAtOnce == IF Cardinality(Kinds) > 1 THEN <<>>
             ELSE LET k == CHOOSE k \in Kinds : TRUE
                  IN <<Gives("lin.of", <<1, k, Given>>, u'),
                       Gives("lin.of", <<2, k, [i \in DOMAIN Given |-> Given[Len(Given) + 1 - i]]>>, u')>>
Grow == What = "grow" /\ Len(log) < Steps /\ \E t \in Things :
            /\ u' = MergeI(u, ThingI(t[1], t[2]))
            /\ added' = added \cup NumbersOf(t)
            /\ log' = Append(log, Gives("lin.expand", <<0, t[1], t[2]>>, u'))
            /\ UNCHANGED v
            /\ Emit(log' \o <<Gives("lin.ask", <<0>>, About(u'))>> \o AllAtOnce)
Smallest == What = "grow" => u = SmallestInterval(added)

Lits == {<<>>} \cup {<<Norm(a), Norm(b)>> : a, b \in Values}
Lit(h, x) == IF x = <<>> THEN Gives("lin.lit", <<h>>, <<>>) ELSE Gives("lin.lit", <<h>> \o x, x)
Has(x, a) == x # <<>> /\ x[1] <= a /\ a <= x[2]
Proper(x) == x # <<>> /\ x[1] # NAN /\ x[2] # NAN /\ x[1] <= x[2]
Relate == What = "pairs" /\ log = <<>> /\ \E g \in Lits :
    LET m == MergeI(u, g) IN
    /\ v' = g
    /\ log' = <<Lit(0, u), Lit(1, g),
                Gives("lin.rel", <<0, 1>>, <<Bit(CoversI(u, g)), Bit(CoversI(g, u)), Bit(MeetsI(u, g)), Bit(MeetsI(g, u))>>),
                Gives("lin.merge", <<0, 1, 2>>, m), Gives("lin.merge", <<1, 0, 3>>, m),
                Gives("lin.ask", <<2>>, About(m)), Gives("lin.ask", <<0>>, About(u)),
                Gives("lin.has", <<0, 1>>, <<Bit(CoversI(u, <<1, 1>>))>>),
                Gives("lin.has", <<1, NZERO>>, <<Bit(CoversI(g, <<0, 0>>))>>)>>
    /\ UNCHANGED <<u, added>>
    /\ Emit(log')
Laws == What = "pairs" /\ log # <<>> =>
    /\ Proper(u) /\ Proper(v) => /\ MeetsI(u, v) = (\E a \in {NINF, 0, 1, 2, PINF} : Has(u, a) /\ Has(v, a))
                                 /\ CoversI(u, v) = (\A a \in {NINF, 0, 1, 2, PINF} : Has(v, a) => Has(u, a))
                                 /\ CoversI(MergeI(u, v), u)
    /\ MeetsI(u, v) = MeetsI(v, u)
    /\ MergeI(u, v) = MergeI(v, u) /\ MergeI(u, u) = u /\ MergeI(u, <<>>) = u
    /\ \A x \in {<<>>, <<NAN, NAN>>, <<2, 2>>, <<2, 0>>} : MergeI(MergeI(u, v), x) = MergeI(u, MergeI(v, x))
    /\ u = <<>> \/ v = <<>> => ~MeetsI(u, v) /\ ~CoversI(u, v)
    /\ IntervalValid(u) /\ IntervalValid(v) => IntervalValid(MergeI(u, v))

(* ---- points, lines, lists of them --------------------------------------------- *)
Call(op, in) == Gives(op, in, Expected(EmptyStore, op, in))
Lists == What = "lines" /\ Len(u) < Steps /\ \E a, b \in Values :
    /\ u' = Append(u, a) /\ v' = Append(v, <<a, b>>)
    /\ UNCHANGED <<added, log>>
    /\ Emit(<<Call("lin.mp", <<u'>>), Call("lin.ml", <<v'>>)>>
            \o (IF Len(u) > 0 THEN <<>>
                ELSE <<Call("lin.pt", <<a>>), Call("lin.line", <<a, b>>), Call("lin.seg", <<a, b>>), Call("lin.mm", <<a, b>>),
                       Call("lin.one", <<a>>), Call("lin.pt", <<>>), Call("lin.line", <<>>), Call("lin.mp", << <<>> >>),
                       Call("lin.ml", << <<>> >>)>>
                     \o IF IsFinite(a) /\ IsFinite(b) /\ a # NZERO /\ b # NZERO
                        THEN <<Call("lin.bin", <<a - 1, b, 3>>), Call("lin.bin", <<b, a, -2>>)>> ELSE <<>>))
(* The envelope of a list is the smallest around all of its numbers. *)
ListEnv == What = "lines" =>
    /\ Expected(EmptyStore, "lin.mp", <<u>>)[3] = SmallestInterval(SeqRange(u))
    /\ Expected(EmptyStore, "lin.ml", <<v>>)[3] = SmallestInterval(UNION {SeqRange(v[i]) : i \in DOMAIN v})

Init == /\ u \in IF What = "pairs" THEN Lits ELSE {<<>>}
        /\ v = <<>> /\ added = {} /\ log = <<>>
Next == Grow \/ Relate \/ Lists
Spec == Init /\ [][Next]_vars
=============================================================================
