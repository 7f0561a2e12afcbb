------------------------------ MODULE MC_Envelope ------------------------------
(* Planar envelopes.  "grow": an envelope to which positions, boxes and the       *)
(* empty envelope are added one after the other has to be the smallest box         *)
(* around what was added, which is remembered as a set.  "pairs": how any two      *)
(* envelopes relate, against the points they have.                                *)
EXTENDS Index, Shapes, Emit, TLC

CONSTANTS Values,      \* of coordinates of positions that are added
          Corners,     \* of corners of boxes, in any order
          Steps        \* how many things are added
VARIABLES e, f,        \* envelopes
          added,       \* what was added, as boxes
          log          \* the calls so far
vars == <<e, f, added, log>>
(* (values of the constants) *)
Specials == {0, 1, NAN, PINF}
Wider == {0, 2, NAN, PINF, NINF}
Few == {0, 1, NAN}
Some == {0, 1, 2, NAN}

(* ---- grow -------------------------------------------------------------------- *)
Positions == Values \X Values
Boxes == {<<>>, <<0, 1, 2, 3>>, <<2, 0, 1, 1>>, <<NAN, 0, NAN, 1>>}
Segs == {<<1, 0, 0, 1>>, <<0, 0, NAN, 5>>, <<PINF, 2, 0, NINF>>}
Things == {<<1, p>> : p \in Positions} \cup {<<0, b>> : b \in Boxes} \cup {<<2, s>> : s \in Segs}
BoxesOf(t) == LET b == ItemEnv(t[1], t[2]) IN IF b = <<>> THEN {} ELSE {b}
(* Two ways of adding. *)
Add(t) ==
    /\ e' = Merge(e, ItemEnv(t[1], t[2]))
    /\ added' = added \cup BoxesOf(t)
    /\ log' = Append(log, IF Len(log) % 2 = 0 THEN Gives("env.expand", <<0, t[1], t[2]>>, e')
                         ELSE Gives("env.add", <<0, t[1], t[2], 0>>, e'))
    /\ UNCHANGED f
(* And all at once, in any order, if they are of a kind. *)
Kinds == {log'[i][2][2] : i \in DOMAIN log'}
Given == [i \in DOMAIN log' |-> log'[i][2][3]]
AllAtOnce == IF Cardinality(Kinds) > 1 THEN <<>>
             ELSE LET k == CHOOSE k \in Kinds : TRUE
                  IN <<Gives("env.of", <<1, k, Given>>, e'), Gives("env.of", <<2, k, Reversed(Given)>>, e')>>
About(x) == IF x = <<>> THEN <<1, <<>>, <<>>, <<>>, 1, <<>>>>
            ELSE <<0, <<x[1], x[2]>>, <<x[3], x[4]>>, Center2(x), Bit(EnvValid(x)), x>>
Grow == What = "grow" /\ Len(log) < Steps /\ \E t \in Things :
            /\ Add(t)
            /\ Emit(log' \o <<Gives("env.ask", <<0>>, About(e'))>> \o AllAtOnce)
Smallest == What = "grow" => e = SmallestBox(added)

(* ---- pairs ------------------------------------------------------------------- *)
Lits == {<<>>} \cup {<<a, b, c, d>> : a, b, c, d \in Corners}
        \cup {<<0, 0, PINF, 1>>, <<NINF, 0, 1, 2>>, <<NINF, NINF, PINF, PINF>>, <<1, 1, 2, 2>>, <<0, 2, 2, 2>>}
Second == {<<>>} \cup {<<a, b, a, b>> : a, b \in Corners} \cup {<<a, 0, 1, b>> : a, b \in Corners}
        \cup {<<0, a, b, 2>> : a, b \in Corners} \cup {<<1, 1, PINF, 2>>, <<NINF, NINF, PINF, PINF>>, <<2, 2, 0, 0>>}
(* Points of a box, of all there are with these coordinates. *)
Points == {NINF, 0, 1, 2, PINF} \X {NINF, 0, 1, 2, PINF}
Has(b, p) == b # <<>> /\ b[1] <= p[1] /\ p[1] <= b[3] /\ b[2] <= p[2] /\ p[2] <= b[4]
Proper(b) == b # <<>> /\ (\A i \in 1..4 : b[i] # NAN) /\ b[1] <= b[3] /\ b[2] <= b[4]
Lit(h, x) == IF x = <<>> THEN Gives("env.lit", <<h>>, <<>>) ELSE Gives("env.lit", <<h>> \o x, x)
Relate == What = "pairs" /\ log = <<>> /\ \E g \in Second :
    LET m == Merge(e, g)
        big == Buffer(e, 3)
    IN /\ f' = g
       /\ log' = <<Lit(0, e), Lit(1, g),
                   Gives("env.rel", <<0, 1>>, <<Bit(Covers(e, g)), Bit(Covers(g, e)), Bit(Meets(e, g)), Bit(Meets(g, e))>>),
                   Gives("env.merge", <<0, 1, 2>>, m), Gives("env.merge", <<1, 0, 3>>, m),
                   Gives("env.ask", <<2>>, About(m)), Gives("env.ask", <<0>>, About(e)),
                   Gives("env.rel", <<2, 0>>, <<Bit(Covers(m, e)), Bit(Covers(e, m)), Bit(Meets(m, e)), Bit(Meets(e, m))>>),
                   Gives("env.buffer", <<0, 3, 3>>, big), Gives("env.ask", <<3>>, About(big)),
                   Gives("env.has", <<0, <<1, 1>>>>, LET h == Bit(Covers(e, <<1, 1, 1, 1>>))
                                                       i == Bit(Meets(e, <<1, 1, 1, 1>>)) IN <<h, i>>)>>
       /\ UNCHANGED <<e, added>>
       /\ Emit(log')
Related2 == What = "pairs" /\ log # <<>> =>
    /\ Proper(e) /\ Proper(f) => /\ Meets(e, f) = (\E p \in Points : Has(e, p) /\ Has(f, p))
                                 /\ Covers(e, f) = (\A p \in Points : Has(f, p) => Has(e, p))
                                 /\ Covers(Merge(e, f), e) /\ Covers(Merge(e, f), f)
                                 /\ \A b \in Second : Covers(b, e) /\ Covers(b, f) => Covers(b, Merge(e, f))
                                 /\ (Covers(e, f) <=> Merge(e, f) = e)
    /\ Meets(e, f) = Meets(f, e)
    /\ Merge(e, f) = Merge(f, e)
    /\ Merge(e, <<>>) = e /\ Merge(<<>>, f) = f
    /\ Merge(e, e) = e
    /\ \A b \in {<<>>, <<NAN, 0, NAN, 0>>, <<2, 2, 2, 2>>} : Merge(Merge(e, f), b) = Merge(e, Merge(f, b))
    /\ e = <<>> \/ f = <<>> => ~Meets(e, f) /\ ~Covers(e, f)
    /\ (\E i \in 1..4 : e # <<>> /\ e[i] = NAN) => ~Covers(e, f) /\ ~Meets(e, f)
    /\ Buffer(Buffer(e, 1), 2) = Buffer(e, 3)
    /\ EnvValid(e) /\ EnvValid(f) => EnvValid(Merge(e, f))

Init == /\ e \in IF What = "grow" THEN {<<>>} ELSE Lits
        /\ f = <<>> /\ added = {} /\ log = <<>>
Next == Grow \/ Relate
Spec == Init /\ [][Next]_vars
=============================================================================
