------------------------------- MODULE MC_Geoms -------------------------------
(* Geometries as the library has them: every line, polygon and collection has   *)
(* its envelope, found when it is made from the envelopes of what it is made of, *)
(* and taken along when it is made into something else. Registers hold such      *)
(* geometries, from which others are made; the envelopes they have, and all      *)
(* that is told from them, have to be those of their coordinates at all times.    *)
EXTENDS Geoms, Emit, TLC

CONSTANTS Registers,   \* how many there are
          Most         \* lines and points in all of them, at most
VARIABLES regs,
          log          \* the calls so far
vars == <<regs, log>>
View == regs

Square == << <<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 4>>, <<0, 0>> >>
Inner == << <<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 1>> >>
Beyond == << <<4, 2>>, <<5, 3>>, <<6, -1>> >>
Lines == {Square, Inner, Beyond, <<>>}
Points == {<<1, 2>>, <<5, PINF>>, <<NAN, 4>>}

(* ---- objects ------------------------------------------------------------------ *)
Line(ps) == [ps |-> ps, box |-> BoxOf(ps)]
Boxes(xs) == [i \in DOMAIN xs |-> xs[i].box]
Poly(ls) == [rings |-> ls, box |-> ls[1].box]
Many(xs) == [members |-> xs, box |-> Union(Boxes(xs))]
None == [t |-> 0]
OLine(l) == [t |-> 2, o |-> l]
OPoint(p) == [t |-> 1, o |-> [at |-> p, box |-> PosEnv(p)]]
OPoints(ps) == [t |-> 4, o |-> Many([i \in DOMAIN ps |-> [at |-> ps[i], box |-> PosEnv(ps[i])]])]
OPoly(ls) == [t |-> 3, o |-> Poly(ls)]
OLines(ls) == [t |-> 5, o |-> Many(ls)]
OPolys(ps) == [t |-> 6, o |-> Many(ps)]
Members(x) == x.o.members

(* What they are. *)
RingsOf(p) == [i \in DOMAIN p.rings |-> p.rings[i].ps]
Plain(x) ==
    <<x.t, CASE x.t = 0 -> <<>>
             [] x.t = 1 -> x.o.at
             [] x.t = 2 -> x.o.ps
             [] x.t = 3 -> RingsOf(x.o)
             [] x.t = 4 -> [i \in DOMAIN Members(x) |-> Members(x)[i].at]
             [] x.t = 5 -> [i \in DOMAIN Members(x) |-> Members(x)[i].ps]
             [] x.t = 6 -> [i \in DOMAIN Members(x) |-> RingsOf(Members(x)[i])]>>
(* The envelopes they have, of their parts too. *)
BoxesOfPoly(p) == <<p.box, Boxes(p.rings)>>
Cached(x) == IF x.t = 0 THEN <<EmptyEnv, <<>>>>
             ELSE <<x.o.box, CASE x.t \in {1, 2} -> <<>>
                               [] x.t = 3 -> Boxes(x.o.rings)
                               [] x.t = 4 -> <<>>
                               [] x.t = 5 -> Boxes(Members(x))
                               [] x.t = 6 -> [i \in DOMAIN Members(x) |-> BoxesOfPoly(Members(x)[i])]>>
(* As the library compares them: with the envelopes they have. *)
Equal(x, y) == /\ Plain(x) = Plain(y) /\ Cached(x) = Cached(y)
               /\ NAN \notin Codes(Depth(x.t), Plain(x)[2])
(* The envelopes they should have. *)
LineBoxes(ls) == [i \in DOMAIN ls |-> BoxOf(ls[i])]
Actual(g) == <<GeomEnv(g[1], g[2]), CASE g[1] \in {0, 1, 2, 4} -> <<>>
                                     [] g[1] \in {3, 5} -> LineBoxes(g[2])
                                     [] g[1] = 6 -> [i \in DOMAIN g[2] |-> <<GeomEnv(3, g[2][i]), LineBoxes(g[2][i])>>]>>

(* ---- what is done to them ------------------------------------------------------ *)
LinesOf(x) == CASE x.t \in {0, 1, 4} -> <<>>
                [] x.t = 2 -> <<x.o>>
                [] x.t = 3 -> x.o.rings
                [] x.t = 5 -> Members(x)
                [] x.t = 6 -> FlattenSeq([i \in DOMAIN Members(x) |-> Members(x)[i].rings])
Void(p) == p.rings[1].ps = <<>>
BoundaryOf(x) ==
    CASE x.t \in {0, 1, 4} -> None
      [] x.t = 2 -> LET ps == x.o.ps IN IF Ends(ps) = <<>> THEN None ELSE OPoints(SortTwo(ps[1], ps[Len(ps)]))
      [] x.t = 3 -> OLines(x.o.rings)
      [] x.t = 5 -> LET S == OddEnds(Plain(x)[2]) IN IF S = {} THEN None ELSE OPoints(SortedPoints(S))
      [] x.t = 6 -> OLines(FlattenSeq([i \in DOMAIN Members(x) |-> IF Void(Members(x)[i]) THEN <<>>
                                                                    ELSE Members(x)[i].rings]))
Thinned(x) == LET s == Simplified(Plain(x)[2]) IN IF s[1] = 0 THEN None ELSE OPoints(s[2])
PartOf(x, i) == IF i < Len(LinesOf(x)) THEN OLine(LinesOf(x)[i + 1]) ELSE None
WrappedIn(x, k) == CASE k = 4 -> OPoints(<<x.o.at>>)
                     [] k = 3 -> OPoly(<<x.o>>)
                     [] k = 5 -> OLines(<<x.o>>)
                     [] k = 6 -> OPolys(<<IF x.t = 2 THEN Poly(<<x.o>>) ELSE x.o>>)
JoinedTo(x, y, k) ==
    LET xs == IF x.t = k THEN (IF k = 3 THEN x.o.rings ELSE Members(x)) ELSE <<x.o>>
        all == Append(xs, y.o)
    IN CASE k = 4 -> OPoints([i \in DOMAIN all |-> all[i].at])
         [] k = 3 -> OPoly(all)
         [] k = 5 -> OLines(all)
         [] k = 6 -> OPolys(all)

(* ---- histories ----------------------------------------------------------------- *)
R == 1..Registers
Size(x) == LET g == Plain(x) IN IF g[1] = 1 THEN 1 ELSE IF g[1] = 4 THEN Len(g[2]) ELSE Len(Parts(g))
RECURSIVE Sum(_)
Sum(xs) == IF xs = <<>> THEN 0 ELSE Size(Head(xs)) + Sum(Tail(xs))

ToldOf(r, x) ==
    LET g == Plain(x)
        c == Cached(x)
        poly(p) == <<p.box, Bit(PolygonValid(RingsOf(p))),
                     [i \in DOMAIN p.rings |-> <<p.rings[i].box, Bit(LineValid(p.rings[i].ps)), Bit(IsClosed(p.rings[i].ps))>>]>>
        line(l) == <<l.box, Bit(LineValid(l.ps)), Bit(IsClosed(l.ps))>>
        v == Bit(Valid(g[1], g[2]))
    IN Gives("geo.ask", <<r - 1>>,
             <<x.t, Dimension(x.t), Bit(GeomEmpty(g[1], g[2])), c[1], v, v,
               IF x.t = 4 THEN <<4, SortedList(g[2])>> ELSE g, Plain(BoundaryOf(x)),
               CASE x.t \in {0, 1, 4} -> <<>>
                 [] x.t = 2 -> <<line(x.o)>>
                 [] x.t = 3 -> <<poly(x.o)>>
                 [] x.t = 5 -> [i \in DOMAIN Members(x) |-> line(Members(x)[i])]
                 [] x.t = 6 -> [i \in DOMAIN Members(x) |-> poly(Members(x)[i])],
               IF \A n \in Codes(Depth(g[1]), g[2]) : n # NAN THEN <<1, 1>> ELSE <<0, 0>>>>)
Do(op, in, new) ==
    /\ Sum(new) <= Most
    /\ regs' = new
    /\ log' = Append(log, Gives(op, in, <<>>))
    /\ Emit(log' \o [r \in R |-> ToldOf(r, new[r])]
                \o (IF \E r \in R : new[r].t = 4 THEN <<>> ELSE
                     [r \in 1..(Registers - 1) |-> LET b == Bit(Equal(new[r], new[r + 1]))
                                                   IN Gives("geo.eq", <<r - 1, r>>, <<b, b>>)]))
(* Lines and points come from coordinates; the others are made of them, but also *)
(* come at once.                                                                  *)
New(r) ==
    \/ \E ps \in Lines : \E how \in {0, 1} :
          Do("geo.new", <<r - 1, how, 2, ps>>, [regs EXCEPT ![r] = OLine(Line(ps))])
    \/ \E p \in Points : Do("geo.new", <<r - 1, 0, 1, p>>, [regs EXCEPT ![r] = OPoint(p)])
    \/ Do("geo.new", <<r - 1, 0, 3, <<Square, Inner>>>>, [regs EXCEPT ![r] = OPoly(<<Line(Square), Line(Inner)>>)])
    \/ Do("geo.new", <<r - 1, 2, 3, <<Inner>>>>, [regs EXCEPT ![r] = OPoly(<<Line(Inner)>>)])
    \/ Do("geo.new", <<r - 1, 3, 5, <<Beyond, Inner>>>>, [regs EXCEPT ![r] = OLines(<<Line(Beyond), Line(Inner)>>)])
    \/ Do("geo.new", <<r - 1, 1, 6, <<<<Inner>>, <<Square>>>>>>,
          [regs EXCEPT ![r] = OPolys(<<Poly(<<Line(Inner)>>), Poly(<<Line(Square)>>)>>)])
    \/ \E ps \in {<<<<1, 2>>, <<1, 2>>>>, <<<<3, 1>>, <<PINF, 0>>, <<2, NAN>>>>} :
          Do("geo.new", <<r - 1, 4, 4, ps>>, [regs EXCEPT ![r] = OPoints(ps)])
Act == \E a \in R :
    \/ New(a)
    \/ \E to \in R :
        \/ regs[a].t \in {2, 3, 5, 6} /\ Do("geo.bnd", <<a - 1, to - 1>>, [regs EXCEPT ![to] = BoundaryOf(regs[a])])
        \/ regs[a].t = 4 /\ Do("geo.thin", <<a - 1, to - 1>>, [regs EXCEPT ![to] = Thinned(regs[a])])
        \/ \E i \in 0..(Size(regs[a]) - 1) :
              regs[a].t \notin {1, 4} /\ Do("geo.part", <<a - 1, i, to - 1>>, [regs EXCEPT ![to] = PartOf(regs[a], i)])
        \/ \E k \in 3..6 : <<regs[a].t, k>> \in Wraps
              /\ Do("geo.wrap", <<a - 1, k, to - 1>>, [[regs EXCEPT ![a] = None] EXCEPT ![to] = WrappedIn(regs[a], k)])
        \* (there are no holes in an empty polygon)
        \/ \E b \in R \ {a} : \E k \in 3..6 : <<regs[a].t, regs[b].t, k>> \in Joins
              /\ (k = 3 => LinesOf(regs[a])[1].ps # <<>>)
              /\ Do("geo.join", <<a - 1, b - 1, k, to - 1>>,
                    [[regs EXCEPT ![a] = None, ![b] = None] EXCEPT ![to] = JoinedTo(regs[a], regs[b], k)])

Init == regs = [r \in R |-> None] /\ log = <<>>
Next == Act
Spec == Init /\ [][Next]_vars

(* The envelopes are those of the coordinates, whatever the history. *)
CachesRight == \A r \in R : Cached(regs[r]) = Actual(Plain(regs[r]))
(* So is all that is told. *)
TellsTruth == \A r \in R : ToldOf(r, regs[r])[4] = Told(Plain(regs[r]))
Equality == \A r, q \in R : Equal(regs[r], regs[q]) = Same(Plain(regs[r]), Plain(regs[q]))
(* What is made agrees with what Geoms says is made. *)
P(r) == Plain(regs[r])
Laws == [][
    LET e == log'[Len(log')]
        in == e[2]
        at(k) == in[k] + 1
        to(k) == Plain(regs'[in[k] + 1])
    IN CASE e[1] = "geo.bnd" -> /\ to(2) = Boundary(P(at(1))[1], P(at(1))[2])
                                \* one dimension less, inside the envelope, and itself without one if all is closed
                                /\ to(2)[1] = 0 \/ Dimension(to(2)[1]) < Dimension(P(at(1))[1])
                                /\ LET e1 == GeomEnv(to(2)[1], to(2)[2]) e2 == GeomEnv(P(at(1))[1], P(at(1))[2])
                                   IN Valid(P(at(1))[1], P(at(1))[2]) => e1 = <<>> \/ Covers(e2, e1)
                                /\ P(at(1))[1] \in {3, 6} /\ Valid(P(at(1))[1], P(at(1))[2])
                                     => Boundary(to(2)[1], to(2)[2]) = NoGeom
         [] e[1] = "geo.part" -> to(3) = Part(P(at(1)), in[2])
         [] e[1] = "geo.wrap" -> /\ to(3) = Wrapped(P(at(1)), in[2])
                                 \* a valid loop is a valid polygon, and alone it is a valid collection
                                 /\ P(at(1))[1] = 3 => Valid(3, P(at(1))[2]) = Valid(6, to(3)[2])
                                 /\ P(at(1))[1] = 2 /\ in[2] = 5 => Valid(2, P(at(1))[2]) = Valid(5, to(3)[2])
                                 /\ GeomEnv(to(3)[1], to(3)[2]) = GeomEnv(P(at(1))[1], P(at(1))[2])
                                 /\ Parts(to(3)) = Parts(P(at(1)))
         [] e[1] = "geo.join" -> /\ to(4) = Joined(P(at(1)), P(at(2)), in[3])
                                 /\ Parts(to(4)) = Parts(P(at(1))) \o Parts(P(at(2)))
                                 /\ in[3] # 3 => GeomEnv(to(4)[1], to(4)[2])
                                                   = Merge(GeomEnv(P(at(1))[1], P(at(1))[2]), GeomEnv(P(at(2))[1], P(at(2))[2]))
                                 \* what is not valid stays so
                                 /\ in[3] # 3 /\ ~Valid(P(at(1))[1], P(at(1))[2]) => ~Valid(to(4)[1], to(4)[2])
         [] e[1] = "geo.thin" -> to(2) = Simplified(P(at(1))[2]) /\ Valid(to(2)[1], to(2)[2])
         [] OTHER -> TRUE]_vars
=============================================================================
