------------------------------ MODULE MC_Boundary ------------------------------
(* The boundary of a growing multi-line, as a set of positions in which each     *)
(* new line switches its ends on or off; and of a growing multi-polygon, as the   *)
(* list of its rings.                                                            *)
EXTENDS Shapes, Emit, TLC

CONSTANTS Corners,   \* how many positions there are (up to 4)
          Members    \* most lines, polygons
VARIABLES lines,     \* the members
          odd,       \* what is switched on
          polys, rings
vars == <<lines, odd, polys, rings>>
P == {<< <<0, 0>>, <<1, 0>>, <<0, 2>>, <<-1, -1>> >>[k] : k \in 1..Corners}
Ring(x) == << <<x, 0>>, <<x + 1, 0>>, <<x, 1>>, <<x, 0>> >>
Universe == {<<p, q>> : p \in P, q \in P} \cup {<<>>, Ring(0), << <<0, 0>> >>,
             << <<0, 0>>, <<5, 5>>, <<0, 0>> >>}         \* (closed, but too short to be a loop)
            \* neither valid nor finite
            \cup {<< <<0, 0>>, <<NAN, 5>>, <<1, 0>> >>, << <<0, NAN>>, <<1, 0>> >>, << <<0, 2>>, <<NINF, 1>> >>,
                  << <<0, NAN>>, <<3, 3>>, <<4, 4>>, <<0, NAN>> >>}
PolyUniverse == {<<>>, << <<>> >>, <<Ring(0)>>, <<Ring(0), Ring(3)>>, <<Ring(3), Ring(0), Ring(3)>>,
                 << << <<0, 0>>, <<1, 1>> >> >>}

Init == lines = <<>> /\ odd = {} /\ polys = <<>> /\ rings = <<>>
Toggle(S, p) == IF NAN \in {p[1], p[2]} THEN S ELSE IF p \in S THEN S \ {p} ELSE S \cup {p}
Line == /\ What = "lines" /\ Len(lines) < Members
        /\ \E l \in Universe :
            /\ lines' = Append(lines, l)
            /\ odd' = IF l = <<>> \/ (Len(l) > 3 /\ l[1] = l[Len(l)] /\ NAN \notin SeqRange(l[1])) THEN odd
                      ELSE Toggle(Toggle(odd, l[1]), l[Len(l)])
        /\ LET b == IF odd' = {} THEN <<0, <<>>>> ELSE <<4, SortedPoints(odd')>>
           IN Emit(<<Gives("g.bnd", <<5, lines'>>, <<b, b, 1>>)>>)
        /\ UNCHANGED <<polys, rings>>
Poly == /\ What = "polys" /\ Len(polys) < Members
        /\ \E p \in PolyUniverse :
            /\ polys' = Append(polys, p)
            /\ rings' = IF p = <<>> \/ p[1] = <<>> THEN rings ELSE rings \o p
            /\ LET one == IF p = <<>> THEN << <<>> >> ELSE p
                   again(rs) == Bit(OddEnds(rs) = {})
               IN Emit(<<Gives("g.bnd", <<6, polys'>>, <<<<5, rings'>>, <<5, rings'>>, again(rings')>>),
                         Gives("g.bnd", <<3, p>>, <<<<5, one>>, <<5, one>>, again(one)>>)>>)
        /\ UNCHANGED <<lines, odd>>
Next == Line \/ Poly
Spec == Init /\ [][Next]_vars

Agrees == /\ OddEnds(lines) = odd
          /\ Boundary(6, polys) = <<5, rings>>
(* Ends come in pairs; the boundary is independent of the order. *)
Even == (\A i \in DOMAIN lines : \A p \in SeqRange(lines[i]) : NAN \notin SeqRange(p)) => Cardinality(odd) % 2 = 0
Ordered == OddEnds(Reversed(lines)) = odd
(* The boundary of the boundary of polygons is empty if their rings are closed. *)
NoBoundary == (\A i \in DOMAIN rings : IsClosed(rings[i])) => Boundary(5, rings) = <<0, <<>>>>
=============================================================================
