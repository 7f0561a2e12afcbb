------------------------------- MODULE MC_Loops -------------------------------
(* How two simple loops relate: the library's way of finding out (winding       *)
(* numbers of vertices, and of the pieces of segments between touches) as a      *)
(* machine, against the definition (Relation, module Regions), and against the   *)
(* sets of sample points that are inside of the loops.                           *)
EXTENDS Shapes, Emit, TLC

CONSTANTS W, H,      \* grid of the vertices
          Len1, Len2, \* most vertices of the first, second loop
          Pockets    \* the first is the boundary of unit cells, the second inscribed in it
VARIABLES a, b,      \* the loops
          rel,       \* what the definition says
          pc, hit,   \* the machine: where it is; it found a crossing
          wa, wb,    \* parities of winding numbers: vertices, pieces
          ta, tb,    \* touches by segment
          res
vars == <<a, b, rel, pc, hit, wa, wb, ta, tb, res>>
G == GridOf(W, H)
(* (TLC's registers keep what need not be calculated again.) *)
ASSUME TLCSet(1, IF Pockets THEN CellLoops(W - 1, H - 1) ELSE LoopsUpTo(Len1, G)) /\ TLCSet(2, LoopsUpTo(Len2, G))
First == TLCGet(1)
Second == TLCGet(2)

(* ---- the machine -------------------------------------------------------------- *)
(* Are segments i of l and j of m on a level?  (Only these pairs are looked at: *)
(* a horizontal ray from one can meet the other.)                               *)
Near(l, i, m, j) == Max(Min(l[i][2], l[i + 1][2]), Min(m[j][2], m[j + 1][2]))
                    <= Min(Max(l[i][2], l[i + 1][2]), Max(m[j][2], m[j + 1][2]))
(* The winding number of position p by segment qr: positions doubled. *)
Winding(p, q, r) ==
    IF p[2] >= Max(q[2], r[2]) \/ p[2] < Min(q[2], r[2]) THEN 0
    ELSE IF r[2] > q[2] /\ Cross(q, r, p) > 0 THEN -1
    ELSE IF r[2] <= q[2] /\ Cross(q, r, p) < 0 THEN 1
    ELSE 0
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

PairsOf == {<<i, j>> : i \in Segments(a), j \in Segments(b)}
X(i, j) == Intersection(a[i], a[i + 1], b[j], b[j + 1])
TouchOf(i, j) == LET x == X(i, j) IN IF x[1] = 1 THEN {<<x[2], x[3]>>} ELSE {}

Init == /\ a \in First /\ b = <<>> /\ rel = 9
        /\ pc = "pick" /\ hit = FALSE /\ wa = {} /\ wb = {} /\ ta = <<>> /\ tb = <<>> /\ res = 9
OnLoop(p, l) == \E i \in Segments(l) : OnSegment(p, l[i], l[i + 1])
Fitting == IF Pockets THEN LET on == {p \in G : OnLoop(p, a)} IN {l \in Second : \A i \in DOMAIN l : l[i] \in on}
           ELSE Second
Pick == pc = "pick" /\ pc' = "scan" /\ b' \in Fitting /\ rel' = Relation(a, b')
        /\ UNCHANGED <<a, hit, wa, wb, ta, tb, res>>
Scan ==
    /\ pc = "scan" /\ pc' = "pieces" /\ res' = res
    /\ hit' = (\E p \in PairsOf : X(p[1], p[2])[1] \in {2, 3})
    /\ ta' = [i \in Segments(a) |-> UNION {TouchOf(i, j) : j \in Segments(b)}]
    /\ tb' = [j \in Segments(b) |-> UNION {TouchOf(i, j) : i \in Segments(a)}]
    /\ LET touched == UNION {ta'[i] : i \in Segments(a)}
           wnA(i) == SumTo([j \in Segments(b) |-> IF Near(a, i, b, j) THEN Winding(a[i], b[j], b[j + 1]) ELSE 0], Len(b) - 1)
           wnB(j) == SumTo([i \in Segments(a) |-> IF Near(a, i, b, j) THEN Winding(b[j], a[i], a[i + 1]) ELSE 0], Len(a) - 1)
           seenA(i) == \E j \in Segments(b) : Near(a, i, b, j)
           seenB(j) == \E i \in Segments(a) : Near(a, i, b, j)
       IN /\ wa' = {wnA(i) % 2 : i \in {i \in Segments(a) : a[i] \notin touched /\ seenA(i)}}
          /\ wb' = {wnB(j) % 2 : j \in {j \in Segments(b) : b[j] \notin touched /\ seenB(j)}}
PieceWindings(l, t, m) ==
    UNION {LET ends == SetToSortSeq(t[i] \cup {l[i], l[i + 1]}, LexLess)
           IN {SumTo([j \in Segments(m) |-> Winding(<<ends[k][1] + ends[k + 1][1], ends[k][2] + ends[k + 1][2]>>,
                                                     <<2 * m[j][1], 2 * m[j][2]>>, <<2 * m[j + 1][1], 2 * m[j + 1][2]>>)],
                      Len(m) - 1) % 2 : k \in 1..(Len(ends) - 1)}
           : i \in {i \in DOMAIN t : t[i] # {}}}
Pieces ==
    /\ pc = "pieces" /\ pc' = "verdict"
    /\ wa' = wa \cup PieceWindings(a, ta, b)
    /\ wb' = wb \cup PieceWindings(b, tb, a)
    /\ UNCHANGED <<hit, ta, tb, res>>
(* Parities of one loop: outside unless all are odd.  No vertex and piece, no   *)
(* evidence, also counts as inside: it must not occur.                           *)
Verdict ==
    /\ pc = "verdict" /\ pc' = "done"
    /\ res' = IF ~Meets(BoxOf(a), BoxOf(b)) THEN 0
              ELSE IF hit \/ wa = {0, 1} \/ wb = {0, 1} THEN 3
              ELSE CASE wa = {0} /\ wb = {0} -> 0
                     [] wa = {0} /\ wb = {1} -> 1
                     [] wa = {1} /\ wb = {0} -> 2
                     [] OTHER -> 8        \* the library would panic
    /\ UNCHANGED <<hit, wa, wb, ta, tb>>

(* ---- predictions -------------------------------------------------------------- *)
(* Other representations, chosen by the vertices. *)
Mix == a[1][1] + 2 * a[2][2] + 3 * b[2][1] + b[3][2]
Spun(l, k) == LET r == Rotated(l, k % (Len(l) - 1)) IN IF k % 2 = 0 THEN r ELSE Reversed(r)
A == Spun(a, Mix)
B == Spun(b, Mix + a[3][1])
A1 == Moved(A, 1, 1)
B1 == Moved(B, 1, 1)
Big == << <<0, 0>>, <<W + 1, 0>>, <<W + 1, H + 1>>, <<0, H + 1>>, <<0, 0>> >>
V(t, d, v) == Gives("g.valid", <<t, d>>, <<Bit(v)>>)
Swapped(l) == [i \in DOMAIN l |-> <<l[i][2], l[i][1]>>]
Mirrored(l) == [i \in DOMAIN l |-> <<W - 1 - l[i][1], l[i][2]>>]
UpsideDown(l) == [i \in DOMAIN l |-> <<l[i][1], H - 1 - l[i][2]>>]
Ways == 1..8
Way(k, l) == CASE k = 1 -> Reversed(l) [] k = 2 -> Rotated(l, 1) [] k = 3 -> Swapped(l)
               [] k = 4 -> Mirrored(l) [] k = 5 -> UpsideDown(l) [] k = 6 -> Moved(l, 5, -3)
               [] k = 7 -> Scaled(l, 3) [] k = 8 -> Densified2(l)
(* The same polygon, the same two polygons, in another way. *)
Rep(e, t, d, d2, v) == Gives("rep", <<e, t, d, d2>>, <<Bit(v), Bit(v)>>)
SameWays ==
    [k \in Ways |-> Rep(<<IF k % 2 = 0 THEN 32 ELSE 64, k - 4, 0, 0>>, 3, <<A, B>>, <<Way(k, A), Way(k, B)>>, rel = 1)]
    \o [k \in Ways |-> Rep(<<IF k % 2 = 1 THEN 32 ELSE 64, 3 - k, 0, 0>>, 6, << <<A>>, <<B>> >>,
                            << <<Way(k, B)>>, <<Way(k, A)>> >>, rel = 0)]
Predictions ==
    CASE What \in {"poly", "pocket"} -> <<V(3, <<A, B>>, rel = 1), V(3, <<Big, A1, B1>>, rel = 0)>>
      [] What \in {"multi", "mpocket"} ->
            <<V(6, << <<A>>, <<B>> >>, rel = 0),
              V(6, << <<Big, A1>>, <<B1>> >>, rel = 1), V(6, << <<B1>>, <<Big, A1>> >>, rel = 1)>>
      [] What = "rep" -> SameWays
      [] What = "surf" ->
            IF a = b THEN <<Asks("g.surf", <<3, <<A>>>>)>>
            ELSE IF rel = 1 THEN <<Asks("g.surf", <<3, <<A, B>>>>)>>
            ELSE IF rel = 0 THEN <<Asks("g.surf", <<6, << <<A>>, <<B>> >>>>)>>
            ELSE <<>>
Publish == pc = "done" /\ pc' = "end" /\ UNCHANGED <<hit, wa, wb, ta, tb, res>>
    /\ LET ps == Predictions IN IF ps = <<>> THEN TRUE ELSE Emit(ps)
Next == Pick \/ ((Scan \/ Pieces \/ Verdict \/ Publish) /\ UNCHANGED <<a, b, rel>>)
Spec == Init /\ [][Next]_vars

(* ---- the machine is right ------------------------------------------------------ *)
Agrees == pc = "done" => res = rel
(* Boxes apart: separate, and both polygons. *)
Boxed == pc = "scan" => /\ RelationIn(a, b, BoxOf(a), BoxOf(b)) = rel
                        /\ LET far == Moved(b, W, 0) IN Relation(a, far) = 0 /\ PolygonsApart(<<a>>, <<far>>)
Converse == pc = "scan" => rel = CASE Relation(b, a) = 0 -> 0 [] Relation(b, a) = 1 -> 2
                                   [] Relation(b, a) = 2 -> 1 [] Relation(b, a) = 3 -> 3
Invariant == pc = "scan" => \A k \in Ways : Relation(Way(k, a), Way(k, b)) = rel
                                /\ Relation(a, Way(k, b)) = Relation(Way(2, a), Way(k, b))
(* ---- and the definition, by the points that loops are around ------------------- *)
Fine == 101
Apart == IF W > 3 THEN 4 ELSE 11
Candidates == {<<Apart * i + 3, Apart * j + 2>> : i \in 0..((Fine * (W - 1)) \div Apart), j \in 0..((Fine * (H - 1)) \div Apart)}
PointsBetween == {m \in Candidates : \A p \in G : \A q \in G :
              p = q \/ Cross(<<Fine * p[1], Fine * p[2]>>, <<Fine * q[1], Fine * q[2]>>, m) # 0}
ASSUME TLCSet(3, PointsBetween)
Samples == TLCGet(3)
Around(l) == {m \in Samples : Inside2(<<2 * m[1], 2 * m[2]>>, Scaled(l, Fine))}
ASSUME TLCSet(4, [l \in First |-> Around(l)]) /\ TLCSet(5, [l \in Second |-> Around(l)])
Area1 == TLCGet(4)
Area2 == TLCGet(5)
Overlap == \E p \in PairsOf : X(p[1], p[2])[1] = 2
BySamples ==
    pc = "scan" =>
    LET s == Area1[a]
        t == Area2[b]
    IN rel = IF Overlap THEN 3
             ELSE IF s \cap t = {} THEN 0
             ELSE IF t \subseteq s THEN 1
             ELSE IF s \subseteq t THEN 2 ELSE 3
Sampled == \A l \in First : Area1[l] # {}
=============================================================================
