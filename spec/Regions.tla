------------------------------- MODULE Regions ------------------------------
(* Loops, polygons, multi-polygons.                                          *)
EXTENDS Curves

(* Positions where loop a touches segment p q of another loop, p and q. *)
TouchPoints(p, q, a) ==
    {p, q} \cup UNION {IF BoxesMeet(p, q, a[j], a[j + 1]) THEN CommonEnds(p, q, a[j], a[j + 1]) ELSE {}
                     : j \in Segments(a)}

(* Loops cross properly or overlap along a segment. *)
Clash(a, b) ==
    \E i \in Segments(a) : \E j \in Segments(b) :
        /\ BoxesMeet(a[i], a[i + 1], b[j], b[j + 1])
        /\ Intersection(a[i], a[i + 1], b[j], b[j + 1])[1] \in {2, 3}

(* Twice the midpoints of the pieces into which b's touches cut segment p q. *)
Mids2(p, q, b) ==
    LET T == SetToSortSeq(TouchPoints(p, q, b), LexLess)
    IN {<<T[k][1] + T[k + 1][1], T[k][2] + T[k + 1][2]>> : k \in 1..(Len(T) - 1)}
AllMids2(a, b) == UNION {Mids2(a[i], a[i + 1], b) : i \in Segments(a)}

(* Does the ray from m/2 to x = +infinity cross segment pq? (half-open in y)  *)
RayHits(m, p, q) ==
    LET p2 == <<2 * p[1], 2 * p[2]>>
        q2 == <<2 * q[1], 2 * q[2]>>
    IN \/ p2[2] <= m[2] /\ m[2] < q2[2] /\ Cross(p2, q2, m) > 0
       \/ q2[2] <= m[2] /\ m[2] < p2[2] /\ Cross(p2, q2, m) < 0
(* m/2, not on the loop, is inside of it. *)
Inside2(m, loop) == Cardinality({i \in Segments(loop) : RayHits(m, loop[i], loop[i + 1])}) % 2 = 1

(* How two simple loops relate:                                              *)
(* 0 separate, 1 a contains b, 2 a is within b, 3 crosses (or overlaps).     *)
Relation(a, b) ==
    IF Clash(a, b) THEN 3
    ELSE LET A == {Inside2(m, b) : m \in AllMids2(a, b)}
             B == {Inside2(m, a) : m \in AllMids2(b, a)}
         IN IF A = {FALSE} /\ B = {FALSE} THEN 0
            ELSE IF A = {FALSE} /\ B = {TRUE} THEN 1
            ELSE IF A = {TRUE} /\ B = {FALSE} THEN 2
            ELSE 3
(* Loops whose boxes are apart are separate (checked in MC_Loops). *)
RelationIn(a, b, boxA, boxB) == IF Meets(boxA, boxB) THEN Relation(a, b) ELSE 0

LoopValid(r) == Len(r) >= 4 /\ AllFinite(r) /\ r[1] = r[Len(r)] /\ SimpleCurve(r)

(* ---- polygons: sequences of rings, the first one the shell ---------------- *)
(* No rings, or just an empty shell: the empty polygon. *)
PolyEmpty(p) == p = <<>> \/ p[1] = <<>>
PolygonValid(p) ==
    \/ p = <<>> \/ p = << <<>> >>
    \/ /\ \A i \in DOMAIN p : LoopValid(p[i])
       /\ LET boxes == Kept([i \in DOMAIN p |-> BoxOf(p[i])]) IN
          /\ \A i \in 2..Len(p) : RelationIn(p[1], p[i], boxes[1], boxes[i]) = 1
          /\ \A i \in 2..Len(p) : \A j \in (i + 1)..Len(p) : RelationIn(p[i], p[j], boxes[i], boxes[j]) = 0

(* ---- multi-polygons ------------------------------------------------------- *)
(* m/2, not on a ring, is in the interior of the polygon. *)
InPolygon2(m, p) == Cardinality({i \in DOMAIN p : Inside2(m, p[i])}) % 2 = 1
(* Twice the midpoints of the pieces of p's rings between touches with any   *)
(* ring of q.                                                                *)
PieceMids2(r, q) ==
    UNION {LET T == SetToSortSeq(UNION {TouchPoints(r[i], r[i + 1], q[k]) : k \in DOMAIN q}, LexLess)
           IN {<<T[n][1] + T[n + 1][1], T[n][2] + T[n + 1][2]>> : n \in 1..(Len(T) - 1)}
           : i \in Segments(r)}
(* Interiors are disjoint and only finitely many boundary points are common: *)
(* no rings clash, and no piece of one boundary is in the other's interior.  *)
PolygonsApart(p, q) ==
    \/ PolyEmpty(p) \/ PolyEmpty(q)
    \/ ~Meets(BoxOf(p[1]), BoxOf(q[1]))
    \/ /\ \A i \in DOMAIN p : \A j \in DOMAIN q : ~Clash(p[i], q[j])
       /\ \A i \in DOMAIN p : \A m \in PieceMids2(p[i], q) : ~InPolygon2(m, q)
       /\ \A j \in DOMAIN q : \A m \in PieceMids2(q[j], p) : ~InPolygon2(m, p)
MultiPolygonValid(ps) ==
    /\ \A i \in DOMAIN ps : PolygonValid(ps[i])
    /\ LET boxes == Kept([i \in DOMAIN ps |-> IF ps[i] = <<>> THEN EmptyEnv ELSE BoxOf(ps[i][1])])
       IN \A j \in DOMAIN ps : \A i \in 1..(j - 1) : Meets(boxes[i], boxes[j]) => PolygonsApart(ps[i], ps[j])

(* ---- geometries: type code and data --------------------------------------- *)
(* 0 Empty, 1 Point, 2 LineString, 3 Polygon, 4 MultiPoint,                   *)
(* 5 MultiLineString, 6 MultiPolygon                                          *)
MultiPointValid(ps) ==
    /\ AllFinite(ps)
    /\ Cardinality({NormPos(ps[i]) : i \in DOMAIN ps}) = Len(ps)
Valid(t, d) ==
    CASE t = 0 -> TRUE
      [] t = 1 -> FinitePos(d)
      [] t = 2 -> LineValid(d)
      [] t = 3 -> PolygonValid(d)
      [] t = 4 -> MultiPointValid(d)
      [] t = 5 -> MultiLineValid(d)
      [] t = 6 -> MultiPolygonValid(d)

GeomEnv(t, d) ==
    CASE t = 0 -> EmptyEnv
      [] t = 1 -> PosEnv(d)
      [] t = 2 -> BoxOf(d)
      [] t = 3 -> IF d = <<>> THEN EmptyEnv ELSE BoxOf(d[1])
      [] t = 4 -> BoxOf(d)
      [] t = 5 -> Union([i \in DOMAIN d |-> BoxOf(d[i])])
      [] t = 6 -> Union([i \in DOMAIN d |-> IF d[i] = <<>> THEN EmptyEnv ELSE BoxOf(d[i][1])])
GeomEmpty(t, d) ==
    CASE t = 0 -> TRUE
      [] t = 1 -> FALSE
      [] t = 2 -> d = <<>>
      [] t = 3 -> PolyEmpty(d)
      [] t = 4 -> d = <<>>
      [] t = 5 -> \A i \in DOMAIN d : d[i] = <<>>
      [] t = 6 -> \A i \in DOMAIN d : PolyEmpty(d[i])
Dimension(t) == CASE t \in {0, 1, 4} -> 0 [] t \in {2, 5} -> 1 [] t \in {3, 6} -> 2

(* Distinct finite points in lexicographic order. *)
SortedPoints(S) == SetToSortSeq(S, LexLess)
Simplified(ps) == LET S == {NormPos(p) : p \in {q \in SeqRange(ps) : FinitePos(q)}}
                  IN IF S = {} THEN <<0, <<>>>> ELSE <<4, SortedPoints(S)>>

(* The boundary, as type code and data; points in lexicographic order. *)
SortTwo(a, b) == IF LexLess(b, a) THEN <<b, a>> ELSE <<a, b>>
Rings(p) == IF p = <<>> THEN << <<>> >> ELSE p
Boundary(t, d) ==
    CASE t \in {0, 1, 4} -> <<0, <<>>>>
      [] t = 2 -> IF Ends(d) = <<>> THEN <<0, <<>>>> ELSE <<4, SortTwo(d[1], d[Len(d)])>>
      [] t = 3 -> <<5, Rings(d)>>
      [] t = 5 -> LET S == OddEnds(d) IN IF S = {} THEN <<0, <<>>>> ELSE <<4, SortedPoints(S)>>
      [] t = 6 -> <<5, FlattenSeq([i \in DOMAIN d |-> IF PolyEmpty(d[i]) THEN <<>> ELSE d[i]])>>

(* ---- convex hull of a simple loop ----------------------------------------- *)
(* The hull vertices counter-clockwise from the lexicographically least one. *)
IsHull(h, S) ==
    LET n == Len(h)
        at(i) == h[((i - 1) % n) + 1]
    IN /\ n >= 3
       /\ \A i \in 1..n : h[i] \in S
       /\ \A i \in 2..n : LexLess(h[1], h[i])
       /\ \A i, j \in 1..n : i # j => h[i] # h[j]
       /\ \A i \in 1..n : Cross(at(i), at(i + 1), at(i + 2)) > 0
       /\ \A i \in 1..n : \A p \in S : Cross(at(i), at(i + 1), p) >= 0
(* Gift wrapping: from hull vertex a, the next one has everything on its     *)
(* left, and is the farthest such.                                           *)
NextHull(a, ps) == FoldLeft(LAMBDA b, c :
    IF c = a THEN b
    ELSE IF b = a THEN c
    ELSE LET o == Cross(a, b, c) IN IF o < 0 \/ (o = 0 /\ OnSegment(b, a, c)) THEN c ELSE b, a, ps)
RECURSIVE Wrap(_, _)
Wrap(h, ps) == LET b == NextHull(h[Len(h)], ps)
               IN IF b = h[1] THEN h ELSE Wrap(Append(h, b), ps)
Hull(S) == LET ps == SetToSortSeq(S, LexLess) IN Wrap(<<ps[1]>>, ps)
=============================================================================
