------------------------------- MODULE Plane -------------------------------
(* Positions, envelopes, orientation, and the intersection of segments.      *)
EXTENDS Ext, FiniteSets, SequencesExt

(* ---- positions: <<x, y>> ------------------------------------------------ *)
NormPos(p) == <<Norm(p[1]), Norm(p[2])>>
FinitePos(p) == IsFinite(p[1]) /\ IsFinite(p[2])
SamePos(p, q) == EqE(p[1], q[1]) /\ EqE(p[2], q[2])
(* The order of positions is that of x, and of y where x is the same: 1 less, *)
(* 2 the same, 3 greater, 0 none as the coordinate that decides is NaN.       *)
OrderE(a, b) == IF EqE(a, b) THEN 2 ELSE IF LeqE(a, b) THEN 1 ELSE IF LeqE(b, a) THEN 3 ELSE 0
OrderOf(p, q) == IF EqE(p[1], q[1]) THEN OrderE(p[2], q[2]) ELSE OrderE(p[1], q[1])
LexLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

(* ---- envelopes: <<>> is empty, <<x1, y1, x2, y2>> a box ------------------ *)
EmptyEnv == <<>>
EnvOf2(a, b, c, d) == <<MinE(a, c), MinE(b, d), MaxE(a, c), MaxE(b, d)>>
PosEnv(p) == EnvOf2(p[1], p[2], p[1], p[2])
Merge(e, f) == IF e = <<>> THEN f ELSE IF f = <<>> THEN e
               ELSE <<MinE(e[1], f[1]), MinE(e[2], f[2]), MaxE(e[3], f[3]), MaxE(e[4], f[4])>>
Union(envs) == FoldLeft(Merge, EmptyEnv, envs)
Meets(e, f) == /\ e # <<>> /\ f # <<>>
               /\ LeqE(e[1], f[3]) /\ LeqE(f[1], e[3])
               /\ LeqE(e[2], f[4]) /\ LeqE(f[2], e[4])
Covers(e, f) == /\ e # <<>> /\ f # <<>>
                /\ LeqE(e[1], f[1]) /\ LeqE(f[3], e[3])
                /\ LeqE(e[2], f[2]) /\ LeqE(f[4], e[4])
Buffer(e, d) == IF e = <<>> THEN <<>>
                ELSE <<AddE(e[1], NegE(d)), AddE(e[2], NegE(d)), AddE(e[3], d), AddE(e[4], d)>>
(* Twice the center. *)
Center2(e) == IF e = <<>> THEN <<>> ELSE <<AddE(e[1], e[3]), AddE(e[2], e[4])>>
EnvValid(e) == e = <<>> \/ (/\ \A i \in 1..4 : IsFinite(e[i])
                            /\ Norm(e[1]) <= Norm(e[3]) /\ Norm(e[2]) <= Norm(e[4]))
BoxOf(ps) == Union([i \in DOMAIN ps |-> PosEnv(ps[i])])

(* The declarative counterpart of Union: the smallest box around all of the  *)
(* numbers that occur; used to check Merge and Union (module MC_Envelope).   *)
Extreme(S, Better(_, _)) ==
    IF S \ {NAN} = {} THEN NAN
    ELSE CHOOSE a \in S \ {NAN} : \A b \in S \ {NAN} : Better(a, b)
SmallestBox(S) ==
    IF S \ {<<>>} = {} THEN <<>>
    ELSE LET B == S \ {<<>>}
             n(i) == {Norm(e[i]) : e \in B}
             leq(a, b) == a <= b
             geq(a, b) == a >= b
         IN <<Extreme(n(1), leq), Extreme(n(2), leq), Extreme(n(3), geq), Extreme(n(4), geq)>>

(* ---- orientation --------------------------------------------------------- *)
Cross(o, a, b) == (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Orient(o, a, b) == Sign(Cross(o, a, b))
InBox(p, a, b) == /\ Min(a[1], b[1]) <= p[1] /\ p[1] <= Max(a[1], b[1])
                  /\ Min(a[2], b[2]) <= p[2] /\ p[2] <= Max(a[2], b[2])
OnSegment(p, a, b) == InBox(p, a, b) /\ Cross(a, b, p) = 0
BoxesMeet(a, b, c, d) == /\ Max(Min(a[1], b[1]), Min(c[1], d[1])) <= Min(Max(a[1], b[1]), Max(c[1], d[1]))
                         /\ Max(Min(a[2], b[2]), Min(c[2], d[2])) <= Min(Max(a[2], b[2]), Max(c[2], d[2]))

(* ---- intersection of segments pq and rs ----------------------------------- *)
(* <<0>> none; <<1, x, y>> one common position, an end of a segment;          *)
(* <<2, x1, y1, x2, y2>> a segment, ends in lexicographic order;              *)
(* <<3>> one position inside both of them: see CrossingPoint.                 *)
CommonEnds(p, q, r, s) ==
    (IF OnSegment(p, r, s) THEN {p} ELSE {}) \cup (IF OnSegment(q, r, s) THEN {q} ELSE {})
    \cup (IF OnSegment(r, p, q) THEN {r} ELSE {}) \cup (IF OnSegment(s, p, q) THEN {s} ELSE {})
ProperCross(p, q, r, s) ==
    /\ Orient(p, q, r) * Orient(p, q, s) = -1
    /\ Orient(r, s, p) * Orient(r, s, q) = -1
Intersection(p, q, r, s) ==
    IF ~BoxesMeet(p, q, r, s) THEN <<0>>
    ELSE LET C == CommonEnds(p, q, r, s) IN
         IF C = {} THEN
             IF ProperCross(p, q, r, s)
             THEN <<3>>
             ELSE <<0>>
         ELSE IF Cardinality(C) = 1 THEN LET a == CHOOSE a \in C : TRUE IN <<1, a[1], a[2]>>
         ELSE LET a == CHOOSE a \in C : \A b \in C : a = b \/ LexLess(a, b)
                  b == CHOOSE b \in C : \A c \in C : b = c \/ LexLess(c, b)
              IN <<2, a[1], a[2], b[1], b[2]>>

(* Where the lines through pq and rs cross: (nx / d, ny / d), as <<nx, ny, d>>. *)
CrossingPoint(p, q, r, s) ==
    LET d == (q[1] - p[1]) * (s[2] - r[2]) - (q[2] - p[2]) * (s[1] - r[1])
        n == (r[1] - p[1]) * (s[2] - r[2]) - (r[2] - p[2]) * (s[1] - r[1])
    IN <<p[1] * d + (q[1] - p[1]) * n, p[2] * d + (q[2] - p[2]) * n, d>>
(* Is x the nearest fixed-point number to n / d (in units of 1/256), give or  *)
(* take one unit?                                                             *)
NearFixed(x, n, d) == Abs(x) <= 40000 /\ Abs(x * d - 256 * n) <= Abs(d)

(* ---- triangles ------------------------------------------------------------ *)
SignedArea2(a, b, c) == Cross(a, b, c)
=============================================================================
