-------------------------------- MODULE Geoms --------------------------------
(* Geometries that are made from geometries: what becomes of their data, and   *)
(* all there is to say about a geometry. A geometry is its type and data.      *)
EXTENDS Regions

NoGeom == <<0, <<>>>>
(* What a geometry is when read back. *)
NormAll(ps) == [i \in DOMAIN ps |-> NormPos(ps[i])]
NormLines(ls) == [i \in DOMAIN ls |-> NormAll(ls[i])]
NormData(t, d) ==
    CASE t = 0 -> <<>>
      [] t = 1 -> NormPos(d)
      [] t \in {2, 4} -> NormAll(d)
      [] t = 3 -> NormLines(Rings(d))
      [] t = 5 -> NormLines(d)
      [] t = 6 -> [i \in DOMAIN d |-> NormLines(Rings(d[i]))]

(* The lines a geometry is made of. *)
Parts(g) == CASE g[1] \in {0, 1, 4} -> <<>>
              [] g[1] = 2 -> <<g[2]>>
              [] g[1] \in {3, 5} -> g[2]
              [] g[1] = 6 -> FlattenSeq(g[2])
Part(g, i) == IF i < Len(Parts(g)) THEN <<2, Parts(g)[i + 1]>> ELSE NoGeom
(* The geometry of type k that consists of this one alone. *)
Wrapped(g, k) == <<k, IF k = 6 /\ g[1] = 2 THEN << <<g[2]>> >> ELSE <<g[2]>>>>
(* The geometry of type k that consists of this one and the other. *)
Joined(g, o, k) == <<k, Append(IF g[1] = k THEN g[2] ELSE <<g[2]>>, o[2])>>
(* Types for which there are such. *)
Wraps == {<<1, 4>>, <<2, 3>>, <<2, 5>>, <<2, 6>>, <<3, 6>>}
Joins == {<<1, 1, 4>>, <<4, 1, 4>>, <<2, 2, 5>>, <<5, 2, 5>>, <<2, 2, 3>>, <<3, 2, 3>>, <<3, 3, 6>>, <<6, 3, 6>>}

(* All numbers in a geometry. *)
RECURSIVE Codes(_, _)
Codes(depth, d) == IF depth = 0 THEN SeqRange(d)
                   ELSE UNION {Codes(depth - 1, d[i]) : i \in DOMAIN d}
Depth(t) == CASE t \in {0, 1} -> 0 [] t \in {2, 4} -> 1 [] t \in {3, 5} -> 2 [] t = 6 -> 3
(* Geometries are the same if their types and coordinates are. *)
Same(g, o) == g[1] = o[1] /\ g[2] = o[2] /\ NAN \notin Codes(Depth(g[1]), g[2])

(* Everything there is to say. Multi-points have no order here. *)
SortedList(ps) ==
    LET S == SetToSortSeq(DOMAIN ps, LAMBDA i, j : LexLess(ps[i], ps[j]) \/ (ps[i] = ps[j] /\ i < j))
    IN [k \in DOMAIN S |-> ps[S[k]]]
LinePart(l) == <<BoxOf(l), Bit(LineValid(l)), Bit(IsClosed(l))>>
PolyPart(p) == <<GeomEnv(3, p), Bit(PolygonValid(p)), [i \in DOMAIN p |-> LinePart(p[i])]>>
Told(g) ==
    LET t == g[1] d == g[2] v == Bit(Valid(t, d)) IN
    <<t, Dimension(t), Bit(GeomEmpty(t, d)), GeomEnv(t, d), v, v,
      IF t = 4 THEN <<4, SortedList(d)>> ELSE g, Boundary(t, d),
      CASE t \in {0, 1, 4} -> <<>>
        [] t = 2 -> <<LinePart(d)>>
        [] t = 3 -> <<PolyPart(d)>>
        [] t = 5 -> [i \in DOMAIN d |-> LinePart(d[i])]
        [] t = 6 -> [i \in DOMAIN d |-> PolyPart(d[i])],
      LET b == Bit(Same(g, g)) IN <<b, b>>>>

(* Whether two are equal: of multi-points, the order is not known. *)
SameOK(g, o, out) ==
    IF g[1] = 4 /\ o[1] = 4
    THEN out \in {<<0, 0>>, <<1, 1>>} /\ (out = <<1, 1>> => Same(<<4, SortedList(g[2])>>, <<4, SortedList(o[2])>>))
    ELSE LET b == Bit(Same(g, o)) IN out = <<b, b>>

(* A hull as it comes: closed, from any of its vertices on. *)
HullOK(d, out) ==
    LET n == Len(out) - 1
        h == Hull(SeqRange(d[1]))
    IN /\ n = Len(h) /\ out[1] = out[n + 1]
       /\ \E k \in 0..(n - 1) : \A i \in 1..n : out[i] = h[((i - 1 + k) % n) + 1]
=============================================================================
