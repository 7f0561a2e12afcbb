-------------------------------- MODULE Shapes --------------------------------
(* All simple lines and loops through the positions of a small grid.          *)
EXTENDS Regions

GridOf(w, h) == (0..(w - 1)) \X (0..(h - 1))

(* A valid line stays valid if the new last segment fits. *)
Fits(ps, p) ==
    LET ext == Append(ps, p)
        n == Len(ps)
    IN /\ ps[n] # p
       /\ \A i \in 1..(n - 1) : JointOK(ext, i, n)
Extensions(S, G) == UNION {{Append(ps, p) : p \in {p \in G : Fits(ps, p)}} : ps \in S}
(* Open valid lines of n positions, from their lexicographically least one.   *)
RECURSIVE Paths(_, _)
Paths(n, G) == IF n = 1 THEN {<<p>> : p \in G}
               ELSE LET S == Paths(n - 1, G)
                    IN UNION {{Append(ps, p) : p \in {p \in G : LexLess(ps[1], p) /\ Fits(ps, p)}} : ps \in S}
(* Simple loops of n vertices, one for each set of start vertex and direction. *)
LoopsOf(n, G) == {Append(ps, ps[1]) : ps \in {ps \in Paths(n, G) : LexLess(ps[2], ps[n]) /\ Fits(ps, ps[1])}}
LoopsUpTo(n, G) == UNION {LoopsOf(k, G) : k \in 3..n}

(* Regions of unit cells (each named by its lower left corner): the sides that   *)
(* have the region on their left only, and the loop these form, if they do.      *)
SidesOf(cells) ==
    LET side(x, y, k) == CASE k = 1 -> <<<<x, y>>, <<x + 1, y>>, <<x, y - 1>>>>
                           [] k = 2 -> <<<<x + 1, y>>, <<x + 1, y + 1>>, <<x + 1, y>>>>
                           [] k = 3 -> <<<<x + 1, y + 1>>, <<x, y + 1>>, <<x, y + 1>>>>
                           [] k = 4 -> <<<<x, y + 1>>, <<x, y>>, <<x - 1, y>>>>
    IN {s \in {side(c[1], c[2], k) : c \in cells, k \in 1..4} : s[3] \notin cells}
RECURSIVE Traced(_, _)
Traced(sides, ps) ==
    LET s == CHOOSE s \in sides : s[1] = ps[Len(ps)]
    IN IF s[2] = ps[1] THEN Append(ps, s[2]) ELSE Traced(sides, Append(ps, s[2]))
Turning(l) ==
    LET n == Len(l) - 1
        turns == {i \in 1..n : Cross(l[IF i = 1 THEN n ELSE i - 1], l[i], l[i + 1]) # 0}
        at == SetToSortSeq(turns, LAMBDA i, j : i < j)
    IN [k \in 1..(Len(at) + 1) |-> l[at[IF k > Len(at) THEN 1 ELSE k]]]
(* The boundary of a region without holes and pinches, else the empty loop. *)
CellLoop(cells) ==
    LET sides == SidesOf(cells)
        starts == {s[1] : s \in sides}
    IN IF cells = {} \/ Cardinality(starts) # Cardinality(sides) THEN <<>>
       ELSE LET l == Traced(sides, <<CHOOSE p \in starts : \A q \in starts : p = q \/ LexLess(p, q)>>)
            IN IF Len(l) - 1 # Cardinality(sides) THEN <<>> ELSE Turning(l)
CellLoops(w, h) == {CellLoop(cells) : cells \in SUBSET GridOf(w, h)} \ {<<>>}

(* The other representations of a loop. *)
Rotated(l, k) == LET n == Len(l) - 1
                 IN [i \in 1..(n + 1) |-> l[((i - 1 + k) % n) + 1]]
Reversed(ps) == [i \in DOMAIN ps |-> ps[Len(ps) + 1 - i]]
Moved(ps, dx, dy) == [i \in DOMAIN ps |-> <<ps[i][1] + dx, ps[i][2] + dy>>]
Scaled(ps, k) == [i \in DOMAIN ps |-> <<k * ps[i][1], k * ps[i][2]>>]
(* A vertex in the middle of each segment, coordinates doubled. *)
Densified2(ps) ==
    [i \in 1..(2 * Len(ps) - 1) |->
        IF i % 2 = 1 THEN LET a == ps[(i + 1) \div 2] IN <<2 * a[1], 2 * a[2]>>
        ELSE LET a == ps[i \div 2] b == ps[i \div 2 + 1] IN <<a[1] + b[1], a[2] + b[2]>>]
=============================================================================
