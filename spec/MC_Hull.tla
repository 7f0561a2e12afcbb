-------------------------------- MODULE MC_Hull --------------------------------
(* Melkman's algorithm for the convex hull of a simple loop, position by        *)
(* position, on all simple loops of a grid in all representations, against the   *)
(* extreme points (module Regions).                                              *)
EXTENDS Shapes, Emit, TLC

CONSTANTS W, H,     \* grid
          MaxLen    \* most vertices
VARIABLES loop,     \* the loop, as given
          i,        \* positions read
          abc,      \* the first three
          deque,    \* clockwise, first = last
          pc
vars == <<loop, i, abc, deque, pc>>
G == GridOf(W, H)
ASSUME TLCSet(1, LoopsUpTo(MaxLen, G))
Canonical == TLCGet(1)

Left(a, b, c) == Orient(a, b, c) = 1
Right(a, b, c) == Orient(a, b, c) = -1
RECURSIVE PopBack(_, _), PopFront(_, _)
PopBack(d, p) == IF Right(d[Len(d) - 1], d[Len(d)], p) THEN d ELSE PopBack(Front1(d), p)
PopFront(d, p) == IF Right(p, d[1], d[2]) THEN d ELSE PopFront(Tail1(d), p)

Init == \E l \in Canonical, k \in 0..(MaxLen - 1), back \in BOOLEAN :
            /\ k < Len(l) - 1
            /\ loop = LET r == Rotated(l, k) IN IF back THEN Reversed(r) ELSE r
            /\ i = 4 /\ abc = <<loop[2], loop[3], loop[4]>> /\ deque = <<>> /\ pc = "triple"
(* The first position is the last one, too: it comes last.  A middle one of     *)
(* three in a row is dropped until the three turn.                               *)
Triple == /\ pc = "triple"
          /\ IF Orient(abc[1], abc[2], abc[3]) = 0
             THEN /\ i < Len(loop) \* (a loop is not all in a row)
                  /\ abc' = <<abc[1], abc[3], loop[i + 1]>> /\ i' = i + 1 /\ UNCHANGED <<deque, pc>>
             ELSE /\ deque' = IF Right(abc[1], abc[2], abc[3]) THEN <<abc[3], abc[1], abc[2], abc[3]>>
                              ELSE <<abc[3], abc[2], abc[1], abc[3]>>
                  /\ pc' = "read" /\ UNCHANGED <<i, abc>>
Read == /\ pc = "read" /\ i < Len(loop)
        /\ i' = i + 1
        /\ LET p == loop[i + 1]
               d == deque
           IN deque' = IF ~Left(p, d[1], d[2]) /\ ~Left(d[Len(d) - 1], d[Len(d)], p) THEN d
                       ELSE LET back == Append(PopBack(d, p), p)
                            IN <<p>> \o PopFront(back, p)
        /\ UNCHANGED <<abc, pc>>
Result == Reversed(deque)
(* From the least position on. *)
FromLeast(h) == LET n == Len(h) - 1
                    k == CHOOSE k \in 1..n : \A j \in 1..n : j = k \/ LexLess(h[k], h[j])
                IN [j \in 1..n |-> h[((k + j - 2) % n) + 1]]
Publish == /\ pc = "read" /\ i = Len(loop) /\ pc' = "done"
           /\ UNCHANGED <<i, abc, deque>>
           /\ Emit(CASE What = "hull" -> <<Gives("hull", <<loop>>, <<1, FromLeast(Result)>>)>>
                     [] What \in {"surf", "surf4"} -> <<Asks("g.surf", <<3, <<loop>>>>)>>
                     [] What = "valid" -> <<Gives("g.simple", <<2, loop>>, <<1, 1, 1, 1>>),
                                            Gives("g.valid", <<3, <<loop>>>>, <<1>>),
                                            Gives("g.bnd", <<2, loop>>, <<<<0, <<>>>>, <<0, <<>>>>, 1>>)>>)
Next == (Triple \/ Read \/ Publish) /\ UNCHANGED loop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Once there is a deque, it is the hull of what was read. *)
ReadSet == {loop[j] : j \in 2..i}
HullSoFar == pc # "triple" =>
    /\ deque[1] = deque[Len(deque)]
    /\ IsHull(FromLeast(Result), ReadSet)
    /\ FromLeast(Result) = Hull(ReadSet)
(* From a vertex of the hull on, the next has everything on its left. *)
NextIsNext == pc # "triple" =>
    LET h == Hull(ReadSet) n == Len(h)
    IN \A k \in 1..n : \A c \in ReadSet \ {h[k], h[(k % n) + 1]} :
        LET a == h[k] b == h[(k % n) + 1] IN Cross(a, b, c) > 0 \/ (Cross(a, b, c) = 0 /\ OnSegment(c, a, b))
(* Who is not in the hull is not extreme: a triangle of others contains it. *)
InTriangle(p, a, b, c) == LET s == {Orient(a, b, p), Orient(b, c, p), Orient(c, a, p)} IN ~({1, -1} \subseteq s)
                          /\ (Orient(a, b, c) # 0 \/ OnSegment(p, a, b) \/ OnSegment(p, b, c) \/ OnSegment(p, a, c))
Extremes == pc = "done" =>
    LET S == ReadSet
        inner(p) == \E a, b, c \in S \ {p} : InTriangle(p, a, b, c)
    IN SeqRange(deque) = {p \in S : ~inner(p)}
Terminates == <>(pc = "done")
=============================================================================
