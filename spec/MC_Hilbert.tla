------------------------------- MODULE MC_Hilbert -------------------------------
(* A walk along the Hilbert curve of a small order: from every cell there is a     *)
(* way on to a neighbouring cell, until all cells have been visited.  (Curves of   *)
(* higher order refine those of lower order: see Refines.)  Pairs of cells on the  *)
(* walk go into sorted indexes, whose leaves have to be in that order.              *)
EXTENDS Index, Emit, TLC

CONSTANTS Order,      \* 2^Order by 2^Order cells
          Apart       \* the index gets cells up to so far from each other on the walk
VARIABLES trail       \* cells visited, in order
vars == <<trail>>
N == 2^Order
Cells == (0..(N - 1)) \X (0..(N - 1))
Here == trail[Len(trail)]
(* The position on the curve of small order: the machine, with fewer bits to read. *)
Place(c) == LET k == Locate(c[1], c[2], Order - 1, RootState, 0, 0) IN k[1] * 65536 + k[2]
Neighbours(c) == {d \in {<<c[1] + 1, c[2]>>, <<c[1] - 1, c[2]>>, <<c[1], c[2] + 1>>, <<c[1], c[2] - 1>>} : d \in Cells}

(* The grid of the index has 2^16 cells a side: a cell of the walk is scaled to     *)
(* the extent of 65535, if that is a multiple of N - 1.                             *)
Fits65535 == 65535 % (N - 1) = 0
Unit == 65535 \div (N - 1)
Up(c) == <<c[1] * Unit, c[2] * Unit>>
Boxed(c) == Up(c) \o Up(c)
Corners == <<Boxed(<<0, 0>>), Boxed(<<N - 1, N - 1>>)>>
Sorted(h, xs, deg, kind) == <<Asks("build", <<h, kind, 1, deg, xs>>), Asks("order", <<h>>)>>

Init == trail = << <<0, 0>> >>
Next == \E c \in Neighbours(Here) :
    /\ Place(c) = Place(Here) + 1
    /\ trail' = Append(trail, c)
    /\ LET n == Len(trail)
           back == {k \in {1, 2, 3, 5, 16, 17, Apart} : k <= n}
       IN Fits65535 =>
          /\ \A k \in back : LET d == trail[n + 1 - k] IN
                Emit(Sorted(0, Corners \o <<Boxed(c), Boxed(d)>>, 2, 0)
                     \o Sorted(1, <<Boxed(d)>> \o Corners \o <<Boxed(c), Boxed(Here)>>, 16, 0))
          /\ n + 1 = N * N =>      \* (all of them, in another order)
                /\ Emit(Sorted(0, [i \in 1..(N * N) |-> Up(<<(i - 1) % N, (i - 1) \div N>>)], 16, 1))
                /\ Emit(Sorted(1, [i \in 1..(N * N) |-> Up(trail'[N * N + 1 - i])], 4, 1))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* The walk is the curve: it never gets stuck, visits no cell twice, ... *)
OnTrack == Place(Here) = Len(trail) - 1
NoDeadEnd == Len(trail) < N * N => \E c \in Neighbours(Here) : Place(c) = Len(trail)
Refines == LET c == Here IN Place(c) \div 4 =
              LET k == Locate(c[1] \div 2, c[2] \div 2, Order - 2, RootState, 0, 0) IN k[1] * 65536 + k[2]
(* ... and ends in the corner below where it began. *)
Ending == Len(trail) = N * N => Cardinality(SeqRange(trail)) = N * N /\ Here = <<N - 1, 0>>
(* A cell scaled up keeps its place among others. *)
ScaledUp == \A i \in {1, Len(trail) \div 2 + 1, Len(trail)} :
    Fits65535 => KeyLeq(OnCurve(Up(trail[i])[1], Up(trail[i])[2]), OnCurve(Up(Here)[1], Up(Here)[2]))
Visits == <>(Len(trail) = N * N)
=============================================================================
