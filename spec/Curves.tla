------------------------------- MODULE Curves -------------------------------
(* Sequences of positions: simple curves, closed loops, multi-lines, and     *)
(* their boundaries.                                                         *)
EXTENDS Plane

AllFinite(ps) == \A i \in DOMAIN ps : FinitePos(ps[i])
Segments(ps) == 1..(Len(ps) - 1)
IsClosed(ps) == Len(ps) >= 4 /\ SamePos(ps[1], ps[Len(ps)])

(* Which common positions segments i < j of a curve may have. *)
JointOK(ps, i, j) ==
    LET n == Len(ps) - 1
        x == Intersection(ps[i], ps[i + 1], ps[j], ps[j + 1])
    IN \/ x[1] = 0
       \/ /\ x[1] = 1
          /\ \/ j = i + 1 /\ <<x[2], x[3]>> = ps[j]
             \/ i = 1 /\ j = n /\ ps[1] = ps[n + 1] /\ <<x[2], x[3]>> = ps[1]

(* The curve touches itself nowhere, except that it may end at its start. *)
SimpleByPairs(ps) ==
    /\ \A i \in Segments(ps) : ps[i] # ps[i + 1]
    /\ \A j \in Segments(ps) : \A i \in 1..(j - 1) : JointOK(ps, i, j)
(* Where x only grows, or only shrinks, a curve does not come back to itself: only *)
(* segments of different such runs have to be compared. (MC_Draw checks that the    *)
(* two agree.)                                                                    *)
SimpleByRuns(ps) ==
    LET n == Len(ps) - 1
        way(i) == Sign(ps[i + 1][1] - ps[i][1])
        starts == SetToSortSeq({i \in 1..n : i = 1 \/ way(i) = 0 \/ way(i) # way(i - 1)}, LAMBDA i, j : i < j)
    IN /\ \A i \in Segments(ps) : ps[i] # ps[i + 1]
       /\ \A k \in 2..Len(starts) :
            \A j \in starts[k]..(IF k = Len(starts) THEN n ELSE starts[k + 1] - 1) :
                \A i \in 1..(starts[k] - 1) :
                    BoxesMeet(ps[i], ps[i + 1], ps[j], ps[j + 1]) => JointOK(ps, i, j)
SimpleCurve(ps) == IF Len(ps) > 100 THEN SimpleByRuns(ps) ELSE SimpleByPairs(ps)

LineValid(ps) ==
    \/ ps = <<>>
    \/ Len(ps) >= 2 /\ AllFinite(ps) /\ SimpleCurve(ps)

(* ---- boundaries ----------------------------------------------------------- *)
Ends(ps) == IF Len(ps) = 0 \/ IsClosed(ps) THEN <<>> ELSE <<ps[1], ps[Len(ps)]>>
EndSet(ps) == SeqRange(Ends(ps))

(* Points that are ends of an odd number of lines: in order, equal ones are in a row. *)
(* (What is no number is not the same as anything, and nowhere.)                      *)
OddEnds(lines) ==
    LET given == SelectSeq(FlattenSeq([i \in DOMAIN lines |-> Ends(lines[i])]), LAMBDA p : NAN \notin {p[1], p[2]})
        less(a, b) == LexLess(a[1], b[1]) \/ (a[1] = b[1] /\ a[2] < b[2])
        ends == SetToSortSeq({<<given[i], i>> : i \in DOMAIN given}, less)
        n == Len(ends)
        starts == SetToSortSeq({i \in 1..n : i = 1 \/ ends[i][1] # ends[i - 1][1]}, LAMBDA i, j : i < j)
        many(k) == (IF k = Len(starts) THEN n + 1 ELSE starts[k + 1]) - starts[k]
    IN {ends[starts[k]][1] : k \in {k \in DOMAIN starts : many(k) % 2 = 1}}

(* ---- multi-lines ---------------------------------------------------------- *)
(* Two lines may meet only in positions that are ends of both. *)
LinesMeetOK(a, b) ==
    \A i \in Segments(a) : \A j \in Segments(b) :
        LET x == Intersection(a[i], a[i + 1], b[j], b[j + 1])
        IN \/ x[1] = 0
           \/ x[1] = 1 /\ <<x[2], x[3]>> \in EndSet(a) \cap EndSet(b)
MultiLineValid(ls) ==
    /\ \A i \in DOMAIN ls : LineValid(ls[i])
    /\ LET boxes == Kept([i \in DOMAIN ls |-> BoxOf(ls[i])])
       IN \A j \in DOMAIN ls : \A i \in 1..(j - 1) : Meets(boxes[i], boxes[j]) => LinesMeetOK(ls[i], ls[j])
=============================================================================
