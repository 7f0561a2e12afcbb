------------------------------- MODULE Linear -------------------------------
(* The one-dimensional module.  Intervals: <<>> is empty, <<a, b>> from a to b *)
EXTENDS Ext, SequencesExt

EmptyI == <<>>
IntervalOf2(a, b) == <<MinE(a, b), MaxE(a, b)>>
MergeI(u, v) == IF u = <<>> THEN v ELSE IF v = <<>> THEN u
                ELSE <<MinE(u[1], v[1]), MaxE(u[2], v[2])>>
UnionI(us) == FoldLeft(MergeI, EmptyI, us)
CoversI(u, v) == u # <<>> /\ v # <<>> /\ LeqE(u[1], v[1]) /\ LeqE(v[2], u[2])
MeetsI(u, v) == u # <<>> /\ v # <<>> /\ LeqE(u[1], v[2]) /\ LeqE(v[1], u[2])
IntervalValid(u) == u = <<>> \/ (IsFinite(u[1]) /\ IsFinite(u[2]) /\ Norm(u[1]) <= Norm(u[2]))
(* The smallest interval around all numbers of a set. *)
SmallestInterval(S) ==
    IF S = {} THEN <<>>
    ELSE LET R == {Norm(a) : a \in S \ {NAN}} IN
         IF R = {} THEN <<NAN, NAN>>
         ELSE <<CHOOSE a \in R : \A b \in R : a <= b, CHOOSE a \in R : \A b \in R : a >= b>>
(* A thing of kind 0, an interval, or 1, a position. *)
ThingI(kind, x) == IF kind = 0 THEN (IF x = <<>> THEN <<>> ELSE IntervalOf2(x[1], x[2]))
                   ELSE IntervalOf2(x, x)
=============================================================================
