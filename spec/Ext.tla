-------------------------------- MODULE Ext --------------------------------
(* Coordinates of the specification: integers, and codes for the floating    *)
(* point values that are not numbers of the model: NaN, the infinities and   *)
(* negative zero.  An embedding (see harness/src/emb.rs) maps an integer m   *)
(* to (m + offset) * 2^k exactly, so integer arithmetic here is exactly what *)
(* the code computes.                                                        *)
EXTENDS Integers, Sequences

NAN   == 2000000000
PINF  == 1000000000
NINF  == -1000000000
NZERO == 1500000000

Norm(a) == IF a = NZERO THEN 0 ELSE a
IsNaN(a) == a = NAN
IsFinite(a) == a # NAN /\ a # PINF /\ a # NINF
IsZero(a) == a = 0 \/ a = NZERO

(* Comparisons with NaN are false. *)
LeqE(a, b) == a # NAN /\ b # NAN /\ Norm(a) <= Norm(b)
EqE(a, b) == a # NAN /\ Norm(a) = Norm(b)

(* The smaller, larger number: NaN only if both are. *)
MinE(a, b) == IF a = NAN THEN Norm(b) ELSE IF b = NAN THEN Norm(a)
              ELSE IF Norm(a) <= Norm(b) THEN Norm(a) ELSE Norm(b)
MaxE(a, b) == IF a = NAN THEN Norm(b) ELSE IF b = NAN THEN Norm(a)
              ELSE IF Norm(a) >= Norm(b) THEN Norm(a) ELSE Norm(b)

AddE(a, b) == IF a = NAN \/ b = NAN THEN NAN
              ELSE IF IsFinite(a) /\ IsFinite(b) THEN Norm(a) + Norm(b)
              ELSE IF IsFinite(a) THEN b
              ELSE IF IsFinite(b) THEN a
              ELSE IF a = b THEN a ELSE NAN
NegE(a) == IF a = NAN THEN NAN ELSE -Norm(a)

Bit(b) == IF b THEN 1 ELSE 0

Abs(a) == IF a < 0 THEN -a ELSE a
Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

(* Sequences *)
(* (TLC would evaluate the elements of s again each time.) *)
Kept(s) == s \o <<>>
SeqRange(s) == {s[i] : i \in DOMAIN s}
SeqAll(s, P(_)) == \A i \in DOMAIN s : P(s[i])
MapSeq(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Tail1(s) == [i \in 1..(Len(s) - 1) |-> s[i + 1]]
Front1(s) == [i \in 1..(Len(s) - 1) |-> s[i]]
=============================================================================
