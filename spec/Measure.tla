------------------------------- MODULE Measure -------------------------------
(* Lengths.  A square root is not an integer: a length is bounded by two     *)
(* integers in units of 1/256.                                               *)
EXTENDS Plane

Length2(a, b) == (b[1] - a[1]) * (b[1] - a[1]) + (b[2] - a[2]) * (b[2] - a[2])

(* The integer square root, by bisection of lo..hi: lo*lo <= n < (hi+1)^2.   *)
RECURSIVE Bisect(_, _, _)
Bisect(n, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF m * m <= n THEN Bisect(n, m, hi) ELSE Bisect(n, lo, m - 1)
Isqrt(n) == Bisect(n, 0, Min(n, 46340))

(* Bounds of 256 * sqrt(n), exact if n is a square. *)
Root(n) ==
    LET r == Isqrt(n)
    IN IF r * r = n THEN <<256 * r, 256 * r>>
       ELSE IF n <= 32767 THEN LET s == Isqrt(65536 * n) IN <<s, s + 1>>
       ELSE <<256 * r, 256 * (r + 1)>>

LengthBounds(ps) ==
    FoldLeft(LAMBDA acc, i : LET b == Root(Length2(ps[i], ps[i + 1])) IN <<acc[1] + b[1], acc[2] + b[2]>>,
             <<0, 0>>, [i \in 1..Max(0, Len(ps) - 1) |-> i])
LengthsBounds(ls) ==
    FoldLeft(LAMBDA acc, l : LET b == LengthBounds(l) IN <<acc[1] + b[1], acc[2] + b[2]>>, <<0, 0>>, ls)

(* x, rounded to an integer, lies within the bounds. *)
Within(x, b) == b[1] - 1 <= x /\ x <= b[2] + 1
=============================================================================
