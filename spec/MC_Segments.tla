----------------------------- MODULE MC_Segments -----------------------------
(* The intersection of two segments: an algorithm that decides from cross and  *)
(* dot products alone, as the library does, against the definition (Plane) and *)
(* against a direct enumeration of common points.                              *)
EXTENDS Regions, Shapes, Emit, TLC

CONSTANTS W, H       \* the ends' grid
VARIABLES p, q, r, s,  \* segments pq and rs
          pc,          \* where the algorithm is
          acc,         \* what it has calculated
          res          \* its result
vars == <<p, q, r, s, pc, acc, res>>
G == GridOf(W, H)

Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CrossV(a, b) == a[1] * b[2] - a[2] * b[1]
DotV(a, b) == a[1] * b[1] + a[2] * b[2]

Init == /\ p \in G /\ q \in G /\ r \in G /\ s \in G
        /\ pc = "start" /\ acc = <<>> /\ res = <<>>
Result(x) == res' = x /\ pc' = "done" /\ acc' = acc
Goto(l, a) == pc' = l /\ acc' = a /\ res' = res
Pos(a) == <<1, a[1], a[2]>>
Seg(a, b) == LET t == SortTwo(a, b) IN <<2>> \o t[1] \o t[2]

Start == pc = "start" /\
    IF <<p, q>> = <<r, s>> /\ p # q THEN Result(Seg(p, q))
    ELSE LET d == CrossV(Minus(q, p), Minus(s, r))
             o == CrossV(Minus(r, p), Minus(q, p))
         IN Goto(IF d # 0 THEN "crossing" ELSE IF o # 0 THEN "apart" ELSE IF p = q THEN "single" ELSE "along",
                 <<d, o>>)
Apart == pc = "apart" /\ Result(<<0>>)
(* pq is one position. *)
Single == pc = "single" /\ Result(IF OnSegment(p, r, s) THEN Pos(p) ELSE <<0>>)
(* Both on one line: where r and s are, in units of pq (as fractions of one    *)
(* denominator).                                                               *)
Along == pc = "along" /\
    LET v == Minus(q, p)
        n == DotV(v, v)
        t0 == DotV(Minus(r, p), v)
        t1 == DotV(Minus(s, p), v)
        lo == IF t0 <= t1 THEN <<t0, r>> ELSE <<t1, s>>
        hi == IF t0 <= t1 THEN <<t1, s>> ELSE <<t0, r>>
    IN IF lo[1] > n \/ hi[1] < 0 THEN Result(<<0>>)
       ELSE LET a == IF lo[1] > 0 THEN lo[2] ELSE p
                b == IF hi[1] < n THEN hi[2] ELSE q
            IN Result(IF a = b THEN Pos(a) ELSE Seg(a, b))
Crossing == pc = "crossing" /\
    IF p \in {r, s} THEN Result(Pos(p))
    ELSE IF q \in {r, s} THEN Result(Pos(q))
    ELSE LET d == acc[1]
             sg == Sign(d)
             ta == sg * CrossV(Minus(r, p), Minus(s, r))
             tb == sg * acc[2]
             n == sg * d
         IN IF ~(0 <= ta /\ ta <= n /\ 0 <= tb /\ tb <= n) THEN Result(<<0>>)
            ELSE Result(IF ta = 0 THEN Pos(p) ELSE IF ta = n THEN Pos(q)
                        ELSE IF tb = 0 THEN Pos(r) ELSE IF tb = n THEN Pos(s) ELSE <<3>>)
Publish == pc = "done" /\ pc' = "end" /\ UNCHANGED <<acc, res>>
           /\ Emit(<<Asks("seg.x", <<p \o q, r \o s>>)>>)
Next == (Start \/ Apart \/ Single \/ Along \/ Crossing \/ Publish) /\ UNCHANGED <<p, q, r, s>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- the oracle: common points among finely spread ones --------------------- *)
Fine == LET d == Abs(CrossV(Minus(q, p), Minus(s, r))) IN IF d = 0 THEN 12 ELSE d
Spread(a, b, k) == {<<k * a[1] + i * (b[1] - a[1]), k * a[2] + i * (b[2] - a[2])>> : i \in 0..k}
Common == Spread(p, q, Fine) \cap Spread(r, s, Fine)
Least(S) == CHOOSE a \in S : \A b \in S : a = b \/ LexLess(a, b)
Greatest(S) == CHOOSE a \in S : \A b \in S : a = b \/ LexLess(b, a)
Enumerated ==
    LET k == Fine
        down(a) == <<a[1] \div k, a[2] \div k>>
    IN IF Common = {} THEN <<0>>
       ELSE IF Cardinality(Common) = 1
       THEN LET c == Least(Common) IN
            IF \E e \in {p, q, r, s} : c = <<k * e[1], k * e[2]>> THEN Pos(down(c)) ELSE <<3>>
       ELSE Seg(down(Least(Common)), down(Greatest(Common)))

Done == pc = "done"
Agrees == Done => res = Intersection(p, q, r, s) /\ res = Enumerated
(* The crossing position is on both lines. *)
CrossingRight == Done /\ res = <<3>> =>
    LET c == CrossingPoint(p, q, r, s)
        d == c[3]
        k == Fine
    IN \E m \in Common : m[1] * d = c[1] * k /\ m[2] * d = c[2] * k
Symmetric == Done => /\ Intersection(r, s, p, q) = res
                     /\ Intersection(q, p, r, s) = res
                     /\ Intersection(p, q, s, r) = res
Terminates == <>(pc = "end")
=============================================================================
