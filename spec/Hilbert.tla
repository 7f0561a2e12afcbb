------------------------------- MODULE Hilbert -------------------------------
(* The Hilbert curve through a 2^16 x 2^16 grid, as a machine that reads the *)
(* bits of a cell's coordinates from the highest one on and writes a base-4  *)
(* digit of the cell's position on the curve for each.                       *)
EXTENDS Plane

States == {"A", "T", "X", "R"}
(* Digit and next state, by state and the two bits read. *)
Step == [A |-> [b \in {0, 1, 2, 3} |-> CASE b = 0 -> <<0, "T">> [] b = 1 -> <<1, "A">> [] b = 2 -> <<3, "X">> [] b = 3 -> <<2, "A">>],
         T |-> [b \in {0, 1, 2, 3} |-> CASE b = 0 -> <<0, "A">> [] b = 1 -> <<3, "R">> [] b = 2 -> <<1, "T">> [] b = 3 -> <<2, "T">>],
         X |-> [b \in {0, 1, 2, 3} |-> CASE b = 0 -> <<2, "X">> [] b = 1 -> <<1, "X">> [] b = 2 -> <<3, "A">> [] b = 3 -> <<0, "R">>],
         R |-> [b \in {0, 1, 2, 3} |-> CASE b = 0 -> <<2, "R">> [] b = 1 -> <<3, "T">> [] b = 2 -> <<1, "R">> [] b = 3 -> <<0, "X">>]]
RootState == "A"
Pow2 == [i \in 0..30 |-> 2^i]
BitOf(n, i) == (n \div Pow2[i]) % 2

(* Position of a cell on the curve of the given order, as <<high, low>>: the  *)
(* first digits and the last eight.                                          *)
RECURSIVE Locate(_, _, _, _, _, _)
Locate(x, y, i, state, hi, lo) ==
    IF i < 0 THEN <<hi, lo>>
    ELSE LET t == Step[state][2 * BitOf(x, i) + BitOf(y, i)]
         IN IF i >= 8 THEN Locate(x, y, i - 1, t[2], 4 * hi + t[1], lo)
            ELSE Locate(x, y, i - 1, t[2], hi, 4 * lo + t[1])
OnCurve(x, y) == Locate(x, y, 15, RootState, 0, 0)
LastKey == <<65535, 65535>>
KeyLeq(k, l) == k[1] < l[1] \/ (k[1] = l[1] /\ k[2] <= l[2])

(* The grid is laid over a box.  A cell is exact if the extent of the box    *)
(* divides 65535, times a small power of two (for floats of 24 bits).        *)
RECURSIVE OddPart(_)
OddPart(e) == IF e % 2 = 0 THEN OddPart(e \div 2) ELSE e
ExactExtent(e) == e = 0 \/ (65535 % OddPart(e) = 0 /\ e <= 128 * OddPart(e))
(* The cell of the doubled offset a from the lower bound, of extent e. *)
Cell(a, e) == IF e = 0 THEN 0
              ELSE LET d == OddPart(e) IN (a * (65535 \div d)) \div (2 * (e \div d))
(* The key of an item with envelope e, within the total envelope t. *)
Key(e, t) ==
    IF e = <<>> THEN LastKey
    ELSE LET c == Center2(e) IN
         IF ~(FinitePos(c) /\ \A i \in 1..4 : IsFinite(t[i])) THEN LastKey
         ELSE OnCurve(Cell(c[1] - 2 * t[1], t[3] - t[1]), Cell(c[2] - 2 * t[2], t[4] - t[2]))
(* Is the order of the leaves determined by the curve? *)
Ordered(t) == /\ t # <<>>
              /\ \A i \in 1..4 : t[i] # PINF /\ t[i] # NINF
              /\ \A j \in {1, 2} : IsFinite(t[j]) => ExactExtent(t[j + 2] - t[j])
=============================================================================
