------------------------------ MODULE MC_MLines ------------------------------
(* Multi-lines grow line by line.  The verdict is kept incrementally: which     *)
(* positions are ends, which ones are on some line, ... and is compared with     *)
(* the definition, and with an enumeration of common points.                     *)
EXTENDS Shapes, Emit, TLC

CONSTANTS W, H,        \* grid
          LineLen,     \* open lines have up to so many positions
          LoopLen,     \* loops up to so many vertices
          Members
VARIABLES lines, valid,
          pairs          \* which members (by index) may not be together
vars == <<lines, valid, pairs>>
G == GridOf(W, H)
(* The members there are: undirected open lines, loops, the empty line, and an *)
(* invalid one. *)
OpenLines == UNION {{ps \in Paths(k, G) : LexLess(ps[1], ps[k])} : k \in 2..LineLen}
Loops == LoopsUpTo(LoopLen, G)
Universe == OpenLines \cup Loops \cup {<<>>} \cup {<< <<0, 0>> >>, << <<0, 0>>, <<0, 0>> >>}
Good == OpenLines \cup Loops \cup {<<>>}

(* The oracle: common points of two lines at a spread that contains all         *)
(* crossings of segments of the grid.                                           *)
Spread(a, b, k) == {<<k * a[1] + i * (b[1] - a[1]), k * a[2] + i * (b[2] - a[2])>> : i \in 0..k}
Det(p, q, r, s) == (q[1] - p[1]) * (s[2] - r[2]) - (q[2] - p[2]) * (s[1] - r[1])
Compatible(a, b) ==
    \A i \in Segments(a) : \A j \in Segments(b) :
        LET d == Abs(Det(a[i], a[i + 1], b[j], b[j + 1]))
            k == IF d = 0 THEN 6 ELSE d
            c == Spread(a[i], a[i + 1], k) \cap Spread(b[j], b[j + 1], k)
        IN \A x \in c : \E e \in EndSet(a) \cap EndSet(b) : x = <<k * e[1], k * e[2]>>

Init == lines = <<>> /\ valid = TRUE /\ pairs = {}
(* Members in any order: only one order of each pair is explored, but the      *)
(* prediction is made for both.                                                *)
Next == /\ Len(lines) < Members
        /\ \E l \in Universe :
           LET bad == {i \in DOMAIN lines : ~Compatible(lines[i], l)} IN
           /\ lines' = Append(lines, l)
           /\ pairs' = pairs \cup {<<i, Len(lines) + 1>> : i \in bad}
           /\ valid' = (valid /\ l \in Good /\ bad = {})
        /\ Emit(<<Gives("g.valid", <<5, lines'>>, <<Bit(valid')>>),
                  Gives("g.simple", <<5, lines'>>, <<Bit(valid'), Bit(valid'), Bit(valid'), 0>>)>>)
Spec == Init /\ [][Next]_vars

Agrees == valid = MultiLineValid(lines)
Twice == Len(lines) = 2 => LinesMeetOK(lines[1], lines[2]) = LinesMeetOK(lines[2], lines[1])
(* A line does not go with itself, unless it is one segment long... not even then. *)
NotItself == valid => \A i, j \in DOMAIN lines : i < j /\ lines[i] = lines[j] => lines[i] = <<>>
=============================================================================
