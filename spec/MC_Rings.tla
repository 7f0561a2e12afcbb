------------------------------- MODULE MC_Rings -------------------------------
(* Rings are drawn position by position, in whatever way: repeating, flat, going *)
(* back, crossing, left open.  Each of them is taken for a hole, a second hole,   *)
(* a shell, in polygons and in members of multi-polygons.  Alone in the shell,    *)
(* it has to be a ring, and no more; this is decided step by step here, and has   *)
(* to agree with the definition of a valid polygon.                               *)
EXTENDS Shapes, Emit, TLC

CONSTANTS W, H, MaxPositions
VARIABLES line, fits
vars == <<line, fits>>
G == GridOf(W, H)

Big == << <<-1, -1>>, <<20, -1>>, <<20, 9>>, <<-1, 9>>, <<-1, -1>> >>
Other == << <<12, 5>>, <<14, 5>>, <<13, 7>>, <<12, 5>> >>
Away == << <<30, 0>>, <<33, 0>>, <<33, 3>>, <<30, 0>> >>
Ring(l, f) == f /\ Len(l) >= 4 /\ l[1] = l[Len(l)]
V(t, d, v) == Gives("g.valid", <<t, d>>, <<Bit(v)>>)

Init == line = <<>> /\ fits = TRUE
Next == Len(line) < MaxPositions /\ \E p \in G :
    LET ext == Append(line, p)
        ok == fits /\ (line = <<>> \/ Fits(line, p))
        ring == Ring(ext, ok)
    IN
    /\ line' = ext
    /\ fits' = ok
    /\ IF Len(ext) < 2 THEN TRUE
       ELSE Emit(CASE What = "hole" ->
              <<V(3, <<Big, ext>>, ring), V(3, <<ext>>, ring), V(3, <<Big, Other, ext>>, ring),
                V(3, <<Big, ext, Other>>, ring), V(3, <<Big, ext, ext>>, FALSE), V(3, <<ext, ext>>, FALSE)>>
            [] What = "island" ->
              <<V(6, << <<Away>>, <<Big, ext>> >>, ring), V(6, << <<Big, Other, ext>>, <<Away>> >>, ring),
                V(6, << <<Away>>, <<ext>> >>, ring), V(6, << <<ext>>, <<Big, ext>> >>, FALSE)>>)
Spec == Init /\ [][Next]_vars

Agrees == Len(line) >= 2 =>
    LET ring == Ring(line, fits) IN
    /\ PolygonValid(<<Big, line>>) = ring
    /\ PolygonValid(<<line>>) = ring
    /\ PolygonValid(<<Big, Other, line>>) = ring
    /\ MultiPolygonValid(<< <<Away>>, <<Big, line>> >>) = ring
    /\ ~PolygonValid(<<Big, line, line>>) /\ ~PolygonValid(<<line, line>>)
(* Also backwards. *)
Backwards == Len(line) >= 2 => PolygonValid(<<Big, Reversed(line)>>) = Ring(line, fits)
=============================================================================
