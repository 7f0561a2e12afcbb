------------------------------- MODULE MC_Draw -------------------------------
(* Lines are drawn position by position.  A valid line goes on by one more      *)
(* position of the grid, whatever it is; then it is valid only if the new       *)
(* segment fits (an incremental check), which has to agree with the definition  *)
(* of a simple curve.  Every line reached, valid or not, is a prediction.       *)
EXTENDS Shapes, Emit, TLC

CONSTANTS W, H, MaxPositions
VARIABLES line, valid
vars == <<line, valid>>
G == GridOf(W, H)

Init == line = <<>> /\ valid = TRUE
(* May another position follow?  The empty line is valid, but one position is  *)
(* not; a closed line can't go on.                                              *)
Draws == Len(line) < MaxPositions /\ (valid \/ Len(line) = 1)
Next == Draws /\ \E p \in G :
    LET ext == Append(line, p) IN
    /\ line' = ext
    /\ valid' = (Len(ext) >= 2 /\ Fits(line, p))
    /\ Emit(CASE What = "valid" -> <<Gives("g.valid", <<2, ext>>, <<Bit(valid')>>),
                  Gives("g.simple", <<2, ext>>,
                        <<Bit(valid'), Bit(valid'), Bit(valid'),
                          Bit(valid' /\ Len(ext) > 3 /\ ext[1] = ext[Len(ext)])>>)>>
              [] What = "ends" -> <<Gives("g.bnd", <<2, ext>>,
                        LET b == IF ext[1] = ext[Len(ext)] /\ Len(ext) > 3 THEN <<0, <<>>>>
                                 ELSE <<4, SortTwo(ext[1], ext[Len(ext)])>>
                        IN <<b, b, 1>>)>>)
Spec == Init /\ [][Next]_vars

(* The incremental check is the definition. *)
Agrees == line # <<>> => valid = LineValid(line)
(* What is valid backwards is what is valid. *)
Backwards == LineValid(Reversed(line)) = LineValid(line)
(* Comparing the monotone runs of a line only is comparing all of its segments. *)
Runs == Len(line) >= 2 => SimpleByRuns(line) = SimpleByPairs(line)
(* Repeating a position, or going back, is never valid; a closed line ends. *)
NoRepeats == valid => \A i, j \in DOMAIN line : i < j /\ line[i] = line[j] => i = 1 /\ j = Len(line)
Transposed == [i \in DOMAIN line |-> <<line[i][2], line[i][1]>>]
AxesAlike == LineValid(Transposed) = LineValid(line)
=============================================================================
