--------------------------------- MODULE Wkt ---------------------------------
(* Well-known text, as a sequence of tokens:                                 *)
(* -1 "("  -2 ")"  -3 ","  -4 EMPTY                                           *)
(* -11..-16 POINT LINESTRING POLYGON MULTIPOINT MULTILINESTRING MULTIPOLYGON  *)
(* -17 GEOMETRYCOLLECTION  -20, -22, -23 other words                          *)
(* -21, -24, -25, -26 unreadable text;  n >= 0 a number                       *)
EXTENDS Ext

Open == -1
Close == -2
Comma == -3
EMPTY == -4
IsNumber(t) == t >= 0
Unreadable(t) == t \in {-21, -24, -25, -26}
Tok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE -99

(* A parse is <<ok, value, position of the next token>>. *)
Fail == <<FALSE, <<>>, 0>>
Pair(ts, i) == IF IsNumber(Tok(ts, i)) /\ IsNumber(Tok(ts, i + 1))
               THEN <<TRUE, <<ts[i], ts[i + 1]>>, i + 2>> ELSE Fail

(* Nesting: what is inside the parentheses of each kind of text.             *)
(* 0 one position, 1 positions, 2 parenthesised lists of positions, 3 of      *)
(* those, 4 parenthesised positions                                           *)
RECURSIVE Inside(_, _, _), Parens(_, _, _), More(_, _, _, _)
One(ts, i, kind) == CASE kind = 1 -> Pair(ts, i)
                      [] kind = 2 -> Parens(ts, i, 1)
                      [] kind = 3 -> Parens(ts, i, 2)
                      [] kind = 4 -> Parens(ts, i, 0)
More(ts, i, kind, acc) ==
    LET r == One(ts, i, kind)
    IN IF ~r[1] THEN Fail
       ELSE IF Tok(ts, r[3]) = Comma THEN More(ts, r[3] + 1, kind, Append(acc, r[2]))
       ELSE <<TRUE, Append(acc, r[2]), r[3]>>
Inside(ts, i, kind) == IF kind = 0 THEN Pair(ts, i) ELSE More(ts, i, kind, <<>>)
Parens(ts, i, kind) ==
    IF Tok(ts, i) = EMPTY THEN <<TRUE, <<>>, i + 1>>
    ELSE IF Tok(ts, i) # Open THEN Fail
    ELSE LET r == Inside(ts, i + 1, kind)
         IN IF r[1] /\ Tok(ts, r[3]) = Close THEN <<TRUE, r[2], r[3] + 1>> ELSE Fail

(* <<0, <<>>>> is an error, <<1, geometries>> a result. *)
Err == <<0, <<>>>>
Ok(gs) == <<1, gs>>
NonEmpty(xs) == SelectSeq(xs, LAMBDA x : x # <<>>)
Parse(ts) ==
    IF ts = <<>> \/ Unreadable(ts[1]) THEN Ok(<<>>)
    ELSE CASE ts[1] = -11 -> LET r == Parens(ts, 2, 0) IN
                IF ~r[1] THEN Err ELSE IF r[2] = <<>> THEN Ok(<< <<0, <<>>>> >>) ELSE Ok(<< <<1, r[2]>> >>)
           [] ts[1] = -12 -> LET r == Parens(ts, 2, 1) IN IF ~r[1] THEN Err ELSE Ok(<< <<2, r[2]>> >>)
           [] ts[1] = -13 -> LET r == Parens(ts, 2, 2) IN
                IF ~r[1] THEN Err ELSE IF r[2] = <<>> THEN Ok(<< <<0, <<>>>> >>) ELSE Ok(<< <<3, r[2]>> >>)
           [] ts[1] = -14 -> LET r == Parens(ts, 2, 4) IN IF ~r[1] THEN Err ELSE Ok(<< <<4, NonEmpty(r[2])>> >>)
           [] ts[1] = -15 -> LET r == Parens(ts, 2, 2) IN IF ~r[1] THEN Err ELSE Ok(<< <<5, r[2]>> >>)
           [] ts[1] = -16 -> LET r == Parens(ts, 2, 3) IN IF ~r[1] THEN Err ELSE Ok(<< <<6, NonEmpty(r[2])>> >>)
           [] OTHER -> Err
=============================================================================
