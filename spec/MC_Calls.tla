-------------------------------- MODULE MC_Calls --------------------------------
(* Single calls with every input of a small universe.  Inputs grow: a position,    *)
(* line, or list gets longer by one thing at a time; for what is asked of it there *)
(* is a value kept up to date on the way (acc), or a law, that the outcome which   *)
(* the specification (Api) gives has to agree with.                                *)
EXTENDS Api, Shapes, Emit, TLC

CONSTANTS Size,     \* how long the input gets
          Values    \* of coordinates
VARIABLES in,       \* the input that grows
          acc       \* what is known about it
vars == <<in, acc>>
(* (values of the constants) *)
Odd5 == {0, 1, NAN, PINF, NZERO}
Odd6 == {0, 1, -2, NAN, PINF, NINF, NZERO}
Zero2 == {0, 1, 2}
Zero3 == {0, 1, 2, 3}
ZeroOne == {0, 1}
Codes4 == {0, 14, 15, 9000}
Codes8 == {0, 1, 2, 10, 14, 15, 9000, 9001}

P == Values \X Values
Call(op, x) == Gives(op, x, Expected(EmptyStore, op, x))
Grows(u) == \E x \in u : in' = Append(in, x)
All(es) == Emit(FlattenSeq(es))

(* ---- orientation: three positions ---------------------------------------------- *)
OnByParts(p, a, b) == \E k \in 0..12 : /\ 12 * p[1] = 12 * a[1] + k * (b[1] - a[1])
                                       /\ 12 * p[2] = 12 * a[2] + k * (b[2] - a[2])
Loc == /\ Len(in) < 3 /\ Grows(P) /\ UNCHANGED acc
       /\ Len(in') = 3 => LET p == in'[1] q == in'[2] r == in'[3] IN
            All(<< <<Call("seg.loc", <<p \o q, r>>), Call("tri", <<p, q, r>>)>>,
                   IF r = p THEN <<Call("seg.det", p \o q)>> ELSE <<>> >>)
LocLaws == Len(in) = 3 =>
    LET p == in[1] q == in[2] r == in[3] o == Orient(p, q, r) IN
    /\ Orient(q, r, p) = o /\ Orient(r, p, q) = o
    /\ Orient(q, p, r) = -o /\ Orient(p, r, q) = -o
    /\ OnSegment(r, p, q) = OnByParts(r, p, q)
    /\ OnSegment(r, p, q) = OnSegment(r, q, p)
    /\ SignedArea2(p, q, r) = SignedArea2(q, r, p) /\ SignedArea2(p, q, r) = -SignedArea2(q, p, r)
    (* the sum over the sides *)
    /\ SignedArea2(p, q, r) = Cross(<<0, 0>>, p, q) + Cross(<<0, 0>>, q, r) + Cross(<<0, 0>>, r, p)

(* ---- multi-points: acc is the sorted list of distinct finite points -------------- *)
RECURSIVE InsertInto(_, _)
InsertInto(s, p) == IF s = <<>> THEN <<p>>
                    ELSE IF s[1] = p THEN s
                    ELSE IF LexLess(p, s[1]) THEN <<p>> \o s
                    ELSE <<s[1]>> \o InsertInto(Tail(s), p)
Points == /\ Len(in) < Size /\ Grows(P)
          /\ acc' = LET p == in'[Len(in')] IN IF FinitePos(p) THEN InsertInto(acc, NormPos(p)) ELSE acc
          /\ LET ok == Bit(Len(acc') = Len(in'))
                 s == IF acc' = <<>> THEN <<0, <<>>>> ELSE <<4, acc'>>
             IN Emit(<<Gives("mp.simple", <<in'>>, <<ok, s, 1, Len(in'), NormAll(in')>>),
                       Gives("g.valid", <<4, in'>>, <<ok>>),
                       Call("mp.has", <<in', in'[1]>>), Call("mp.has", <<in', <<0, 0>>>>), Call("mp.has", <<in', <<1, NAN>>>>)>>)
PointsLaws == What = "points" =>
    /\ Simplified(in) = IF acc = <<>> THEN <<0, <<>>>> ELSE <<4, acc>>
    /\ MultiPointValid(in) = (Len(acc) = Len(in))
    /\ MultiPointValid(in) = (AllFinite(in) /\ \A j \in DOMAIN in : \A i \in 1..(j - 1) : ~SamePos(in[i], in[j]))
    /\ Simplified(Reversed(in)) = Simplified(in)
    /\ Simplified(acc) = Simplified(in) /\ MultiPointValid(acc)

(* ---- accessors: a geometry's parts grow; acc is the set of its positions' boxes --- *)
Ring(x) == << <<x, 0>>, <<x + 2, 0>>, <<x, 2>>, <<x, 0>> >>
Little == << <<0, 0>>, <<1, 0>>, <<0, 1>>, <<0, 0>> >>
Asked(t, d) == <<Call("g.info", <<t, d>>), Call("g.bnd", <<t, d>>)>>
Infos ==
    /\ in = <<>> \/ Len(in) < Size
    /\ \E x \in P \cup {<<-2, <<>>>>, <<-2, << <<1, 2>> >>>>, <<-2, << <<3, 3>>, <<4, 7>> >>>>, <<-2, Ring(5)>>,
                        <<-3, <<>>>>, <<-3, << <<>> >>>>, <<-3, <<Ring(1)>>>>, <<-3, <<Ring(1), Little>>>>, <<-3, <<Ring(9), Ring(1), Little>>>>} :
        LET kind(y) == IF y[1] = -2 THEN 2 ELSE IF y[1] = -3 THEN 3 ELSE 1
            same == \A i \in DOMAIN in : kind(in[i]) = kind(x)
        IN /\ same
           /\ in' = Append(in, x)
           /\ acc' = acc \cup (CASE kind(x) = 1 -> {PosEnv(x)}
                                 [] kind(x) = 2 -> {PosEnv(x[2][i]) : i \in DOMAIN x[2]}
                                 [] kind(x) = 3 -> IF x[2] = <<>> THEN {} ELSE {PosEnv(x[2][1][i]) : i \in DOMAIN x[2][1]})
           /\ LET ds == IF kind(x) = 1 THEN in' ELSE [i \in DOMAIN in' |-> in'[i][2]] IN
              CASE kind(x) = 1 -> All(<<Asked(4, ds), IF FinitePos(x) THEN Asked(2, ds) ELSE <<Call("g.info", <<2, ds>>)>>,
                                        IF Len(ds) = 1 THEN Asked(1, x) \o Asked(0, <<>>) \o Asked(4, <<>>) \o Asked(5, <<>>) \o Asked(6, <<>>) ELSE <<>> >>)
                [] kind(x) = 2 -> All(<<Asked(5, ds), IF Len(ds) = 1 THEN Asked(2, ds[1]) ELSE <<>> >>)
                [] kind(x) = 3 -> All(<<Asked(6, ds), IF Len(ds) = 1 THEN Asked(3, ds[1]) ELSE <<>> >>)
InfosLaws == What = "infos" /\ in # <<>> =>
    LET kind == IF in[1][1] = -2 THEN 2 ELSE IF in[1][1] = -3 THEN 3 ELSE 1
        ds == IF kind = 1 THEN in ELSE [i \in DOMAIN in |-> in[i][2]]
        t == CASE kind = 1 -> 4 [] kind = 2 -> 5 [] kind = 3 -> 6
    IN /\ GeomEnv(t, ds) = SmallestBox(acc)
       /\ GeomEmpty(t, ds) = (acc = {})
       /\ kind = 1 => GeomEnv(2, ds) = SmallestBox(acc)

(* ---- validation of arbitrary coordinates: the codes of floats ---------------------- *)
Totals == /\ Len(in) < Size /\ Grows(P) /\ UNCHANGED acc
          /\ LET l == in'
                 ring == Append(l, l[1])
                 T(t, d) == Asks("tot", <<t, d>>)
                 sq == << <<0, 0>>, <<2, 0>>, <<2, 2>>, <<0, 2>>, <<0, 0>> >>
             IN Emit(<<T(2, l), T(4, l)>>
                     \o (IF Len(l) = 1 THEN <<T(1, l[1])>> ELSE <<T(5, <<l, Reversed(l)>>)>>)
                     \o (IF Len(l) < 3 THEN <<T(3, <<l>>)>>
                         ELSE <<T(2, ring), T(3, <<ring>>), T(3, <<sq, ring>>), T(6, << <<sq>>, <<ring>> >>),
                                T(3, <<ring, Rotated(ring, 1)>>)>>))

(* ---- lengths: acc is bounds of the length so far ------------------------------------ *)
Lengths == /\ Len(in) < Size /\ Grows(P)
           /\ acc' = IF in = <<>> THEN <<0, 0>>
                     ELSE LET b == Root(Length2(in[Len(in)], in'[Len(in')])) IN <<acc[1] + b[1], acc[2] + b[2]>>
           /\ Emit(<<Asks("len.ls", <<in'>>), Asks("len.ls", <<Reversed(in')>>),
                     Asks("len.mls", <<<<in', <<>>, Moved(in', 3, -1)>>>>)>>
                   \o (IF Len(in') = 2 THEN <<Asks("seg.info", <<in'[1] \o in'[2]>>)>> ELSE <<>>))
LengthsLaws == What = "lengths" /\ in # <<>> =>
    /\ LengthBounds(in) = acc
    /\ LengthBounds(Reversed(in)) = acc /\ LengthBounds(Moved(in, 7, -5)) = acc
    /\ acc[1] <= acc[2] /\ acc[2] - acc[1] <= Len(in)
    /\ Len(in) = 2 => LET n == Length2(in[1], in[2]) IN acc[1] * acc[1] <= 65536 * n /\ 65536 * n <= acc[2] * acc[2]
    (* no shortcut is longer *)
    /\ Root(Length2(in[1], in[Len(in)]))[1] <= acc[2]

(* ---- positions: two of them --------------------------------------------------------- *)
Pairs == /\ Len(in) < 2 /\ Grows(P) /\ UNCHANGED acc
         /\ LET p == in'[1] IN
            IF Len(in') = 1 THEN Emit(<<Call("pos.one", <<p>>)>>)
            ELSE LET q == in'[2] IN
                 All(<< <<Call("pos.mm", <<p, q>>)>>,
                        IF FinitePos(p) /\ FinitePos(q)
                        THEN LET f(a) == <<3 * Norm(a[1]) - 1, Norm(a[2]) + 2>>
                             IN [k \in 1..3 |-> Call("pos.bin", <<f(p), f(q), <<-2, 1, 5>>[k]>>)]
                        ELSE <<>> >>)
PairsLaws == What = "pairs" /\ Len(in) = 2 =>
    LET p == in[1] q == in[2]
        x == Expected(EmptyStore, "pos.mm", <<p, q>>)
        y == Expected(EmptyStore, "pos.mm", <<q, p>>)
        both(S) == S \ {NAN}
        same(k) == k \notin {8, 9}
    IN /\ \A k \in DOMAIN x : same(k) => x[k] = y[k]
       (* the order: one of less, same, greater, unless NaN decides *)
       /\ x[8] = y[9] /\ x[9] = y[8] /\ (x[8] = 2) = (x[6] = 1)
       /\ (x[8] = 0) = (x[9] = 0) /\ (x[8] # 0 => x[8] + x[9] = 4)
       /\ (FinitePos(p) /\ FinitePos(q)) => (x[8] = 1) = LexLess(NormPos(p), NormPos(q))
       /\ x[10] = <<>> \/ x[10] = <<x[6]>>
       /\ \A i \in {1, 2} : LET S == both({Norm(p[i]), Norm(q[i])}) IN
            IF S = {} THEN x[1][i] = NAN /\ x[2][i] = NAN
            ELSE /\ x[1][i] \in S /\ x[2][i] \in S
                 /\ \A a \in S : x[1][i] <= a /\ a <= x[2][i]

(* ---- lines: acc is the list of segments --------------------------------------------- *)
Lines == /\ Len(in) < Size /\ Grows(P)
         /\ acc' = IF in = <<>> THEN <<>> ELSE Append(acc, in[Len(in)] \o in'[Len(in')])
         /\ LET n == Len(in') IN
            All(<<[k \in 1..5 |-> Call("ls.views", <<k - 1, in'>>)],
                  << Call("ls.index", <<in', <<0, 0, 0, 0>>>>), Call("ls.index", <<in', <<1, 0, 1, 2>>>>),
                     Call("ls.index", <<in', <<>>>>), Call("ls.index", <<in', <<2, 2, 9, 9>>>>),
                     Call("mls.closed", <<<<in'>>>>), Call("mls.closed", <<<<Little, in'>>>>),
                     Call("mls.closed", <<<<in', Little>>>>)>>,
                  IF n > 1 THEN <<>>
                  ELSE <<Call("ls.views", <<0, <<>>>>), Call("ls.views", <<4, <<>>>>), Call("mls.closed", << <<>> >>),
                         Call("mls.closed", <<<< <<>> >>>>), Call("ls.index", << <<>>, <<0, 0, 1, 1>>>>)>> >>)
LinesLaws == What = "lines" /\ in # <<>> =>
    /\ SegsOf(in) = acc
    /\ \A i \in DOMAIN acc : i > 1 => SubSeq(acc[i], 1, 2) = SubSeq(acc[i - 1], 3, 4)
    /\ BoxOf(in) = SmallestBox({PosEnv(in[i]) : i \in DOMAIN in})
    /\ LET hits(q) == {i \in DOMAIN acc : Meets(EnvOf2(acc[i][1], acc[i][2], acc[i][3], acc[i][4]), q)}
       IN \A q \in {<<0, 0, 0, 0>>, <<1, 0, 1, 2>>, <<>>} :
            SeqRange(Expected(EmptyStore, "ls.index", <<in, q>>)) = {i - 1 : i \in hits(q)}

(* ---- conversions: acc is the list of all numbers ------------------------------------- *)
RECURSIVE Flat(_, _)
Flat(depth, x) == IF depth = 0 THEN x ELSE FlattenSeq([i \in DOMAIN x |-> Flat(depth - 1, x[i])])
Halves(l, k) == <<SubSeq(l, 1, k), SubSeq(l, k + 1, Len(l))>>
Conv(kind, d) == [h \in 1..4 |-> Call("conv", <<h - 1, kind, d>>)]
Converts == /\ Len(in) < Size /\ Grows(P)
            /\ acc' = acc \o NormPos(in'[Len(in')])
            /\ LET n == Len(in') IN
               All(<<Conv(2, in'), Conv(3, in'), Conv(4, in'),
                     Conv(5, <<in'>>), Conv(6, <<in'>>),
                     Conv(5, Halves(in', n \div 2)), Conv(6, Halves(in', n \div 2)), Conv(5, Halves(in', n) \o <<in'>>),
                     IF n = 1 THEN Conv(1, in'[1]) \o Conv(5, <<>>) \o Conv(6, <<>>) \o Conv(2, <<>>) \o Conv(3, <<>>) \o Conv(4, <<>>) ELSE <<>>,
                     IF n = 2 THEN Conv(7, in') ELSE <<>>, IF n = 3 THEN Conv(8, in') ELSE <<>> >>)
ConvertsLaws == What = "converts" /\ in # <<>> =>
    /\ \A k \in {2, 4} : Flat(1, Converted(k, in)[2]) = acc
    /\ Flat(2, Converted(3, in)[2]) = acc
    /\ \A k \in 0..Len(in) : /\ Flat(2, Converted(5, Halves(in, k))[2]) = acc
                             /\ Flat(3, Converted(6, Halves(in, k))[2]) = acc
                             /\ Len(Converted(5, Halves(in, k))[2]) = 2

Init == in = <<>> /\ acc = IF What = "infos" THEN {} ELSE <<>>
Next == CASE What = "loc" -> Loc
          [] What = "points" -> Points
          [] What = "infos" -> Infos
          [] What = "totals" -> Totals
          [] What = "lengths" -> Lengths
          [] What = "pairs" -> Pairs
          [] What = "lines" -> Lines
          [] What = "converts" -> Converts
Spec == Init /\ [][Next]_vars
LocRight == What = "loc" => LocLaws
=============================================================================
