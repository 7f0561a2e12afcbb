------------------------------ MODULE MC_Index ------------------------------
(* The design of the spatial index, exhaustively for small indexes: the       *)
(* packed tree, and the searches through it, as machines that work off a set   *)
(* of nodes (or pairs of nodes) in any order.                                  *)
EXTENDS Index, TLC, IOUtils, CSV

CONSTANTS Universe,    \* envelopes the items may have
          Queries,     \* envelopes asked for
          MaxItems, MaxOther, Degrees
\* (values of the constants that are no numbers)
Envs3 == {<<>>, <<0, 0, 0, 0>>, <<0, 0, 1, 1>>, <<1, 1, 1, 1>>}
Envs4 == Envs3 \cup {<<2, 0, 2, 1>>}
Envs6 == Envs4 \cup {<<NAN, 0, NAN, 1>>}
Asked == {<<>>, <<0, 0, 0, 0>>, <<1, 0, 1, 1>>, <<2, 2, 3, 3>>}
Two == {2}
TwoFour == {2, 4}
What == IOEnv.WHAT

VARIABLES job,      \* "range", "self", "join", "walk"
          items,    \* envelopes of the items
          other,    \* those of the other index (join)
          query,
          deg,
          tree, tree2, \* the trees of the items, and of the others
          answer,   \* what to find
          todo,     \* nodes, or pairs of nodes, still to be looked at
          found,    \* results so far
          twice,    \* a result came up for the second time
          done
vars == <<job, items, other, query, deg, tree, tree2, answer, todo, found, twice, done>>

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Env1(v) == NodeEnv(tree, v)
Env2(v) == NodeEnv(tree2, v)
Index1(v) == Node(tree, v)[1]
Index2(v) == Node(tree2, v)[1]
IsLeaf(v) == v[1] = 1
Kids(v) == SeqRange(Children(tree, v, deg))
OtherKids(v) == SeqRange(Children(tree2, v, deg))
(* Nodes in the order of their storage: leaves first. *)
Before(v, w) == v[1] < w[1] \/ (v[1] = w[1] /\ v[2] <= w[2])

(* A set of work and results after these nodes (or pairs) are considered. *)
RangeSift(vs) == {v \in vs : Meets(Env1(v), query)}
SelfSift(ps) == {p \in ps : Before(p[1], p[2]) /\ Meets(Env1(p[1]), Env1(p[2]))}
JoinSift(ps) == {p \in ps : Meets(Env1(p[1]), Env2(p[2]))}

Init ==
    /\ job = What
    /\ items \in SeqsUpTo(Universe, MaxItems)
    /\ deg \in Degrees
    /\ other \in (IF job = "join" THEN SeqsUpTo(Universe, MaxOther) ELSE {<<>>})
    /\ query \in (IF job = "range" THEN Queries ELSE {<<>>})
    /\ tree = TreeOf(Entries(items), deg)
    /\ tree2 = TreeOf(Entries(other), deg)
    /\ answer = CASE job = "range" -> SeqRange(RangeAnswer(items, query))
                  [] job = "self" -> SeqRange(SelfAnswer(items))
                  [] job = "join" -> SeqRange(JoinAnswer(items, other))
                  [] job = "walk" -> {}
    /\ todo = CASE job = "range" -> RangeSift({RootOf(tree)})
                [] job = "self" -> SelfSift({<<RootOf(tree), RootOf(tree)>>})
                [] job = "join" -> JoinSift({<<RootOf(tree), RootOf(tree2)>>})
                [] job = "walk" -> {}
    /\ found = {}
    /\ twice = FALSE
    /\ done = FALSE

Yield(rs) == /\ found' = found \cup rs
             /\ twice' = (twice \/ rs \cap found # {})
Ordered2(i, j) == IF i <= j THEN <<i, j>> ELSE <<j, i>>

RangeStep ==
    /\ job = "range"
    /\ \E v \in todo :
        IF IsLeaf(v)
        THEN todo' = todo \ {v} /\ Yield({Index1(v)})
        ELSE todo' = (todo \ {v}) \cup RangeSift(Kids(v)) /\ Yield({})
SelfStep ==
    /\ job = "self"
    /\ \E p \in todo :
        IF IsLeaf(p[1])
        THEN /\ todo' = todo \ {p}
             /\ Yield(IF p[1] = p[2] THEN {} ELSE {Ordered2(Index1(p[1]), Index1(p[2]))})
        ELSE todo' = (todo \ {p}) \cup SelfSift(Kids(p[1]) \X Kids(p[2])) /\ Yield({})
JoinStep ==
    /\ job = "join"
    /\ \E p \in todo :
        IF IsLeaf(p[1]) /\ IsLeaf(p[2])
        THEN todo' = todo \ {p} /\ Yield({<<Index1(p[1]), Index2(p[2])>>})
        ELSE /\ todo' = (todo \ {p}) \cup
                    JoinSift(IF p[1][1] >= p[2][1] THEN Kids(p[1]) \X {p[2]} ELSE {p[1]} \X OtherKids(p[2]))
             /\ Yield({})

(* ---- what the machines have to achieve ------------------------------------- *)
(* The items under a node. *)
RECURSIVE Under(_, _, _)
Under(t, v, d) == IF v[1] = 1 THEN {Node(t, v)[1]}
                  ELSE UNION {Under(t, c, d) : c \in SeqRange(Children(t, v, d))}
(* The part of the answer that the work to do still leads to. *)
Ahead == CASE job = "range" -> {i \in answer : \E v \in todo : i \in Under(tree, v, deg)}
           [] job = "self" -> {a \in answer : \E p \in todo :
                                  \/ a[1] \in Under(tree, p[1], deg) /\ a[2] \in Under(tree, p[2], deg)
                                  \/ a[2] \in Under(tree, p[1], deg) /\ a[1] \in Under(tree, p[2], deg)}
           [] job = "join" -> {a \in answer : \E p \in todo : a[1] \in Under(tree, p[1], deg)
                                                         /\ a[2] \in Under(tree2, p[2], deg)}
           [] job = "walk" -> {}
NoMisses == found \cup Ahead = answer
NoExtras == found \subseteq answer
NoRepeats == ~twice
(* Self-joins only ever pair nodes of one level. *)
Level == job = "self" => \A p \in todo : p[1][1] = p[2][1]
(* The design is the tree that users see. *)
TreeRight == /\ TreeOK(items, deg, WalkFrom(tree, RootOf(tree), deg))
             /\ TreeOK(other, deg, WalkFrom(tree2, RootOf(tree2), deg))

(* ---- predicted sessions ----------------------------------------------------- *)
Build(h, es) == <<"build", <<h, 0, 0, deg, es>>, 0, <<>>>>
Sorted(S) == IF job = "range" THEN SetToSortSeq(S, LAMBDA a, b : a < b) ELSE SetToSortSeq(S, LexLess)
Predicted ==
    CASE job = "range" -> <<Build(0, items), <<"range", <<0, query>>, 0, Sorted(found)>>>>
      [] job = "self" -> <<Build(0, items), <<"self", <<0>>, 0, Sorted(found)>>>>
      [] job = "join" -> <<Build(0, items), Build(1, other), <<"join", <<0, 1>>, 0, Sorted(found)>>>>
      [] job = "walk" -> <<Build(0, items), <<"walk", <<0>>, 0, <<>>>>,
                           <<"build", <<1, 0, 1, deg, items>>, 0, <<>>>>, <<"walk", <<1>>, 0, <<>>>>>>
Finish ==
    /\ todo = {} /\ ~done
    /\ done' = TRUE
    /\ CSVWrite("%1$s", <<<< <<64, 0, 0, 0>>, Predicted >>>>, IOEnv.EMIT)
    /\ UNCHANGED <<job, items, other, query, deg, tree, tree2, answer, todo, found, twice>>
Next == \/ (RangeStep \/ SelfStep \/ JoinStep) /\ UNCHANGED <<job, items, other, query, deg, tree, tree2, answer, done>>
        \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* The equal pairs are as many as are counted. *)
Counted == done /\ job = "self" /\ AllPositions(items) =>
    /\ SelfByCount(items, Sorted(found))
    /\ \A a \in found : ~SelfByCount(items, Sorted(found \ {a}))
Complete == done => found = answer
Terminates == <>done
=============================================================================
