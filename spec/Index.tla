-------------------------------- MODULE Index --------------------------------
(* The spatial index: what its queries have to answer, and its design, a     *)
(* packed tree of fixed degree.                                              *)
EXTENDS Regions, Hilbert

Nums(n) == [i \in 1..n |-> i]

(* ---- items ---------------------------------------------------------------- *)
(* kinds: 0 envelope, 1 position, 2 segment, 3 line, 4 geometry, 5 point,     *)
(* 6 polygon, 7 multi-point, 8 multi-line, 9 multi-polygon                    *)
ItemEnv(kind, x) ==
    CASE kind = 0 -> IF x = <<>> THEN EmptyEnv ELSE EnvOf2(x[1], x[2], x[3], x[4])
      [] kind = 1 -> PosEnv(x)
      [] kind = 2 -> EnvOf2(x[1], x[2], x[3], x[4])
      [] kind = 3 -> BoxOf(x)
      [] kind = 4 -> GeomEnv(x[1], x[2])
      [] kind = 5 -> PosEnv(x)
      [] kind = 6 -> GeomEnv(3, x)
      [] kind = 7 -> BoxOf(x)
      [] kind = 8 -> GeomEnv(5, x)
      [] kind = 9 -> GeomEnv(6, x)
Envs(kind, xs) == [i \in DOMAIN xs |-> ItemEnv(kind, xs[i])]

(* ---- answers, in terms of the items' envelopes ----------------------------- *)
Below(n) == [i \in 1..n |-> i - 1]
RangeAnswer(envs, q) == SelectSeq(Below(Len(envs)), LAMBDA i : Meets(envs[i + 1], q))
WithinBox(x, y, d) == EnvOf2(AddE(x, NegE(d)), AddE(y, NegE(d)), AddE(x, d), AddE(y, d))
Row(i, e, fs, from) == LET js == SelectSeq(Below(Len(fs)), LAMBDA j : j >= from /\ Meets(e, fs[j + 1]))
                       IN [k \in 1..Len(js) |-> <<i, js[k]>>]
JoinAnswer(es, fs) == FlattenSeq([i \in 1..Len(es) |-> Row(i - 1, es[i], fs, 0)])
SelfAnswer(es) == FlattenSeq([i \in 1..Len(es) |-> Row(i - 1, es[i], es, i)])

(* Of many items that are positions, counting suffices: the pairs that are equal. *)
PairsOfEqual(es) ==
    LET less(a, b) == LexLess(a[1], b[1]) \/ (a[1] = b[1] /\ a[2] < b[2])
        order == SetToSortSeq({<<es[i], i>> : i \in DOMAIN es}, less)
    IN FoldLeft(LAMBDA acc, i : LET run == IF i > 1 /\ order[i][1] = order[i - 1][1] THEN acc[1] + 1 ELSE 0
                                IN <<run, acc[2] + run>>, <<0, 0>>, Nums(Len(es)))[2]
AllPositions(es) == \A i \in DOMAIN es : es[i] # <<>> /\ FinitePos(es[i])
                                        /\ es[i][1] = es[i][3] /\ es[i][2] = es[i][4]
SelfByCount(es, out) ==
    /\ \A i \in 2..Len(out) : LexLess(out[i - 1], out[i])
    /\ \A i \in DOMAIN out : LET a == out[i][1] b == out[i][2]
                              IN 0 <= a /\ a < b /\ b < Len(es) /\ es[a + 1] = es[b + 1]
    /\ Len(out) = PairsOfEqual(es)
SelfOK(es, out) == IF Len(es) > 5000 /\ AllPositions(es) THEN SelfByCount(es, out) ELSE out = SelfAnswer(es)

(* ---- the tree, as seen by walking it ---------------------------------------- *)
(* A node is <<level, envelope, index, children>>; only leaves have an index.  *)
RECURSIVE LeavesOf(_)
LeavesOf(v) == IF v[1] = 0 THEN << <<v[3], v[2]>> >>
               ELSE FlattenSeq([i \in DOMAIN v[4] |-> LeavesOf(v[4][i])])
RECURSIVE NodeOK(_, _)
NodeOK(v, deg) ==
    IF v[1] = 0 THEN v[4] = <<>>
    ELSE /\ Len(v[4]) <= deg
         /\ v[2] = Union([i \in DOMAIN v[4] |-> v[4][i][2]])
         /\ \A i \in DOMAIN v[4] : v[4][i][1] = v[1] - 1 /\ NodeOK(v[4][i], deg)
TreeOK(envs, deg, v) ==
    /\ NodeOK(v, deg)
    /\ v[2] = Union(envs)
    /\ LET leaves == LeavesOf(v)
           n == Len(envs)
           items == SelectSeq(leaves, LAMBDA l : l[1] < n)
       IN /\ {items[i][1] : i \in DOMAIN items} = 0..(n - 1)
          /\ Len(items) = n
          /\ \A i \in DOMAIN leaves :
                leaves[i][2] = IF leaves[i][1] < n THEN envs[leaves[i][1] + 1] ELSE EmptyEnv

(* ---- the order of the leaves ------------------------------------------------ *)
OrderOK(envs, sorted, order) ==
    LET n == Len(envs)
        o == SelectSeq(order, LAMBDA i : i < n)
        t == Union(envs)
    IN /\ Len(o) = n /\ SeqRange(o) = 0..(n - 1)
       /\ sorted = 1 /\ Ordered(t) =>
            LET keys == Kept([i \in 1..n |-> Key(envs[o[i] + 1], t)])
            IN \A i \in 1..(n - 1) : KeyLeq(keys[i], keys[i + 1])

(* ---- the design -------------------------------------------------------------- *)
(* Levels are sequences of <<index, envelope>>, padded to a multiple of the    *)
(* degree; the children of node i (from 1) of a level are the nodes            *)
(* deg * (i - 1) + 1 .. deg * i of the level below.                            *)
Padded(level, deg) ==
    LET m == ((Len(level) + deg - 1) \div deg) * deg
    IN [i \in 1..m |-> IF i <= Len(level) THEN level[i] ELSE <<i - 1, EmptyEnv>>]
Parents(level, deg) ==
    [k \in 1..(Len(level) \div deg) |-> <<k - 1, Union([i \in 1..deg |-> level[deg * (k - 1) + i][2]])>>]
RECURSIVE Stack(_, _)
Stack(level, deg) ==
    IF Len(level) <= 1 THEN <<level>>
    ELSE LET p == Padded(level, deg) IN <<p>> \o Stack(Parents(p, deg), deg)
TreeOf(entries, deg) == IF entries = <<>> THEN << << <<0, EmptyEnv>> >> >> ELSE Stack(entries, deg)
Entries(envs) == [i \in DOMAIN envs |-> <<i - 1, envs[i]>>]
(* Nodes are <<level, position>>, both from 1. *)
RootOf(tree) == <<Len(tree), 1>>
Node(tree, v) == tree[v[1]][v[2]]
NodeEnv(tree, v) == Node(tree, v)[2]
Children(tree, v, deg) ==
    LET from == deg * (v[2] - 1)
        upto == Min(from + deg, Len(tree[v[1] - 1]))
    IN [i \in 1..Max(0, upto - from) |-> <<v[1] - 1, from + i>>]
RECURSIVE WalkFrom(_, _, _)
WalkFrom(tree, v, deg) ==
    <<v[1] - 1, NodeEnv(tree, v), IF v[1] = 1 THEN Node(tree, v)[1] ELSE -1,
      IF v[1] = 1 THEN <<>>
      ELSE LET cs == Children(tree, v, deg) IN [i \in DOMAIN cs |-> WalkFrom(tree, cs[i], deg)]>>
=============================================================================
