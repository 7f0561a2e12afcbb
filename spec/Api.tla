--------------------------------- MODULE Api ---------------------------------
(* The library as a state machine: a session holds two indexes, four planar  *)
(* and four linear envelopes, and four geometries; every call has an input and an outcome, a       *)
(* status and an output.  Explains says which outcomes the specification      *)
(* allows in a state, After what the state is afterwards.                     *)
EXTENDS Index, Measure, Wkt, Linear, Geoms

NoTree == [envs |-> <<>>, degree |-> 0, sorted |-> 0]
EmptyStore == [trees |-> <<NoTree, NoTree>>,
               envs |-> <<EmptyEnv, EmptyEnv, EmptyEnv, EmptyEnv>>,
               lenvs |-> <<EmptyI, EmptyI, EmptyI, EmptyI>>,
               geoms |-> <<NoGeom, NoGeom, NoGeom, NoGeom>>]

NormBox(a) == <<Norm(a[1]), Norm(a[2]), Norm(a[3]), Norm(a[4])>>
SegP(s) == <<s[1], s[2]>>
SegQ(s) == <<s[3], s[4]>>
NormSeg(s) == NormBox(s)
SegsOf(ps) == [i \in 1..Max(0, Len(ps) - 1) |-> NormPos(ps[i]) \o NormPos(ps[i + 1])]
Optional(b, x) == IF b THEN x ELSE <<>>

(* ---- effects ---------------------------------------------------------------- *)
NewEnv(st, op, in) ==
    CASE op = "env.new" -> EnvOf2(in[2], in[3], in[4], in[5])
      [] op = "env.lit" -> IF Len(in) = 1 THEN <<>> ELSE NormBox(<<in[2], in[3], in[4], in[5]>>)
      [] op = "env.of" -> Union(Envs(in[2], in[3]))
      [] op = "env.expand" -> Merge(st.envs[in[1] + 1], ItemEnv(in[2], in[3]))
      [] op = "env.merge" -> Merge(st.envs[in[1] + 1], st.envs[in[2] + 1])
      [] op = "env.add" -> Merge(st.envs[in[1] + 1], ItemEnv(in[2], in[3]))
      [] op = "env.buffer" -> Buffer(st.envs[in[1] + 1], in[2])
NewLenv(st, op, in) ==
    CASE op = "lin.new" -> IntervalOf2(in[2], in[3])
      [] op = "lin.lit" -> IF Len(in) = 1 THEN <<>> ELSE <<Norm(in[2]), Norm(in[3])>>
      [] op = "lin.tuple" -> IntervalOf2(in[2], in[3])
      [] op = "lin.of" -> UnionI([i \in DOMAIN in[3] |-> ThingI(in[2], in[3][i])])
      [] op = "lin.expand" -> MergeI(st.lenvs[in[1] + 1], ThingI(in[2], in[3]))
      [] op = "lin.merge" -> MergeI(st.lenvs[in[1] + 1], st.lenvs[in[2] + 1])
EnvOps == {"env.new", "env.lit", "env.of", "env.expand", "env.merge", "env.add", "env.buffer"}
LenvOps == {"lin.new", "lin.lit", "lin.tuple", "lin.of", "lin.expand", "lin.merge"}
Target(op, in) ==
    1 + CASE op \in {"env.merge", "env.buffer", "lin.merge"} -> in[3]
          [] op = "env.add" -> in[4]
          [] OTHER -> in[1]
(* Geometries; what is wrapped or joined is gone. *)
GeoOps == {"geo.new", "geo.bnd", "geo.thin", "geo.hull", "geo.part", "geo.wrap", "geo.join"}
NewGeoms(st, op, in, out) ==
    LET gs == st.geoms
        g == gs[in[1] + 1]
    IN CASE op = "geo.new" -> [gs EXCEPT ![in[1] + 1] = <<in[3], NormData(in[3], in[4])>>]
         [] op = "geo.bnd" -> [gs EXCEPT ![in[2] + 1] = Boundary(g[1], g[2])]
         [] op = "geo.thin" -> IF g[1] = 4 THEN [gs EXCEPT ![in[2] + 1] = Simplified(g[2])] ELSE gs
         [] op = "geo.hull" -> [gs EXCEPT ![in[2] + 1] = <<2, out>>]
         [] op = "geo.part" -> [gs EXCEPT ![in[3] + 1] = Part(g, in[2])]
         [] op = "geo.wrap" -> [[gs EXCEPT ![in[1] + 1] = NoGeom] EXCEPT ![in[3] + 1] = Wrapped(g, in[2])]
         [] op = "geo.join" -> [[gs EXCEPT ![in[1] + 1] = NoGeom, ![in[2] + 1] = NoGeom]
                                EXCEPT ![in[4] + 1] = Joined(g, gs[in[2] + 1], in[3])]
After(st, op, in, out) ==
    IF op = "build"
    THEN [st EXCEPT !.trees[in[1] + 1] = [envs |-> Envs(in[2], in[5]), degree |-> in[4], sorted |-> in[3]]]
    ELSE IF op \in EnvOps THEN [st EXCEPT !.envs[Target(op, in)] = NewEnv(st, op, in)]
    ELSE IF op \in LenvOps THEN [st EXCEPT !.lenvs[Target(op, in)] = NewLenv(st, op, in)]
    ELSE IF op \in GeoOps THEN [st EXCEPT !.geoms = NewGeoms(st, op, in, out)]
    ELSE st

(* ---- outcomes that are determined -------------------------------------------- *)
(* Views of a line. *)
Views(ps) ==
    LET n == Len(ps) IN
    <<n, NormAll(ps),
      [i \in 1..(n + 2) |-> Optional(i <= n, NormPos(ps[Min(i, n)]))],
      IF n = 0 THEN << <<>>, <<>> >> ELSE <<NormPos(ps[1]), NormPos(ps[n])>>,
      SegsOf(ps), SegsOf(ps),
      <<Bit(IsClosed(ps)), Bit(n = 0)>>, BoxOf(ps)>>
LinePoint(s) == IF s = <<>> THEN <<>> ELSE <<Norm(s[1])>>

(* What a conversion from plain coordinates gives: kinds 1 to 6 geometries     *)
(* (polygons by their exterior alone), 7 a segment, 8 a triangle.              *)
Converted(kind, d) ==
    CASE kind = 3 -> <<3, <<NormAll(d)>>>>
      [] kind = 6 -> <<6, [i \in DOMAIN d |-> <<NormAll(d[i])>>]>>
      [] kind = 7 -> <<7, NormPos(d[1]) \o NormPos(d[2])>>
      [] kind = 8 -> <<8, NormAll(d)>>
      [] OTHER -> <<kind, NormData(kind, d)>>

Expected(st, op, in) ==
    IF op \in EnvOps THEN NewEnv(st, op, in)
    ELSE IF op \in LenvOps THEN NewLenv(st, op, in)
    ELSE
    CASE (* spatial index *)
         op = "build" -> <<>>
      [] op = "build.odd" -> <<1>>
      [] op = "range" -> RangeAnswer(st.trees[in[1] + 1].envs, ItemEnv(0, in[2]))
      [] op = "within" -> RangeAnswer(st.trees[in[1] + 1].envs, WithinBox(in[2], in[3], in[4]))
      [] op = "join" -> JoinAnswer(st.trees[in[1] + 1].envs, st.trees[in[2] + 1].envs)
         (* envelopes *)
      [] op = "env.ask" ->
            LET e == st.envs[in[1] + 1] IN
            IF e = <<>> THEN <<1, <<>>, <<>>, <<>>, 1, <<>>>>
            ELSE <<0, <<e[1], e[2]>>, <<e[3], e[4]>>, Center2(e), Bit(EnvValid(e)), e>>
      [] op = "env.rel" ->
            LET e == st.envs[in[1] + 1] f == st.envs[in[2] + 1]
            IN <<Bit(Covers(e, f)), Bit(Covers(f, e)), Bit(Meets(e, f)), Bit(Meets(f, e))>>
      [] op = "env.has" ->
            LET e == st.envs[in[1] + 1]
            IN <<Bit(Covers(e, PosEnv(in[2]))), Bit(Meets(e, PosEnv(in[2])))>>
         (* segments, triangles *)
      [] op = "seg.loc" ->
            LET p == SegP(in[1]) q == SegQ(in[1])
            IN <<Orient(p, q, in[2]), Bit(OnSegment(in[2], p, q))>>
      [] op = "seg.det" -> <<in[1] * in[4] - in[2] * in[3]>>
      [] op = "tri" -> <<SignedArea2(in[1], in[2], in[3]), Abs(SignedArea2(in[1], in[2], in[3])), in>>
         (* geometries *)
      [] op = "g.valid" -> <<Bit(Valid(in[1], in[2]))>>
      [] op = "g.simple" ->
            LET v == Bit(Valid(in[1], in[2]))
            IN <<v, v, v, IF in[1] = 2 /\ IsClosed(in[2]) THEN v ELSE 0>>
      [] op = "g.bnd" -> LET b == Boundary(in[1], NormData(in[1], in[2]))
            IN <<b, b, Bit(b[1] # 5 \/ Boundary(5, b[2]) = <<0, <<>>>>)>>
      [] op = "g.info" ->
            LET t == in[1]
                d == NormData(t, in[2])
                empty == GeomEmpty(t, d)
                info == <<t, Dimension(t), Bit(empty), GeomEnv(t, d)>>
            IN <<info, info,
                 [i \in 1..7 |-> IF i = 1 THEN Optional(empty, <<0, <<>>>>)
                                 ELSE Optional(i - 1 = t, <<t, d>>)]>>
      [] op = "mp.simple" ->
            LET ps == in[1]
            IN <<Bit(MultiPointValid(ps)), Simplified(ps), 1, Len(ps), NormAll(ps)>>
      [] op = "mp.has" -> <<Bit(\E i \in DOMAIN in[1] : SamePos(in[1][i], in[2]))>>
      [] op = "hull" -> <<1, Hull(SeqRange(in[1]))>>
      [] op = "ls.views" -> Views(in[2])
      [] op = "ls.index" -> RangeAnswer([i \in 1..Max(0, Len(in[1]) - 1) |-> BoxOf(<<in[1][i], in[1][i + 1]>>)],
                                        ItemEnv(0, in[2]))
      [] op = "conv" -> Converted(in[2], in[3])
      [] op = "mls.closed" -> <<Bit(\A i \in DOMAIN in[1] : IsClosed(in[1][i]))>>
      [] op \in GeoOps -> <<>>
      [] op = "geo.ask" -> Told(st.geoms[in[1] + 1])
         (* a geometry and another representation of it *)
      [] op = "rep" -> LET v == Bit(Valid(in[2], in[3])) IN <<v, v>>
         (* positions *)
      [] op = "pos.bin" ->
            LET p == in[1] q == in[2] s == in[3]
            IN <<<<p[1] + q[1], p[2] + q[2]>>, <<p[1] - q[1], p[2] - q[2]>>, <<p[1] * s, p[2] * s>>, p,
                 p[1] * q[1] + p[2] * q[2], p[1] * q[2] - p[2] * q[1]>>
      [] op = "pos.mm" ->
            LET p == in[1] q == in[2]
                lo == <<MinE(p[1], q[1]), MinE(p[2], q[2])>>
                hi == <<MaxE(p[1], q[1]), MaxE(p[2], q[2])>>
            IN <<lo, hi, lo, hi, <<lo[1], hi[1]>>, Bit(SamePos(p, q)), Bit(FinitePos(p) /\ FinitePos(q)),
                 OrderOf(p, q), OrderOf(q, p),
                 IF NAN \in {p[1], p[2], q[1], q[2]} THEN <<>> ELSE <<Bit(SamePos(p, q))>>, Bit(SamePos(p, q))>>
      [] op = "pos.one" ->
            LET p == NormPos(in[1])
                safe == ~IsNaN(p[1]) /\ ~IsNaN(p[2])
            IN <<Bit(FinitePos(p)), Bit(safe), Optional(safe, p), p, p, PosEnv(p), p, Bit(FinitePos(p))>>
         (* text *)
      [] op = "wkt" -> Parse(in[2])
         (* one dimension *)
      [] op = "lin.ask" ->
            LET u == st.lenvs[in[1] + 1] IN <<Bit(u = <<>>), Bit(IntervalValid(u)), u>>
      [] op = "lin.rel" ->
            LET u == st.lenvs[in[1] + 1] v == st.lenvs[in[2] + 1]
            IN <<Bit(CoversI(u, v)), Bit(CoversI(v, u)), Bit(MeetsI(u, v)), Bit(MeetsI(v, u))>>
      [] op = "lin.has" -> <<Bit(CoversI(st.lenvs[in[1] + 1], IntervalOf2(in[2], in[2])))>>
      [] op = "lin.pt" ->
            IF in = <<>> \/ IsNaN(in[1]) THEN <<1, <<>>, <<>>>>
            ELSE <<0, <<Norm(in[1])>>, <<Norm(in[1]), Norm(in[1])>>>>
      [] op = "lin.line" ->
            IF in = <<>> THEN <<1, <<>>, <<>>, <<>>>>
            ELSE <<0, <<Norm(in[1])>>, <<Norm(in[2])>>, IntervalOf2(in[1], in[2])>>
      [] op = "lin.mp" ->
            LET n == Len(in[1])
            IN <<n, [i \in 1..(n + 2) |-> IF i <= n THEN <<Norm(in[1][i])>> ELSE <<>>],
                 UnionI([i \in 1..n |-> ThingI(1, in[1][i])])>>
      [] op = "lin.ml" ->
            LET n == Len(in[1])
            IN <<Bit(n = 0),
                 [i \in 1..(n + 2) |-> IF i <= n THEN << <<Norm(in[1][i][1])>>, <<Norm(in[1][i][2])>> >> ELSE <<>>],
                 UnionI([i \in 1..n |-> ThingI(0, in[1][i])])>>
      [] op = "lin.seg" ->
            <<MinE(in[1], in[2]), MaxE(in[1], in[2]), Bit(IsFinite(in[1]) /\ IsFinite(in[2])),
              IntervalOf2(in[1], in[2]), <<Norm(in[1]), Norm(in[2])>>>>
      [] op = "lin.bin" -> <<in[1] + in[2], in[1] - in[2], in[1] * in[3], in[1]>>
      [] op = "lin.mm" -> LET a == MinE(in[1], in[2]) b == MaxE(in[1], in[2]) IN
            <<a, b, a, b, OrderOf(<<in[1], 0>>, <<in[2], 0>>), OrderOf(<<in[2], 0>>, <<in[1], 0>>)>>
      [] op = "lin.one" ->
            LET a == Norm(in[1])
            IN <<Bit(IsFinite(a)), Bit(~IsNaN(a)), Optional(~IsNaN(a), <<a>>), a, IntervalOf2(a, a)>>

(* ---- outcomes that are not -------------------------------------------------- *)
(* The outcome of an intersection of segments, up to rounding. *)
CrossOK(s, o, out) ==
    LET p == SegP(s) q == SegQ(s) r == SegP(o) t == SegQ(o)
        x == Intersection(p, q, r, t)
    IN IF x[1] # 3 THEN out = x
       ELSE /\ Len(out) = 3
            /\ \/ out[1] = 1 /\ LET c == <<out[2], out[3]>> IN OnSegment(c, p, q) /\ OnSegment(c, r, t)
               \/ /\ out[1] = 3
                  (* (not in integers, so not of segments as long as that) *)
                  /\ Abs(Cross(<<0, 0>>, <<q[1] - p[1], q[2] - p[2]>>, <<t[1] - r[1], t[2] - r[2]>>)) <= 50000
                  /\ LET c == CrossingPoint(p, q, r, t)
                     IN NearFixed(out[2], c[1], c[3]) /\ NearFixed(out[3], c[2], c[3])
(* Codes 9000 and above are of floats that are not finite. *)
TotalOK(t, d, out) ==
    /\ out \in {<<0>>, <<1>>}
    /\ (\E c \in Codes(Depth(t), d) : c \in 9000..9002) => out = <<0>>
(* A point on the surface of valid polygons, doubled: not outside of them.     *)
OnSurface2(m, p) ==
    \/ \E i \in DOMAIN p : \E j \in Segments(p[i]) :
          LET a == p[i][j] b == p[i][j + 1] IN OnSegment(m, <<2 * a[1], 2 * a[2]>>, <<2 * b[1], 2 * b[2]>>)
    \/ InPolygon2(m, p)
(* not outside of the box around the exterior, to begin with                   *)
Beyond2(m, p) ==
    \E k \in {1, 2} : \/ \A j \in DOMAIN p[1] : 2 * p[1][j][k] < m[k]
                      \/ \A j \in DOMAIN p[1] : 2 * p[1][j][k] > m[k]
SurfaceOK(t, d, out) ==
    LET ps == IF t = 3 THEN <<d>> ELSE d
    IN IF \A i \in DOMAIN ps : PolyEmpty(ps[i]) THEN out = <<>>
       ELSE Len(out) = 2
            /\ \E i \in DOMAIN ps : ~PolyEmpty(ps[i]) /\ ~Beyond2(out, ps[i]) /\ OnSurface2(out, ps[i])
Relational == {"self", "geo.hull", "geo.surf", "geo.eq", "g.surf", "seg.x", "seg.info", "len.ls", "len.mls", "tot", "walk", "order"}
Related(st, op, in, out) ==
    CASE op = "seg.x" -> CrossOK(in[1], in[2], out)
      [] op = "seg.info" ->
            LET p == SegP(in[1]) q == SegQ(in[1]) IN
            /\ Len(out) = 4
            /\ out[1] = EnvOf2(p[1], p[2], q[1], q[2])
            /\ out[2] = 1
            /\ out[3] = Length2(p, q)
            /\ Within(out[4], Root(Length2(p, q)))
      [] op = "geo.hull" -> HullOK(st.geoms[in[1] + 1][2], out)
      [] op = "geo.eq" -> SameOK(st.geoms[in[1] + 1], st.geoms[in[2] + 1], out)
      [] op = "geo.surf" -> LET g == st.geoms[in[1] + 1] IN SurfaceOK(g[1], g[2], out)
      [] op = "g.surf" -> SurfaceOK(in[1], in[2], out)
      [] op = "len.ls" -> Within(out[1], LengthBounds(in[1]))
      [] op = "len.mls" -> Within(out[1], LengthsBounds(in[1]))
      [] op = "tot" -> TotalOK(in[1], in[2], out)
      [] op = "self" -> SelfOK(st.trees[in[1] + 1].envs, out)
      [] op = "walk" ->
            LET t == st.trees[in[1] + 1]
            IN TreeOK(t.envs, t.degree, out[1]) /\ out[2] = Union(t.envs)
      [] op = "order" -> LET t == st.trees[in[1] + 1] IN OrderOK(t.envs, t.sorted, out)

(* No call panics. *)
Explains(st, op, in, status, out) ==
    /\ status = 0
    /\ IF op \in Relational THEN Related(st, op, in, out) ELSE out = Expected(st, op, in)
=============================================================================
