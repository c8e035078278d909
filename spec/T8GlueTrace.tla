---------------------------- MODULE T8GlueTrace ----------------------------
(* Checks what real coarse meshes made from vertices look like against T8Glue. *)
EXTENDS T8Glue, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES w, i
vars == <<w, i>>

(* ----- joins from coordinates ----- *)
Half(m, conn, g, f) == conn[g + 1][f] # <<-1, -1, -1>>
DoJoin(e, h) ==
  LET m == e.m IN
  /\ Len(e.tr) = Len(m.cls)
  /\ \A g \in GTrees(m) : Len(e.tr[g + 1]) = Cardinality(GFaces(m, g))
  /\ \A g \in GTrees(m) : \A f \in GFaces(m, g) : FaceOK(m, g, f, e.tr[g + 1][f])
  /\ e.conn # <<>> =>
       \A g \in GTrees(m) : \A f \in GFaces(m, g) :
         LET c == e.conn[g + 1][f]  P == Partners(m, g, f) IN
         IF P = {} THEN c = <<-1, -1, -1>>
         ELSE LET p == CHOOSE p \in P : TRUE IN
              /\ c # <<-1, -1, -1>> => FaceOK(m, g, f, <<0>> \o c)
              /\ e.both = 1 => Half(m, e.conn, g, f)
              /\ e.both = 0 => Half(m, e.conn, g, f) # Half(m, e.conn, p[1], p[2])     \* exactly one of the two sides

(* ----- msh files ----- *)
MshTreeOK(m, file, t) ==
  LET g == t.g  ids == m.vid[g + 1]
      nd == [k \in 1..Len(ids) |-> FileNode(file, ids[k])] IN
  /\ g \in GTrees(m) /\ t.c = m.cls[g + 1]
  /\ t.x = [k \in 1..Len(ids) |-> nd[k].x]
  /\ t.nd = [k \in 1..Len(ids) |-> <<nd[k].ed, nd[k].et>>]
  /\ Len(t.uv) = Len(ids)
  /\ \A k \in 1..Len(ids) : nd[k].par = 1 => /\ t.uv[k][1] = nd[k].uv[1]
                                              /\ nd[k].ed = 2 => t.uv[k][2] = nd[k].uv[2]
  /\ Len(t.f) = Cardinality(GFaces(m, g))
  /\ \A f \in GFaces(m, g) : FaceOK(m, g, f, t.f[f])
  /\ Len(t.v) = Len(ids)
DoMsh(e, h) ==
  LET m == TLCEval(FileMesh(e.file)) IN
  /\ e.m = [p \in 1..h.P |-> 0]
  /\ \A p \in 1..h.P :
       LET o == e.o[p] IN
       /\ o.null = 0 /\ o.com = 1 /\ o.dim = e.file.dim /\ o.part = e.part /\ o.ng = Len(m.cls) /\ o.nh = 0
       /\ IF e.part = 1 /\ p - 1 # e.main THEN o.tr = <<>>
          ELSE /\ Len(o.tr) = Len(m.cls)
               /\ \A k \in 1..Len(o.tr) : o.tr[k].g = k - 1 /\ MshTreeOK(m, e.file, o.tr[k])
               /\ o.vc = 1 /\ o.nv = Cardinality(AllVertices(m.vid))
               /\ LET vid == [k \in 1..Len(o.tr) |-> o.tr[k].v] IN          \* one name for each node, one node for each name
                  /\ VertexListsOK(vid, o.vt)
                  /\ LET pairs == UNION {{<<vid[k][q], m.vid[k][q]>> : q \in 1..Len(vid[k])} : k \in 1..Len(vid)} IN
                     /\ Cardinality({x[1] : x \in pairs}) = Cardinality(pairs)
                     /\ Cardinality({x[2] : x \in pairs}) = Cardinality(pairs)
(* a file that cannot be understood gives no mesh, on no process, and keeps no memory *)
DoBad(e, h) == /\ \A p \in 1..h.P : e.o[p].null = 1
               /\ e.m = [p \in 1..h.P |-> 0]

(* ----- vertex connectivity ----- *)
DoVconn(e, h) ==
  /\ e.mem = [p \in 1..h.P |-> 0]
  /\ \A p \in 1..h.P :
       LET o == e.o[p] IN
       /\ o.bef = 1 /\ o.vc = 1 /\ o.tv = e.m.vid
       /\ o.nv = Cardinality(AllVertices(e.m.vid)) /\ o.lv = o.nv
       /\ VertexListsOK(e.m.vid, o.vt)

(* ----- generators ----- *)
(* the trees of all processes, by global number; a tree is on one process unless the mesh is replicated *)
Expand(e, t) == IF "ax" \in DOMAIN e /\ e.ax = 1 THEN TwoCorners(t.c, t.x) ELSE t.x
DoGen(e, h) ==
  /\ e.m = [p \in 1..h.P |-> 0]
  /\ \A p \in 1..h.P : e.o[p].com = 1 /\ e.o[p].ng = e.o[1].ng /\ e.o[p].part = e.o[1].part
  /\ e.part >= 0 => e.o[1].part = e.part
  /\ LET part == e.o[1].part  NG == e.o[1].ng
         trees == TLCEval(IF part = 1 THEN Flat([p \in 1..h.P |-> e.o[p].tr]) ELSE e.o[1].tr) IN
     /\ part = 0 => \A p \in 1..h.P : e.o[p].tr = trees
     /\ Len(trees) = NG /\ \A g \in 1..NG : trees[g].g = g - 1
     /\ LET m == [cls |-> [g \in 1..NG |-> trees[g].c], pos |-> TLCEval([g \in 1..NG |-> Expand(e, trees[g])])]
            F == [g \in 1..NG |-> trees[g].f] IN
        CASE e.kind = "box" /\ "ns" \notin DOMAIN e ->
               /\ \A p \in 1..h.P : e.o[p].dim = Dim[e.c]
               /\ BoxOK(e.c, e.n, e.B, e.per, m, F, 0)
               /\ e.att = 1 => \A g \in 1..NG : trees[g].a = <<g - 1, NG>>
          [] e.kind = "box" /\ "ns" \in DOMAIN e ->
               LET cnt(p) == e.ns[p][1] * e.ns[p][2] * e.ns[p][3] * PerCell(e.c)
                   lo(p) == SumOver(p - 1, cnt) IN
               /\ NG = SumOver(h.P, cnt)
               /\ \A p \in 1..h.P :
                    LET mp == [cls |-> [k \in 1..cnt(p) |-> m.cls[lo(p) + k]], pos |-> [k \in 1..cnt(p) |-> m.pos[lo(p) + k]]] IN
                    /\ Len(e.o[p].tr) = cnt(p)
                    /\ BoxOK(e.c, e.ns[p], IF e.name = "bricks" THEN BrickBox(e.ns[p], Dim[e.c]) ELSE e.B, e.per, mp,
                             [k \in 1..cnt(p) |-> F[lo(p) + k]], lo(p))
          [] e.kind = "glue" -> GlueGenOK(e.name, e.a, Range(e.per), m, F)
          [] e.kind = "big" ->
               /\ NG = e.n /\ \A g \in 1..NG : m.cls[g] = e.c
               /\ \A g \in 1..NG : \A f \in 1..Len(F[g]) :
                    F[g][f] = CASE f = 1 -> <<0, g % NG, 1, 0>> [] f = 2 -> <<0, (g + NG - 2) % NG, 0, 0>> [] OTHER -> <<1, -1, -1, -1>>
          [] e.kind = "empty" -> NG = 0 /\ \A p \in 1..h.P : e.o[p].dim = e.dim
          [] e.kind = "orient" ->
               /\ SameBag(m.cls, Cnt(TET, 24))
               /\ \A f \in 0..3 : \A k \in f..3 : \A o \in 0..2 : \E g \in 1..24 : F[g][f + 1][1] = 0 /\ F[g][f + 1][3] = k /\ F[g][f + 1][4] = o
               /\ \A g \in 1..24 : \A f \in 1..4 : F[g][f][1] = 0 => F[F[g][f][2] + 1][F[g][f][3] + 1] = <<0, g - 1, f - 1, F[g][f][4]>>
          [] e.kind = "p4est" ->
               /\ NG = Len(e.ttt)
               /\ \A g \in 1..NG :
                    /\ m.cls[g] = (IF e.nf = 4 THEN QUAD ELSE HEX) /\ m.pos[g] = e.x[g]
                    /\ \A f \in 1..e.nf :
                         LET t == e.ttt[g][f][1]  k == e.ttt[g][f][2] % e.nf IN
                         F[g][f] = IF t = g - 1 /\ k = f - 1 THEN <<1, -1, -1, -1>> ELSE <<0, t, k, e.ttt[g][f][2] \div e.nf>>

Step(e, h) ==
  CASE e.op = "join" -> DoJoin(e, h)
    [] e.op = "msh" -> DoMsh(e, h)
    [] e.op = "bad" -> DoBad(e, h)
    [] e.op = "gen" -> DoGen(e, h)
    [] e.op = "vconn" -> DoVconn(e, h)
Init == w \in 1..Len(Trace) /\ i = 1
Next == \/ /\ i <= Len(Trace[w].ev)
           /\ TRUE = Step(Trace[w].ev[i], Trace[w])
           /\ i' = i + 1 /\ w' = w
        \/ /\ i > Len(Trace[w].ev) /\ UNCHANGED vars
=============================================================================
