------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Reported layouts against the torus.  A row is everything one layout     *)
(* object reports about its patch (doubled coordinates); a trace visits    *)
(* its clauses one after another.                                          *)
(***************************************************************************)
EXTENDS Torus, SequencesExt, Json, IOUtils

Rows == ndJsonDeserialize(IOEnv.TRACES)
SCOPE == IOEnv.SCOPE
VARIABLES tr, pc, tbl, why
View == << tr, pc >>

R == Rows[tr]
W == R.w
H == R.h
NoDup(sq) == Cardinality(ToSet(sq)) = Len(sq)
SameSet(sq, S) == Len(sq) = Cardinality(S) /\ ToSet(sq) = S

(* <<e.left, e.right, e.center>> describe edge centre c of the torus. *)
EdgeOK(e) == IsEdge(e[3]) /\ e[3][1] \in 0 .. 4 * W - 1 /\ e[3][2] \in 0 .. 2 * H - 1
             /\ { e[1], e[2] } = Ends(e[3], W, H) /\ e[1] # e[2]
Centers(sq) == { sq[i][3] : i \in 1 .. Len(sq) }
EdgesOK(sq, S) ==
  /\ \A i \in 1 .. Len(sq) : EdgeOK(sq[i])
  /\ LET T == TLCEval(S) IN Len(sq) = Cardinality(T) /\ Centers(sq) = T

DataN == W * H
EdgeN == (3 * W * H) \div 2
Direct == R.style \in { "EM3", "EM3_v2" }

LayoutClause(k) ==
  CASE k = 1 -> << "data qubits are not the torus sites", SameSet(R.data, Qubits(W, H)) >>
    [] k = 2 -> << "measurement qubits are not the edge centres", SameSet(R.meas, Edges(W, H)) >>
    [] k = 3 -> << "index table does not cover exactly the qubits",
        SameSet([ i \in 1 .. Len(R.q2i) |-> R.q2i[i][1] ], Qubits(W, H) \cup Edges(W, H)) >>
    [] k = 4 -> << "indices are not gap-free and unique",
        SameSet([ i \in 1 .. Len(R.q2i) |-> R.q2i[i][2] ], 0 .. DataN + EdgeN - 1) >>
    [] k = 5 -> << "data qubits do not come first",
        \A i \in 1 .. Len(R.q2i) : (R.q2i[i][2] < DataN) = IsData(R.q2i[i][1]) >>
    [] k = 6 -> << "index lists disagree with the index table",
        /\ Len(R.datai) = Len(R.data) /\ \A i \in 1 .. Len(R.data) : R.q2i[R.datai[i]][1] = R.data[i]
        /\ Len(R.measi) = Len(R.meas) /\ \A i \in 1 .. Len(R.meas) : R.q2i[R.measi[i]][1] = R.meas[i]
        /\ Len(R.usedi) = Len(R.used) /\ { R.q2i[R.usedi[i]][1] : i \in 1 .. Len(R.usedi) } = ToSet(R.used) >>
    [] k = 7 -> << "edges of a sub-round are not the torus edges of its type",
        \A t \in 0 .. 2 : EdgesOK(R.edges[t + 1], { e \in Edges(W, H) : EdgeType(e) = t }) >>
    [] k = 8 -> << "all edges", EdgesOK(R.alledges, Edges(W, H)) >>
    [] k = 9 -> << "hexagon centres of a colour", \A t \in 0 .. 2 : SameSet(R.hexes[t + 1], { h \in Hexes(W, H) : Color(h) = t }) >>
    [] k = 10 -> << "hexagon surroundings", \A i \in 1 .. Len(R.around) :
        LET a == R.around[i]
        IN  /\ EdgesOK(a.first, FirstEdges(a.hex, W, H))
            /\ EdgesOK(a.second, SecondEdges(a.hex, W, H))
            /\ EdgesOK(a.all, HexEdges(a.hex, W, H))
            /\ SameSet(a.qubits, HexQubits(a.hex, W, H)) >>
    [] k = 11 -> << "a data qubit does not touch one edge of each type", \A t \in 1 .. 3 :
        /\ 2 * Len(R.edges[t]) = DataN
        /\ UNION { { R.edges[t][i][1], R.edges[t][i][2] } : i \in 1 .. Len(R.edges[t]) } = Qubits(W, H) >>
    [] k = 12 -> << "the two interleaving halves do not split every edge",
        LET A == TLCEval(ToSet(R.half1))  B == TLCEval(ToSet(R.half2))
        IN  /\ Len(R.half1) = Cardinality(A) /\ Len(R.half2) = Cardinality(B)
            /\ A \cap B = {}
            /\ A \cup B = Qubits(W, H)
            /\ \A i \in 1 .. Len(R.alledges) : R.alledges[i][1] \in A /\ R.alledges[i][2] \in B >>
    [] k = 13 -> << "wrapping", \A i \in 1 .. Len(R.wrap) : R.wrap[i][2] = Wrap(R.wrap[i][1], W, H) >>
    [] k = 14 -> << "reported qubit count", R.num = (IF Direct THEN DataN ELSE DataN + EdgeN) >>
    [] k = 15 -> << "used qubits", SameSet(R.used, IF Direct THEN Qubits(W, H) ELSE Qubits(W, H) \cup Edges(W, H)) >>
    [] k = 16 -> << "sub-round basis", \A j \in 1 .. Len(R.basis) : R.basis[j] = << "X", "Y", "Z" >>[((j - 1) % 3) + 1] >>
    [] OTHER -> << "", TRUE >>

(* The operators the design model carries, once per row: <<basis, support>> before sub-round 0 .. 5. *)
OpTable(o) ==
  [ j \in 0 .. 5 |-> LET P == Logical(o, j, W, H)
                     IN  << << "X", "Y", "Z" >>[LogicalBasis(P) + 1], LogicalSupport(P), Uniform(P) >> ]
Table == TLCEval([ H |-> TLCEval(OpTable("H")), V |-> TLCEval(OpTable("V")) ])
OpOK(rep, o) ==
  LET e == tbl[o][rep.k % 6] IN e[3] /\ rep.b = e[1] /\ SameSet(rep.q, e[2])
ObservableClause(k) ==
  CASE k = 1 -> << "horizontal operator", \A i \in 1 .. Len(R.oph) : OpOK(R.oph[i], "H") >>
    [] k = 2 -> << "vertical operator", \A i \in 1 .. Len(R.opv) : OpOK(R.opv[i], "V") >>
    [] k = 3 -> << "operator of the selected observable", \A i \in 1 .. Len(R.op) : OpOK(R.op[i], R.obs) >>
    [] k = 4 -> << "path edges of the observable", EdgesOK(R.oedges, PathEdges(R.obs, W, H)) >>
    [] k = 5 -> << "path edges of the horizontal observable", EdgesOK(R.hedges, PathEdges("H", W, H)) >>
    [] k = 6 -> << "path edges of the vertical observable", EdgesOK(R.vedges, PathEdges("V", W, H)) >>
    [] k = 7 -> << "path qubits", SameSet(R.oqubits, PathQubits(R.obs, W, H)) /\ SameSet(R.hqubits, PathQubits("H", W, H))
                       /\ SameSet(R.vqubits, PathQubits("V", W, H)) >>
    [] k = 8 -> << "observable number", R.oindex = (IF R.obs = "V" THEN 0 ELSE 1) >>
    [] OTHER -> << "", TRUE >>

Clause(k) == IF SCOPE = "C05" THEN ObservableClause(k) ELSE LayoutClause(k)
Final == IF SCOPE = "C05" THEN 8 ELSE 16

Init == tr \in 1 .. Len(Rows) /\ pc = 0 /\ why = "" /\ tbl = << >>
Start ==
  /\ pc = 0 /\ pc' = 1
  /\ tbl' = IF SCOPE = "C05" THEN Table ELSE << >>
  /\ UNCHANGED << tr, why >>
Visit ==
  /\ why = "" /\ pc \in 1 .. Final
  /\ LET c == TLCEval(Clause(pc))
     IN  /\ why' = IF c[2] THEN "" ELSE c[1]
         /\ IF ~c[2] THEN PrintT("@@" \o ToJson([ rej |-> tr, at |-> pc, why |-> c[1], info |-> "" ]))
            ELSE IF pc = Final THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE
  /\ pc' = pc + 1
  /\ UNCHANGED << tr, tbl >>
Next == Start \/ Visit
=============================================================================
