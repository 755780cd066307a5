------------------------------- MODULE Torus -------------------------------
(***************************************************************************)
(* Geometry of the periodic honeycomb code, defined from first principles  *)
(* (a brick wall on a torus), not from the implementation's tables.        *)
(*                                                                         *)
(* All coordinates are doubled so that edge centres are integral: a point  *)
(* <<X, Y>> stands for (X/2, Y/2).  A patch has W data qubit columns (at   *)
(* odd x) and H data qubit rows.                                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, Sequences, TLC

Wrap(p, W, H) == << p[1] % (4 * W), p[2] % (2 * H) >>


LegalSize(W, H) == W > 0 /\ H > 0 /\ W % 2 = 0 /\ H % 6 = 0

(* What kind of site a (wrapped) point is. *)
IsData(p)  == p[1] % 4 = 2 /\ p[2] % 2 = 0
IsVEdge(p) == p[1] % 4 = 2 /\ p[2] % 2 = 1
IsHEdge(p) == p[1] % 4 = 0 /\ p[2] % 2 = 0 /\ ((p[1] \div 4) + (p[2] \div 2)) % 2 = 1
IsEdge(p)  == IsVEdge(p) \/ IsHEdge(p)
IsHex(p)   == p[1] % 4 = 0 /\ p[2] % 2 = 0 /\ ((p[1] \div 4) + (p[2] \div 2)) % 2 = 0

Points(W, H) == (0 .. 4 * W - 1) \X (0 .. 2 * H - 1)
Qubits(W, H) == { << 4 * i + 2, 2 * j >> : i \in 0 .. W - 1, j \in 0 .. H - 1 }
VEdges(W, H) == { << 4 * i + 2, 2 * j + 1 >> : i \in 0 .. W - 1, j \in 0 .. H - 1 }
Gaps(W, H)   == { << 4 * i, 2 * j >> : i \in 0 .. W - 1, j \in 0 .. H - 1 }
HEdges(W, H) == { p \in Gaps(W, H) : IsHEdge(p) }
Edges(W, H)  == VEdges(W, H) \cup HEdges(W, H)
Hexes(W, H)  == { p \in Gaps(W, H) : IsHex(p) }

(* Colours/types 0, 1, 2 stand for X, Y, Z. *)
Color(h) == (h[2] \div 2) % 3
EdgeType(e) == IF IsVEdge(e) THEN (((e[2] - 1) \div 2) + 2) % 3 ELSE (e[2] \div 2) % 3

Ends(e, W, H) ==
  IF IsVEdge(e)
  THEN { Wrap(<< e[1], e[2] - 1 >>, W, H), Wrap(<< e[1], e[2] + 1 >>, W, H) }
  ELSE { Wrap(<< e[1] - 2, e[2] >>, W, H), Wrap(<< e[1] + 2, e[2] >>, W, H) }

HexEdges(h, W, H) ==
  { Wrap(<< h[1] + d[1], h[2] + d[2] >>, W, H) :
      d \in { << -2, -1 >>, << -2, 1 >>, << 2, -1 >>, << 2, 1 >>, << 0, -2 >>, << 0, 2 >> } }
HexQubits(h, W, H) ==
  { Wrap(<< h[1] + a, h[2] + b >>, W, H) : a \in { -2, 2 }, b \in { -2, 0, 2 } }

(* The half of a hexagon's boundary measured first / second after its colour's sub-round. *)
FirstEdges(h, W, H)  == { e \in HexEdges(h, W, H) : EdgeType(e) = (Color(h) + 1) % 3 }
SecondEdges(h, W, H) == { e \in HexEdges(h, W, H) : EdgeType(e) = (Color(h) + 2) % 3 }

(* The (unique) edge at a qubit joining it to another one, or <<>>. *)
EdgesAt(q, W, H) ==
  { e \in { Wrap(<< q[1] + d[1], q[2] + d[2] >>, W, H) :
              d \in { << 0, -1 >>, << 0, 1 >>, << -2, 0 >>, << 2, 0 >> } } : IsEdge(e) }
EdgeBetween(p, q, W, H) ==
  LET c == { e \in EdgesAt(p, W, H) : Ends(e, W, H) = { p, q } }
  IN  IF c = {} THEN << >> ELSE CHOOSE e \in c : TRUE

(* Far ends of an edge: the two hexagons it joins end-on, which carry its colour. *)
FarHexes(e, W, H) ==
  IF IsVEdge(e)
  THEN LET \* the edge leans towards hexes at (+-1, -+1.5) or (+-1, +-1.5) from its centre
           c == { Wrap(<< e[1] + a, e[2] + b >>, W, H) : a \in { -2, 2 }, b \in { -3, 3 } }
       IN  { h \in c : IsHex(h) }
  ELSE { Wrap(<< e[1] - 4, e[2] >>, W, H), Wrap(<< e[1] + 4, e[2] >>, W, H) }

-----------------------------------------------------------------------------
(* Pauli operators on the data qubits up to sign: <<x-support, z-support>>. *)
PauliMul(P, Q) == << SymDiff(P[1], Q[1]), SymDiff(P[2], Q[2]) >>
PauliOn(basis, qs) == << IF basis \in { 0, 1 } THEN qs ELSE {}, IF basis \in { 1, 2 } THEN qs ELSE {} >>
Commute(P, Q) ==
  (Cardinality(P[1] \cap Q[2]) + Cardinality(P[2] \cap Q[1])) % 2 = 0
EdgePauli(e, W, H) == PauliOn(EdgeType(e), Ends(e, W, H))
HexPauli(h, W, H)  == PauliOn(Color(h), HexQubits(h, W, H))
IdentityPauli == << {}, {} >>

ProdPaulis(S) == FoldSet(PauliMul, IdentityPauli, S)   \* product of a set of Paulis

EdgeProduct(es, W, H) ==  \* the product of the Paulis of pairwise disjoint edges of one type t
  LET X == UNION { Ends(e, W, H) : e \in { f \in es : EdgeType(f) \in { 0, 1 } } }
      Z == UNION { Ends(e, W, H) : e \in { f \in es : EdgeType(f) \in { 1, 2 } } }
  IN  << X, Z >>

(* Paths of the two tracked observables and the edges on them. *)
PathQubits(obs, W, H) ==
  IF obs = "V" THEN { q \in Qubits(W, H) : q[1] = 2 } ELSE { q \in Qubits(W, H) : q[2] \in { 0, 2 } }
PathEdges(obs, W, H) ==
  { e \in Edges(W, H) : Ends(e, W, H) \subseteq PathQubits(obs, W, H)
                         /\ (obs = "V" => IsVEdge(e)) }
OnPath(obs, e, W, H) == Ends(e, W, H) \subseteq PathQubits(obs, W, H) /\ (obs = "V" => IsVEdge(e))
PathEdgesOfType(obs, t, W, H) == { e \in PathEdges(obs, W, H) : EdgeType(e) = t }

(* The logical operator before the first sub-round ... *)
LogicalStart(obs, W, H) ==
  IF obs = "V" THEN << {}, { q \in PathQubits("V", W, H) : (q[2] \div 2) % 3 # 0 } >>
  ELSE << PathQubits("H", W, H), {} >>
(* ... and before sub-round k: each sub-round multiplies in the path's edges. *)
LogicalRec(obs, k, W, H) ==
  LET f[j \in 0 .. k] ==
        IF j = 0 THEN LogicalStart(obs, W, H)
        ELSE PauliMul(f[j - 1], EdgeProduct(PathEdgesOfType(obs, (j - 1) % 3, W, H), W, H))
  IN  f[k]
Logical(obs, k, W, H) == LogicalRec(obs, k % 6, W, H)   \* period 6 is an invariant of HoneycombCode

LogicalBasis(P) == IF P[2] = {} THEN 0 ELSE IF P[1] = {} THEN 2 ELSE 1
LogicalSupport(P) == P[1] \cup P[2]
(* All-one-basis form: the operator has the same Pauli on its whole support. *)
Uniform(P) == P[1] = {} \/ P[2] = {} \/ P[1] = P[2]

PrepBasis(obs) == IF obs = "V" THEN 2 ELSE 0
=============================================================================
