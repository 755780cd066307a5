---------------------------- MODULE HoneycombCode ----------------------------
(***************************************************************************)
(* The honeycomb memory as a transition system, independent of any         *)
(* circuit: sub-rounds of edge measurements act on a patch, hexagon values *)
(* become known and stay known, and the two tracked logical operators are  *)
(* carried along by multiplying in the edges measured on their paths.      *)
(* This is the design the trace specifications check circuits against.     *)
(***************************************************************************)
EXTENDS Torus

CONSTANTS MaxW, MaxH
ASSUME MaxW \in Nat /\ MaxH \in Nat

VARIABLES W, H, k, L, known, val, prep
vars == << W, H, k, L, known, val, prep >>

LegalSizes == { z \in (1 .. MaxW) \X (1 .. MaxH) : LegalSize(z[1], z[2]) }
Type(t) == { e \in Edges(W, H) : EdgeType(e) = t }

(* prep is the basis the data qubits start in; hexagons of that colour start out known, and so do the
   edges of that type.  val: edge products currently in the instantaneous stabilizer group. *)
Init ==
  /\ \E z \in LegalSizes : W = z[1] /\ H = z[2]
  /\ k = 0
  /\ \E o \in { "V", "H" } : prep = PrepBasis(o)
  /\ L = [ o \in { "V", "H" } |-> LogicalStart(o, W, H) ]
  /\ known = { h \in Hexes(W, H) : Color(h) = prep }
  /\ val = {}

(* A hexagon becomes known when the two edge types on its boundary are measured in succession (or when the
   first of them is already known from the preparation). *)
Completes(h) ==
  /\ k % 3 = (Color(h) + 2) % 3
  /\ k >= 1 \/ (Color(h) + 1) % 3 = prep
Measure ==
  /\ k < 12
  /\ k' = k + 1
  /\ val' = Type(k % 3)
  /\ known' = known \cup { h \in Hexes(W, H) : Completes(h) }
  /\ L' = [ o \in { "V", "H" } |-> PauliMul(L[o], EdgeProduct(PathEdgesOfType(o, k % 3, W, H), W, H)) ]
  /\ UNCHANGED << W, H, prep >>
Next == Measure

-----------------------------------------------------------------------------
Qs == Qubits(W, H)
Es == Edges(W, H)
Hs == Hexes(W, H)

(* Geometry (k = 0 only: it does not change). *)
Geometry ==
  k = 0 =>
  /\ Cardinality(Qs) = W * H /\ Cardinality(Es) = (3 * W * H) \div 2 /\ Cardinality(Hs) = (W * H) \div 2
  /\ \A q \in Qs : \A t \in 0 .. 2 : Cardinality({ e \in EdgesAt(q, W, H) : EdgeType(e) = t }) = 1
  /\ \A e \in Es : Cardinality(Ends(e, W, H)) = 2 /\ Ends(e, W, H) \subseteq Qs
  /\ \A h \in Hs : /\ Cardinality(HexQubits(h, W, H)) = 6
                   /\ Cardinality(HexEdges(h, W, H)) = 6 /\ HexEdges(h, W, H) \subseteq Es
                   /\ \A e \in HexEdges(h, W, H) : EdgeType(e) # Color(h)
                   /\ Cardinality(FirstEdges(h, W, H)) = 3 /\ Cardinality(SecondEdges(h, W, H)) = 3
                   /\ UNION { Ends(e, W, H) : e \in FirstEdges(h, W, H) } = HexQubits(h, W, H)
                   /\ UNION { Ends(e, W, H) : e \in SecondEdges(h, W, H) } = HexQubits(h, W, H)
  /\ \A e \in Es : \A h \in FarHexes(e, W, H) : Color(h) = EdgeType(e)
  /\ \A c \in 0 .. 2 : Cardinality({ h \in Hs : Color(h) = c }) = (W * H) \div 6

(* Hexagon operators are products of their boundary's edges, commute with every measurement, so a known
   value stays known. *)
Conserved ==
  k = 0 =>
  \A h \in Hs : /\ PauliMul(EdgeProduct(FirstEdges(h, W, H), W, H), EdgeProduct(SecondEdges(h, W, H), W, H)) = HexPauli(h, W, H)
                /\ \A e \in Es : Commute(HexPauli(h, W, H), EdgePauli(e, W, H))

(* The tracked operators survive the measurements just made and about to be made, can be read out in one
   basis, and are conjugate to each other. *)
Tracked ==
  \A o \in { "V", "H" } :
    /\ L[o] = Logical(o, k, W, H)
    /\ Uniform(L[o]) /\ L[o] # IdentityPauli
    /\ \A e \in val : Commute(L[o], EdgePauli(e, W, H))
    /\ \A e \in Type(k % 3) : Commute(L[o], EdgePauli(e, W, H))
    /\ \A h \in Hs : Commute(L[o], HexPauli(h, W, H))
Conjugate == ~Commute(L["V"], L["H"])
Period == k \in { 6, 12 } => \A o \in { "V", "H" } : L[o] = LogicalStart(o, W, H)
(* After four sub-rounds every hexagon is known. *)
Established == k >= 4 => known = Hs
=============================================================================
