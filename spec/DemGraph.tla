------------------------------ MODULE DemGraph ------------------------------
(***************************************************************************)
(* A detector error model is a little program; this is its interpreter,    *)
(* building the decoding graph instruction by instruction (C10).           *)
(*                                                                         *)
(* State: a stack of <<block, next instruction, repetitions left>>, the    *)
(* detector and coordinate offsets, the edges and the node coordinates.    *)
(* Probabilities are k/16; an edge keeps 1 - 2P as a reduced fraction, so  *)
(* that "an odd number of components happen" is a product.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils

Rows == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, stack, det, off, edges, coords, refused, n, why
View == << tr, n >>

R == Rows[tr]
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(a, b) == IF a = 0 THEN << 0, 1 >> ELSE LET g == Gcd(Abs(a), b) IN << a \div g, b \div g >>
Factor(k) == Reduce(8 - k, 8)
Times(x, y) == Reduce(x[1] * y[1], x[2] * y[2])

(* Offsets and coordinates are sequences of equal length; a shift or a coordinate may be shorter. *)
AddPrefix(o, a) == [ i \in 1 .. Len(o) |-> o[i] + (IF i <= Len(a) THEN a[i] ELSE 0) ]
AbsCoord(a) == [ i \in 1 .. Len(a) |-> a[i] + off[i] ]

Ends(c) == { det + c.d[i] : i \in 1 .. Len(c.d) }
Frame(c) == ToSet(c.f)
(* One component of an error instruction happening with probability k/16. *)
Component(es, k, c) ==
  IF k = 0 \/ Len(c.d) = 0 \/ Len(c.d) > 2 THEN es
  ELSE LET e == Ends(c)
       IN  IF e \in DOMAIN es
           THEN IF es[e].f # Frame(c) THEN es ELSE [ es EXCEPT ![e].x = Times(@, Factor(k)) ]
           ELSE [ x \in (DOMAIN es) \cup { e } |-> IF x = e THEN [ f |-> Frame(c), x |-> Factor(k) ] ELSE es[x] ]

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Advance == [ stack EXCEPT ![Len(stack)][2] = @ + 1 ]

Init ==
  /\ tr \in 1 .. Len(Rows)
  /\ stack = << << Rows[tr].prog, 1, 1 >> >>
  /\ det = 0 /\ off = [ i \in 1 .. 6 |-> 0 ]
  /\ edges = [ e \in {} |-> 0 ] /\ coords = [ d \in {} |-> 0 ]
  /\ refused = FALSE /\ n = 0 /\ why = ""

Running == stack # << >> /\ ~refused
AtEnd == Top[2] > Len(Top[1])
I == Top[1][Top[2]]
Keep == UNCHANGED << tr, why >> /\ n' = n + 1

BlockEnd ==
  /\ Running /\ AtEnd
  /\ stack' = IF Top[3] > 1 THEN [ stack EXCEPT ![Len(stack)] = << Top[1], 1, Top[3] - 1 >> ] ELSE Pop
  /\ UNCHANGED << det, off, edges, coords, refused >> /\ Keep
Enter ==
  /\ Running /\ ~AtEnd /\ I.o = "rep"
  /\ stack' = Append(Advance, << I.b, 1, I.n >>)
  /\ UNCHANGED << det, off, edges, coords, refused >> /\ Keep
Error ==
  /\ Running /\ ~AtEnd /\ I.o = "error"
  /\ stack' = Advance
  /\ refused' = (I.p # 0 /\ \E i \in 1 .. Len(I.c) : Len(I.c[i].d) > 2)
  /\ edges' = TLCEval(FoldLeft(LAMBDA es, c : Component(es, I.p, c), edges, I.c))
  /\ UNCHANGED << det, off, coords >> /\ Keep
Shift ==
  /\ Running /\ ~AtEnd /\ I.o = "shift"
  /\ stack' = Advance /\ det' = det + I.n /\ off' = TLCEval(AddPrefix(off, I.a))
  /\ UNCHANGED << edges, coords, refused >> /\ Keep
Detector ==
  /\ Running /\ ~AtEnd /\ I.o = "det"
  /\ stack' = Advance
  /\ LET ds == { det + I.d[i] : i \in 1 .. Len(I.d) }
     IN  coords' = TLCEval([ d \in (DOMAIN coords) \cup ds |-> IF d \in ds THEN AbsCoord(I.a) ELSE coords[d] ])
  /\ UNCHANGED << det, off, edges, refused >> /\ Keep
Other ==
  /\ Running /\ ~AtEnd /\ I.o = "obs"
  /\ stack' = Advance
  /\ UNCHANGED << det, off, edges, coords, refused >> /\ Keep

-----------------------------------------------------------------------------
(* The reported graph: g.edges = << <<a, b, frame, num, den, weight ok>> ... >> with the boundary as node nd,
   g.nodes = << <<node, coordinates or << -99 >> >> ... >>, g.boundary = the nodes marked as boundary. *)
B == R.nd
Named(e) == IF Cardinality(e) = 1 THEN e \cup { B } ELSE e
EdgeMap(S) == [ e \in { { S[i][1], S[i][2] } : i \in 1 .. Len(S) } |->
                 LET i == CHOOSE i \in 1 .. Len(S) : { S[i][1], S[i][2] } = e IN S[i] ]
Verdict ==
  IF refused # (R.exc = 1) THEN IF refused THEN "an error with three or more symptoms was accepted" ELSE "a graph-like error model was refused"
  ELSE IF refused THEN ""
  ELSE LET g == TLCEval(EdgeMap(R.edges))
           want == { Named(e) : e \in DOMAIN edges }
           used == UNION want \cup DOMAIN coords \cup { B }
           rep == ToSet([ i \in 1 .. Len(R.nodes) |-> R.nodes[i][1] ])
           pick(e) == g[Named(e)]
       IN  CASE Len(R.edges) # Cardinality(DOMAIN g) \/ DOMAIN g # want -> "the graph's edges are not the error components' symptoms"
             [] \E e \in DOMAIN edges : ToSet(pick(e)[3]) # edges[e].f -> "an edge carries the wrong frame change"
             [] \E e \in DOMAIN edges : << pick(e)[4], pick(e)[5] >> # edges[e].x -> "an edge's probability is not that of an odd number of its components"
             [] \E e \in DOMAIN edges : pick(e)[6] # 1 -> "an edge's weight is not its log-odds"
             [] ~(used \subseteq rep) -> "a node is missing"
             [] R.boundary # << B >> -> "the boundary node is not marked"
             [] \E i \in 1 .. Len(R.nodes) :
                  LET d == R.nodes[i][1] IN d # B /\ R.nodes[i][2] # (IF d \in DOMAIN coords THEN coords[d] ELSE << -99 >>)
                  -> "a detector's coordinates are not its absolute coordinates"
             [] OTHER -> ""
Judge ==
  /\ why = "" /\ (stack = << >> \/ refused)
  /\ LET w == TLCEval(Verdict)
     IN  /\ why' = IF w = "" THEN "ok" ELSE w
         /\ PrintT("@@" \o (IF w = "" THEN ToJson([ acc |-> tr ]) ELSE ToJson([ rej |-> tr, at |-> n, why |-> w, info |-> ToString([ edges |-> edges, coords |-> coords ]) ])))
  /\ n' = n + 1
  /\ UNCHANGED << tr, stack, det, off, edges, coords, refused >>
Next == BlockEnd \/ Enter \/ Error \/ Shift \/ Detector \/ Other \/ Judge
=============================================================================
