---------------------------- MODULE CodeDistance ----------------------------
(***************************************************************************)
(* Code distance against single data-qubit errors between rounds.          *)
(*                                                                         *)
(* A hexagon's value is inferred from two successive sub-rounds.  In the   *)
(* gap before sub-round k (all arithmetic on types mod 3) the hexagons of  *)
(* colour k+1 are half measured: an error there flips the value being      *)
(* inferred iff it anticommutes with the type-k half still to come, and    *)
(* later values iff it anticommutes with the whole hexagon; all others are *)
(* flipped iff the error anticommutes with the hexagon.  Comparing         *)
(* successive values, a type-k error on q is seen by exactly the later     *)
(* comparison of q's hexagon of colour k+1 and the one of its hexagon of   *)
(* colour k+2; a type-(k+2) error by the running comparison of colour k+1  *)
(* and the one of colour k; and a type-(k+1) error, their product, by all  *)
(* four.  As the two graphs are disjoint, using products never helps: a    *)
(* set of errors nobody sees is a set of closed walks in one of them.  It  *)
(* defeats the code if the tracked operator is flipped an odd number of    *)
(* times, so the distance is the length of the shortest closed walk of odd *)
(* parity, found breadth first from every check next to an error that      *)
(* flips the operator.                                                     *)
(*                                                                         *)
(* Rows: [kind |-> "honeycomb", w, h, cd]: both operators, at every gap    *)
(*       between sub-rounds; cd must be the least.                         *)
(*       [kind |-> "graph", e, cd]: e: <<a, b, parity>>, 0 the boundary.   *)
(***************************************************************************)
EXTENDS Torus, SequencesExt, Json, IOUtils

Rows == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, best, done
View == << tr, l >>
R == Rows[tr]

Around(q, W, H) == { h \in { Wrap(<< q[1] + a, q[2] + b >>, W, H) : a \in { -2, 2 }, b \in { -2, 0, 2 } } : IsHex(h) }
HexAt(q, c, W, H) == CHOOSE h \in Around(q, W, H) : Color(h) = c % 3
HoneycombErrors(W, H, k, P) ==
  LET par(t, q) == IF Commute(PauliOn(t % 3, { q }), P) THEN 0 ELSE 1
  IN  { << << HexAt(q, k + 1, W, H), "later" >>, << HexAt(q, k + 2, W, H), "now" >>, par(k, q) >> : q \in Qubits(W, H) }
      \cup { << << HexAt(q, k + 1, W, H), "now" >>, << HexAt(q, k, W, H), "now" >>, par(k + 2, q) >> : q \in Qubits(W, H) }
Operators == << "V", "H" >>
Graphs(row) == IF row.kind = "honeycomb" THEN 12 ELSE 1
Errors(row, i) ==
  IF row.kind = "honeycomb" THEN HoneycombErrors(row.w, row.h, i \div 2, Logical(Operators[(i % 2) + 1], i \div 2, row.w, row.h))
  ELSE { << << "n", x[1] >>, << "n", x[2] >>, x[3] >> : x \in ToSet(row.e) }

(* Neighbours with parity. *)
Adjacency(es) ==
  LET ns == { e[1] : e \in es } \cup { e[2] : e \in es }
      out == [ n \in ns |-> { << e[2], e[3] >> : e \in { x \in es : x[1] = n } } \cup { << e[1], e[3] >> : e \in { x \in es : x[2] = n } } ]
  IN  out
Shortest(adj, start, limit) ==
  LET RECURSIVE walk(_, _, _)
      walk(front, seen, d) ==
        IF << start, 1 >> \in front THEN d
        ELSE IF d >= limit \/ front = {} THEN limit + 1
        ELSE LET nxt == TLCEval(UNION { { << y[1], (x[2] + y[2]) % 2 >> : y \in adj[x[1]] } : x \in front } \ seen)
             IN  walk(nxt, TLCEval(seen \cup nxt), d + 1)
  IN  walk({ << start, 0 >> }, { << start, 0 >> }, 0)
Distance(es, limit) ==
  LET adj == TLCEval(Adjacency(es))
      starts == { e[1] : e \in { x \in es : x[3] = 1 } }
  IN  Min({ Shortest(adj, s, limit) : s \in starts } \cup { limit + 1 })

Init == tr \in 1 .. Len(Rows) /\ l = 0 /\ best = 1000 /\ done = FALSE
Next ==
  /\ ~done /\ l < Graphs(R)
  /\ LET d == TLCEval(Distance(TLCEval(Errors(R, l)), 2 * R.cd + 2))
         b == IF d < best THEN d ELSE best
         w == IF d < R.cd THEN "fewer errors than the reported code distance defeat the code"
              ELSE IF l + 1 = Graphs(R) /\ b # R.cd THEN "the reported code distance is not reached by any set of errors"
              ELSE ""
     IN  /\ best' = b
         /\ done' = (w # "")
         /\ IF w # "" THEN PrintT("@@" \o ToJson([ rej |-> tr, at |-> l, why |-> w, info |-> << d, b, R.cd >> ]))
            ELSE IF l + 1 = Graphs(R) THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE
  /\ l' = l + 1 /\ tr' = tr
=============================================================================
