------------------------------ MODULE Diagram ------------------------------
(***************************************************************************)
(* Drawing a circuit in space-time.  Qubits sit on a grid (x, y); moment z *)
(* of L moments is drawn one step further along the diagonal.  A symbol    *)
(* marks what happens to each qubit in each moment, a connector joins the  *)
(* two ends of a two-qubit operation; a connector that spans the whole     *)
(* patch leaves it on both sides instead, ending in "~".                   *)
(*                                                                         *)
(* Model: TLC enumerates every moment over a small patch (which qubits are *)
(* idle, which operations act); the harness strings them into circuits     *)
(* with loops.  Traces: the circuit (loops unexpanded) and the non-blank   *)
(* characters of the diagram.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, Json, IOUtils, TLC

CONSTANTS Width, Height, \* patch of the enumerated moments
          Ones, Twos     \* operation names used in them
VARIABLES todo, ops, tr, why
View == << todo, ops, tr, why >>

-----------------------------------------------------------------------------
(* Enumerated moments: qubits are decided in order. *)
Grid == { << x, y >> : x \in 0 .. Width - 1, y \in 0 .. Height - 1 }
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
First(S) == CHOOSE a \in S : \A b \in S : a = b \/ Less(a, b)
MInit == todo = Grid /\ ops = << >> /\ tr = 0 /\ why = ""
MNext ==
  /\ todo # {}
  /\ LET q == First(todo)
     IN  \/ todo' = todo \ {q} /\ ops' = ops
         \/ \E n \in Ones : todo' = todo \ {q} /\ ops' = Append(ops, [ n |-> n, q |-> << q >> ])
         \/ \E n \in Twos, p \in todo \ {q} : /\ p[1] = q[1] \/ p[2] = q[2]
                                             /\ todo' = todo \ {p, q}
                                             /\ \E s \in {<< p, q >>, << q, p >>} : ops' = Append(ops, [ n |-> n, q |-> s ])
  /\ UNCHANGED << tr, why >>
Once == \A i, j \in 1 .. Len(ops) : i # j => ToSet(ops[i].q) \cap ToSet(ops[j].q) = {}
Report == todo = {} => PrintT("@@" \o ToJson([ ops |-> ops ]))

-----------------------------------------------------------------------------
(* Where things go *)
CeilDiv(a, b) == 0 - ((0 - a) \div b)
(* twice the coordinates, so that half steps are integers *)
Place(x2, y2, z, L) == << CeilDiv((x2 + 2) * (L + 2), 2) + z, CeilDiv((y2 + 4) * (L + 3), 2) + z >>
(* No two symbols, and no symbol and wrap mark, share a place. *)
Distinct(w, h, L) ==
  LET Sym == { << x, y, z >> : x \in 0 .. w - 1, y \in 0 .. h - 1, z \in 0 .. L - 1 }
      Pl == { Place(2 * s[1], 2 * s[2], s[3], L) : s \in Sym }
      Mk == { Place(2 * s[1] + e, 2 * s[2], s[3], L) : s \in Sym, e \in {-1, 1} } \cup { Place(2 * s[1], 2 * s[2] + e, s[3], L) : s \in Sym, e \in {-1, 1} }
  IN  Cardinality(Pl) = Cardinality(Sym) /\ Pl \cap Mk = {}
Injective == ops = << >> => \A L \in 1 .. 9 : Distinct(3, 3, L)

-----------------------------------------------------------------------------
(* Symbols *)
One == [ M |-> "M", R |-> "R", H |-> "H", H_YZ |-> "G", C_XYZ |-> "C", C_ZYX |-> "C", MX |-> "m", MY |-> "m", MR |-> "D" ]
Two == [ CX |-> << "@", "X" >>, CY |-> << "@", "Y" >>, CZ |-> << "@", "Z" >>,
         XCX |-> << "X", "X" >>, XCY |-> << "X", "Y" >>, XCZ |-> << "X", "Z" >>,
         YCX |-> << "Y", "X" >>, YCY |-> << "Y", "Y" >>, YCZ |-> << "Y", "Z" >> ]
Parity == [ X |-> "x", Y |-> "y", Z |-> "z" ]

(* Loops: expanded, or (body) only the contents of outermost loops, once; loops inside the body are expanded. *)
RECURSIVE Expand(_)
Expand(c) ==
  FoldLeft(LAMBDA acc, o : IF o.n = "REPEAT" THEN LET b == Expand(o.b) IN FoldLeft(LAMBDA a, k : a \o b, acc, [ k \in 1 .. o.k |-> k ]) ELSE Append(acc, o), << >>, c)
Shown(c, body) ==
  IF ~ body THEN Expand(c)
  ELSE FoldLeft(LAMBDA acc, o : IF o.n = "REPEAT" THEN acc \o Expand(o.b) ELSE acc, << >>, c)

(* Moments: sequences of operations; what follows the last TICK is a moment when something acts in it. *)
Moments(s) ==
  LET f == FoldLeft(LAMBDA acc, o : IF o.n = "TICK" THEN [ done |-> Append(acc.done, acc.cur), cur |-> << >> ]
                                    ELSE [ acc EXCEPT !.cur = Append(@, o) ], [ done |-> << >>, cur |-> << >> ], s)
  IN  IF f.cur = << >> THEN f.done ELSE Append(f.done, f.cur)

(* marks of one operation: << qubit, symbol >>; joins: << qubit, qubit >> *)
Marks(o) ==
  IF o.n = "MPP" THEN UNION { { << p[2], Parity[p[1]] >> : p \in ToSet(g) } : g \in ToSet(o.g) }
  ELSE IF o.n \in DOMAIN One THEN { << q, One[o.n] >> : q \in ToSet(o.t) }
  ELSE { << o.t[k], Two[o.n][IF k % 2 = 1 THEN 1 ELSE 2] >> : k \in 1 .. Len(o.t) }
Joins(o) ==
  IF o.n = "MPP" THEN { << g[1][2], g[2][2] >> : g \in { h \in ToSet(o.g) : Len(h) = 2 } }
  ELSE IF o.n \in DOMAIN One THEN {}
  ELSE { << o.t[2 * k - 1], o.t[2 * k] >> : k \in 1 .. Len(o.t) \div 2 }

Range2(a, b) == IF a < b THEN a .. b ELSE b .. a
Fault(r) ==
  LET ms == TLCEval(Moments(Shown(r.ops, r.body)))
      L == Len(ms)
      Q == [ q \in { r.qs[i][1] : i \in DOMAIN r.qs } |-> LET i == CHOOSE j \in DOMAIN r.qs : r.qs[j][1] = q IN << r.qs[i][2], r.qs[i][3] >> ]
      Qt == TLCEval(Q)
      X == { Qt[q][1] : q \in DOMAIN Qt }
      Y == { Qt[q][2] : q \in DOMAIN Qt }
      At(q, z) == Place(2 * Qt[q][1], 2 * Qt[q][2], z - 1, L)
      Acts(z) == UNION { Marks(ms[z][i]) : i \in 1 .. Len(ms[z]) }
      Sym == TLCEval(UNION { LET A == Acts(z) busy == { a[1] : a \in A }
                             IN  { << At(a[1], z), a[2] >> : a \in A } \cup { << At(q, z), "\\" >> : q \in DOMAIN Qt \ busy } : z \in 1 .. L })
      Pairs == UNION { { << j, z >> : j \in UNION { Joins(ms[z][i]) : i \in 1 .. Len(ms[z]) } } : z \in 1 .. L }
      Pt == TLCEval(Pairs)
      Ends(p) == << Qt[p[1][1]], Qt[p[1][2]] >>
      Wx(p) == LET e == Ends(p) IN e[1][1] # e[2][1] /\ { e[1][1], e[2][1] } = { Min(X), Max(X) }
      Wy(p) == LET e == Ends(p) IN ~ Wx(p) /\ e[1][2] # e[2][2] /\ { e[1][2], e[2][2] } = { Min(Y), Max(Y) }
      Tildes(p) ==
        LET e == Ends(p) z == p[2] - 1
        IN  IF Wx(p) THEN { Place(2 * v[1] + (IF v[1] = Min(X) THEN -1 ELSE 1), 2 * v[2], z, L) : v \in ToSet(e) }
            ELSE IF Wy(p) THEN { Place(2 * v[1], 2 * v[2] + (IF v[2] = Min(Y) THEN -1 ELSE 1), z, L) : v \in ToSet(e) }
            ELSE {}
      Segs(p) ==   \* << from, to >> places
        LET e == Ends(p) z == p[2] - 1
            pl(v) == Place(2 * v[1], 2 * v[2], z, L)
        IN  IF Wx(p) THEN { << pl(v), Place(2 * v[1] + (IF v[1] = Min(X) THEN -1 ELSE 1), 2 * v[2], z, L) >> : v \in ToSet(e) }
            ELSE IF Wy(p) THEN { << pl(v), Place(2 * v[1], 2 * v[2] + (IF v[2] = Min(Y) THEN -1 ELSE 1), z, L) >> : v \in ToSet(e) }
            ELSE { << pl(e[1]), pl(e[2]) >> }
      AllT == TLCEval(UNION { Tildes(p) : p \in Pt })
      AllS == TLCEval(UNION { Segs(p) : p \in Pt })
      Hor == TLCEval(UNION { { << s[1][1], c >> : c \in Range2(s[1][2], s[2][2]) } : s \in { t \in AllS : t[1][1] = t[2][1] } })
      Ver == TLCEval(UNION { { << w, s[1][2] >> : w \in Range2(s[1][1], s[2][1]) } : s \in { t \in AllS : t[1][2] = t[2][2] } })
      Got == TLCEval({ << << c[1], c[2] >>, c[3] >> : c \in ToSet(r.cells) })
      GotAt == { g[1] : g \in Got }
      Line(g) == LET p == g[1] IN
        IF p \in Hor /\ p \in Ver THEN g[2] \in {"+", "-", "|", "="}
        ELSE IF p \in Hor THEN g[2] \in {"-", "="} ELSE p \in Ver /\ g[2] = "|"
      SymPos == TLCEval({ s[1] : s \in Sym })
  IN  CASE \E s \in Sym : s \notin Got -> "an operation (or idle mark) is missing or has the wrong symbol"
        [] \E t \in AllT \ SymPos : << t, "~" >> \notin Got -> "a wrapping connector does not end in ~ outside the patch"
        [] \E p \in (Hor \cup Ver) \ (SymPos \cup AllT) : p \notin GotAt -> "a connector has a gap"
        [] \E g \in Got : g[1] \notin SymPos /\ ~ (g[1] \in AllT /\ g[2] = "~") /\ ~ (g[1] \notin AllT /\ Line(g)) -> "something is drawn that is no operation, idle mark or connector"
        [] OTHER -> ""

Rows == ndJsonDeserialize(IOEnv.TRACES)
TInit == tr \in 1 .. Len(Rows) /\ why = "" /\ todo = { 0 } /\ ops = << >>
TNext ==
  /\ todo # {} /\ todo' = {}
  /\ LET w == TLCEval(Fault(Rows[tr]))
     IN  why' = w /\ PrintT("@@" \o (IF w # "" THEN ToJson([ rej |-> tr, at |-> 0, why |-> w, info |-> Rows[tr].text ]) ELSE ToJson([ acc |-> tr ])))
  /\ UNCHANGED << ops, tr >>
=============================================================================
