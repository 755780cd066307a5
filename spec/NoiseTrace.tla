----------------------------- MODULE NoiseTrace -----------------------------
(***************************************************************************)
(* Noise models as a transition system over the moments of a program, and  *)
(* the validation of noisy circuits against it (C06, C07, C08).            *)
(*                                                                         *)
(* A moment is what happens between two ticks / loop boundaries.  A chunk  *)
(* is a tick-delimited piece of a program (a run of moments).  Per chunk   *)
(* the trace gives the source operations and the noisy circuit's atoms in  *)
(* order; Noisy is the action "this chunk, with exactly its noise".        *)
(*                                                                         *)
(* Atoms: op   [k, g, t, b, v, x, a]  gate name, targets, MPP bases,       *)
(*                                    result inversion, annotation text,   *)
(*                                    argument as a rate                   *)
(*        nz   [k, g, t, a]           noise channel                        *)
(*        gad  [k, anc, ev]           everything between the reset and the *)
(*                                    measurement of a foreign qubit       *)
(* Rates are integers in a unit fixed per trace.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, IOUtils

Rows == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, c, why, qset
View == << tr, c >>

Cliffords1 == { "C_XYZ", "C_ZYX", "H", "H_YZ", "I" }
Cliffords2 == { "CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ" }
Resets == { "R", "RX", "RY" }
Measures == { "M", "MX", "MY" }
Annotations == { "OBSERVABLE_INCLUDE", "DETECTOR", "SHIFT_COORDS", "QUBIT_COORDS" }
Known == Cliffords1 \cup Cliffords2 \cup Resets \cup Measures \cup { "MPP" }

(* The named error models, rates in thousandths of p (what the paper's table promises). *)
NamedModel(name) ==
  CASE name = "SD6"  -> [ g |-> [ CX |-> 1000, R |-> 1000, M |-> 1000 ], c1 |-> 1000, c2 |-> -1, idle |-> 1000, mri |-> 0, corr |-> FALSE ]
    [] name = "PC3"  -> [ g |-> [ R |-> 1000, M |-> 1000 ], c1 |-> 1000, c2 |-> 1000, idle |-> 1000, mri |-> 0, corr |-> FALSE ]
    [] name = "EM3"  -> [ g |-> [ R |-> 1000, M |-> 1000, MPP |-> 1000 ], c1 |-> 1000, c2 |-> -1, idle |-> 1000, mri |-> 0, corr |-> FALSE ]
    [] name = "EM3_v2" -> [ g |-> [ R |-> 500, M |-> 500, MPP |-> 1000 ], c1 |-> 0, c2 |-> 0, idle |-> 1000, mri |-> 0, corr |-> TRUE ]
    [] name = "SI1000" -> [ g |-> [ CZ |-> 1000, R |-> 2000, M |-> 5000 ], c1 |-> 100, c2 |-> -1, idle |-> 100, mri |-> 2000, corr |-> FALSE ]

Model(row) == IF row.named # "" THEN NamedModel(row.named) ELSE row.model

Covered(mdl, op) ==
  \/ op.g \in Annotations
  \/ op.g \in DOMAIN mdl.g
  \/ op.g \in Cliffords1 /\ mdl.c1 >= 0
  \/ op.g \in Cliffords2 /\ mdl.c2 >= 0
Rate(mdl, op) ==
  IF op.g \in Annotations THEN 0
  ELSE IF op.g \in DOMAIN mdl.g THEN mdl.g[op.g]
  ELSE IF op.g \in Cliffords1 THEN mdl.c1 ELSE mdl.c2

-----------------------------------------------------------------------------
(* What one operation owes the qubit q it acts on: entries <<name, qubits, rate>>. *)
FlipName(g) == CASE g \in { "RX", "MX" } -> "Z_ERROR" [] g \in { "RY", "MY" } -> "FLIP_Y" [] OTHER -> "X_ERROR"
PairOf(op, q) ==
  LET i == CHOOSE i \in 1 .. Len(op.t) : op.t[i] = q IN { op.t[i], op.t[IF i % 2 = 1 THEN i + 1 ELSE i - 1] }
Before(mdl, op, q) ==
  LET r == Rate(mdl, op)
  IN  IF r <= 0 THEN << >>
      ELSE IF op.g \in Measures THEN << << FlipName(op.g), { q }, r >> >>
      ELSE IF op.g = "MPP" /\ ~mdl.corr THEN << << "DEPOLARIZE2", PairOf(op, q), r >> >>
      ELSE << >>
After(mdl, op, q) ==
  LET r == Rate(mdl, op)
  IN  IF r <= 0 THEN << >>
      ELSE IF op.g \in Resets THEN << << FlipName(op.g), { q }, r >> >>
      ELSE IF op.g \in Cliffords1 THEN << << "DEPOLARIZE1", { q }, r >> >>
      ELSE IF op.g \in Cliffords2 THEN << << "DEPOLARIZE2", PairOf(op, q), r >> >>
      ELSE << >>
(* The flip argument an MPP carries. *)
ArgOf(mdl, op) == IF op.g = "MPP" /\ ~mdl.corr /\ Rate(mdl, op) > 0 THEN Rate(mdl, op) ELSE op.a

Active(ops) == \E i \in 1 .. Len(ops) : ops[i].g \notin Annotations
MeasureReset(ops) == \E i \in 1 .. Len(ops) : ops[i].g \in Measures \cup Resets

-----------------------------------------------------------------------------
(* Correlated parity-measurement gadget (C07): Paulis on (first, second, ancilla) up to sign as pairs of bits. *)
Bits(a) == CASE a = "I" -> << 0, 0 >> [] a = "X" -> << 1, 0 >> [] a = "Y" -> << 1, 1 >> [] a = "Z" -> << 0, 1 >>
Anti(a, b) == (a[1] * b[2] + a[2] * b[1]) % 2
Mul(a, b) == << (a[1] + b[1]) % 2, (a[2] + b[2]) % 2 >>
Axes(g) == \* bases in which the first / second target of a two-qubit gate is controlled
  CASE g = "CX" -> << "Z", "X" >> [] g = "CY" -> << "Z", "Y" >> [] g = "CZ" -> << "Z", "Z" >>
    [] g = "XCX" -> << "X", "X" >> [] g = "XCY" -> << "X", "Y" >> [] g = "XCZ" -> << "X", "Z" >>
    [] g = "YCX" -> << "Y", "X" >> [] g = "YCY" -> << "Y", "Y" >> [] g = "YCZ" -> << "Y", "Z" >>
RBasis(g) == CASE g \in { "R", "M" } -> "Z" [] g \in { "RX", "MX" } -> "X" [] OTHER -> "Y"

(* Slot of a qubit in the gadget: 1, 2 for the measured pair, 3 for the ancilla, 0 for strangers. *)
Slot(op, anc, q) == IF q = anc THEN 3 ELSE IF q = op.t[1] THEN 1 ELSE IF q = op.t[2] THEN 2 ELSE 0
Conj(op, anc, e, P) ==  \* conjugate the three-qubit Pauli P by the controlled gate e
  LET s == Slot(op, anc, e.t[1])  u == Slot(op, anc, e.t[2])
      A == Bits(Axes(e.g)[1])  B == Bits(Axes(e.g)[2])
      ca == Anti(P[s], A)  cb == Anti(P[u], B)
  IN  [ P EXCEPT ![s] = IF cb = 1 THEN Mul(@, A) ELSE @, ![u] = IF ca = 1 THEN Mul(@, B) ELSE @ ]
NoPauli == << << 0, 0 >>, << 0, 0 >>, << 0, 0 >> >>
PauliOfE(op, anc, e) ==
  FoldSeq(LAMBDA x, acc : LET s == Slot(op, anc, x[2]) IN [ acc EXCEPT ![s] = Mul(@, Bits(x[1])) ], NoPauli, e.p)

GadgetOK(op, gad) ==
  LET ev == gad.ev
      n == Len(ev)
      gates == { i \in 1 .. n : ev[i].g \in Cliffords2 }
      errs == { i \in 1 .. n : ev[i].g = "E" }
      known == /\ n >= 4 /\ ev[1].g \in Resets /\ ev[n].g \in Measures
               /\ \A i \in 2 .. n - 1 : i \in gates \cup errs
               /\ \A i \in gates : /\ 3 \in { Slot(op, gad.anc, ev[i].t[1]), Slot(op, gad.anc, ev[i].t[2]) }
                                   /\ 0 \notin { Slot(op, gad.anc, ev[i].t[1]), Slot(op, gad.anc, ev[i].t[2]) }
               /\ \A i \in errs : \A j \in 1 .. Len(ev[i].p) : Slot(op, gad.anc, ev[i].p[j][2]) # 0
               /\ \A s \in 1 .. 2 : Cardinality({ i \in gates : s \in { Slot(op, gad.anc, ev[i].t[1]), Slot(op, gad.anc, ev[i].t[2]) } }) = 1
               /\ Cardinality(gates) = 2
      mb == Bits(RBasis(ev[n].g))
      start == [ NoPauli EXCEPT ![3] = mb ]
      \* the measured observable pulled back to just after the reset
      back[i \in 0 .. n] == IF i = n THEN start ELSE IF i + 1 \in gates THEN Conj(op, gad.anc, ev[i + 1], back[i + 1]) ELSE back[i + 1]
      obs == back[1]
      \* an error pushed forward to just before the measurement
      fwd(i) == LET f[j \in i .. n - 1] == IF j = i THEN PauliOfE(op, gad.anc, ev[i])
                                           ELSE IF j \in gates THEN Conj(op, gad.anc, ev[j], f[j - 1]) ELSE f[j - 1]
                IN f[n - 1]
      effect(i) == LET P == TLCEval(fwd(i)) IN << P[1], P[2], Anti(P[3], mb) >>
      B2 == { 0, 1 } \X { 0, 1 }
      group == { << a, b, f >> : a \in B2, b \in B2, f \in { 0, 1 } } \ { << << 0, 0 >>, << 0, 0 >>, 0 >> }
      effects == TLCEval([ i \in errs |-> effect(i) ])
  IN  IF ~known THEN "the parity gadget touches something else or is malformed"
      ELSE IF ~(obs[1] = Bits(op.b[1]) /\ obs[2] = Bits(op.b[2]) /\ Anti(obs[3], Bits(RBasis(ev[1].g))) = 0)
        THEN "the gadget measures a different parity"
      ELSE IF ev[n].v # op.v THEN "the gadget's result inversion differs from the requested parity"
      ELSE IF Cardinality(errs) # 31 \/ { effects[i] : i \in errs } # group
        THEN "the gadget does not apply each of the 31 non-trivial combinations once"
      ELSE IF \E i \in errs : ev[i].u # 1 THEN "a combination's probability is not the uniform mixture's"
      ELSE ""

-----------------------------------------------------------------------------
SameOp(mdl, s, a) ==
  /\ a.g = s.g /\ a.t = s.t /\ a.b = s.b /\ a.v = s.v /\ a.x = s.x
  /\ a.a = ArgOf(mdl, s)
Correlated(mdl, s) == mdl.corr /\ s.g = "MPP" /\ Rate(mdl, s) > 0

IsOp(a) == a.k # "nz"
Ops(ch) == SelectSeq(ch.o, IsOp)
Flat(ch) == FlattenSeq(ch.m)

OpsClause(mdl, ch, foreign) ==
  LET A == TLCEval(Ops(ch))  S == TLCEval(Flat(ch))
      bad == IF Len(A) # Len(S) THEN { 0 }
             ELSE { i \in 1 .. Len(S) :
                      IF Correlated(mdl, S[i]) THEN A[i].k # "gad" ELSE A[i].k # "op" \/ ~SameOp(mdl, S[i], A[i]) }
      gads == IF bad # {} THEN {} ELSE { i \in 1 .. Len(S) : A[i].k = "gad" }
      strangers == { i \in gads : A[i].anc \notin foreign }
      wrong == { i \in gads : GadgetOK(S[i], A[i]) # "" }
  IN  IF bad # {} THEN "operations, annotations or their order changed"
      ELSE IF strangers # {} THEN "a parity measurement borrows a qubit of the circuit"
      ELSE IF wrong # {} THEN GadgetOK(S[Min(wrong)], A[Min(wrong)])
      ELSE ""

(* Expected noise on q in a chunk: entries <<gap, name, qubits, rate>>; gap j = after the j-th operation on q
   in the chunk.  sq lists <<moment, operation>> for q in order. *)
ExpectedOn(mdl, ch, q, act, mr) ==
  LET sq == ch.sq[q]
      perOp == FlattenSeq([ j \in 1 .. Len(sq) |->
                 LET op == ch.m[sq[j][1]][sq[j][2]]
                     b == Before(mdl, op, q)  a == After(mdl, op, q)
                 IN  [ i \in 1 .. Len(b) |-> << j - 1 >> \o b[i] ] \o [ i \in 1 .. Len(a) |-> << j >> \o a[i] ] ])
      gapAfter(m) == Cardinality({ j \in 1 .. Len(sq) : sq[j][1] <= m })
      perMoment == FlattenSeq([ m \in 1 .. Len(ch.m) |->
                 LET mine == { j \in 1 .. Len(sq) : sq[j][1] = m }
                     waits == \A j \in mine : ch.m[sq[j][1]][sq[j][2]].g \notin Measures \cup Resets
                 IN  (IF q \in qset /\ mine = {} /\ act[m] /\ mdl.idle > 0
                        THEN << << gapAfter(m), "DEPOLARIZE1", { q }, mdl.idle >> >> ELSE << >>)
                     \o
                     (IF q \in qset /\ waits /\ mr[m] /\ mdl.mri > 0
                        THEN << << gapAfter(m), "DEPOLARIZE1", { q }, mdl.mri >> >> ELSE << >>) ])
  IN  perOp \o perMoment
ActualOn(ch, q) ==
  LET oq == ch.oq[q]
      gap(i) == Cardinality({ j \in 1 .. i : ch.o[oq[j]].k # "nz" })
      raw == [ i \in 1 .. Len(oq) |-> IF ch.o[oq[i]].k = "nz"
                 THEN << gap(i), ch.o[oq[i]].g, ToSet(ch.o[oq[i]].t), ch.o[oq[i]].a >> ELSE << >> ]
  IN  SelectSeq(raw, LAMBDA e : e # << >>)
(* X and Z errors have the same effect next to a Y-basis reset or measurement. *)
Norm(es, gapsY) ==
  [ i \in 1 .. Len(es) |-> IF es[i][1] \in gapsY /\ es[i][2] \in { "X_ERROR", "Z_ERROR", "FLIP_Y" }
                          THEN [ es[i] EXCEPT ![2] = "FLIP_Y" ] ELSE es[i] ]
Count(s, x) == Cardinality({ i \in 1 .. Len(s) : s[i] = x })
NoiseOn(mdl, ch, q, act, mr) ==
  LET E0 == TLCEval(ExpectedOn(mdl, ch, q, act, mr))
      A0 == TLCEval(ActualOn(ch, q))
      ys == { E0[i][1] : i \in { j \in 1 .. Len(E0) : E0[j][2] = "FLIP_Y" } }
      E == IF ys = {} THEN E0 ELSE TLCEval(Norm(E0, ys))
      A == IF ys = {} THEN A0 ELSE TLCEval(Norm(A0, ys))
  IN  IF Len(E) = Len(A) /\ \A i \in 1 .. Len(E) : Count(E, E[i]) = Count(A, E[i]) THEN ""
      ELSE "noise on a qubit is not what the model specifies: " \o ToString([ qubit |-> q, expected |-> E, found |-> A ])
NoiseClause(mdl, ch, nq) ==
  LET act == TLCEval([ m \in 1 .. Len(ch.m) |-> Active(ch.m[m]) ])
      mr == TLCEval([ m \in 1 .. Len(ch.m) |-> MeasureReset(ch.m[m]) ])
      bad == { q \in 1 .. nq : NoiseOn(mdl, ch, q, act, mr) # "" }
  IN  IF bad = {} THEN "" ELSE NoiseOn(mdl, ch, Min(bad), act, mr)

-----------------------------------------------------------------------------
R == Rows[tr]

Init == tr \in 1 .. Len(Rows) /\ c = 0 /\ why = "" /\ qset = {}

Say(w) == PrintT("@@" \o ToJson([ rej |-> tr, at |-> c, why |-> w, info |-> "" ]))
Refusable(mdl) == \E k \in 1 .. Len(R.ch) : \E m \in 1 .. Len(R.ch[k].m) : \E i \in 1 .. Len(R.ch[k].m[m]) :
                    ~Covered(mdl, R.ch[k].m[m][i])
Start ==
  /\ c = 0 /\ why = ""
  /\ qset' = { R.qs[i] : i \in 1 .. Len(R.qs) }
  /\ LET w == CASE R.refused = 1 /\ ~Refusable(Model(R)) -> "a circuit the model covers was refused"
                [] R.refused = 0 /\ Refusable(Model(R)) -> "an operation the model does not cover was accepted"
                [] R.refused = 0 /\ R.shape = 0 -> "ticks changed"
                [] OTHER -> ""
     IN  /\ why' = w
         /\ IF w # "" THEN Say(w)
            ELSE IF R.refused = 1 THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE
  /\ c' = IF R.refused = 1 THEN -1 ELSE 1
  /\ tr' = tr
Noisy ==
  /\ c >= 1 /\ why = "" /\ c <= Len(R.ch)
  /\ LET mdl == TLCEval(Model(R))
         ch == R.ch[c]
         w1 == TLCEval(OpsClause(mdl, ch, ToSet(R.foreign)))
         w == IF w1 # "" THEN w1 ELSE NoiseClause(mdl, ch, R.nq)
     IN  /\ why' = w
         /\ IF w # "" THEN Say(w)
            ELSE IF c = Len(R.ch) THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE
  /\ c' = c + 1
  /\ UNCHANGED << tr, qset >>
Next == Start \/ Noisy
=============================================================================
