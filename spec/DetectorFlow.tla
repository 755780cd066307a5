---------------------------- MODULE DetectorFlow ----------------------------
(***************************************************************************)
(* Which detectors and observables would notice a Pauli error at each      *)
(* point of a Clifford circuit, computed by walking the circuit backwards. *)
(*                                                                         *)
(* State: for every qubit the set of detectors (positive) and observables  *)
(* (negative) flipped by an X / Z error at the current point.  Each        *)
(* measurement event carries, per target, the detectors and observables    *)
(* that include its record.                                                *)
(*                                                                         *)
(* C03  A detector is deterministic iff it is insensitive to the error     *)
(*      that each collapse randomises: Z at a Z reset, Z at a Z            *)
(*      measurement, the measured product at a product measurement, and Z  *)
(*      on the initial |0> states.                                         *)
(* C19  Every noise event yields the symptoms of its elementary faults;    *)
(*      they are printed for the fault-set search (FaultSearch), and each  *)
(*      must be seen by at most two detectors of each class.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
SCOPE == IOEnv.SCOPE

VARIABLES tr, pc, s
View == << tr, pc >>

T == Traces[tr]
NQ == T.nq
Q == 1 .. NQ

Sens(st, P, q) == IF P = "X" THEN st.x[q] ELSE IF P = "Z" THEN st.z[q] ELSE SymDiff(st.x[q], st.z[q])

(* U X U^-1 and U Z U^-1, up to sign. *)
Push ==
  [ I |-> << "X", "Z" >>, X |-> << "X", "Z" >>, Y |-> << "X", "Z" >>, Z |-> << "X", "Z" >>,
    H |-> << "Z", "X" >>, H_YZ |-> << "X", "Y" >>, H_XY |-> << "Y", "Z" >>,
    C_XYZ |-> << "Y", "X" >>, C_ZYX |-> << "Z", "Y" >>,
    S |-> << "Y", "Z" >>, S_DAG |-> << "Y", "Z" >>, SQRT_X |-> << "X", "Y" >>, SQRT_X_DAG |-> << "X", "Y" >>,
    SQRT_Y |-> << "Z", "X" >>, SQRT_Y_DAG |-> << "Z", "X" >> ]
PairAxes ==
  [ CX |-> << "Z", "X" >>, CY |-> << "Z", "Y" >>, CZ |-> << "Z", "Z" >>,
    XCX |-> << "X", "X" >>, XCY |-> << "X", "Y" >>, XCZ |-> << "X", "Z" >>,
    YCX |-> << "Y", "X" >>, YCY |-> << "Y", "Y" >>, YCZ |-> << "Y", "Z" >> ]
CollapseAxis == [ R |-> "Z", RX |-> "X", RY |-> "Y", M |-> "Z", MX |-> "X", MY |-> "Y" ]

Init == /\ tr \in 1 .. Len(Traces)
        /\ pc = Len(Traces[tr].ev)
        /\ s = [ x |-> [ q \in 1 .. Traces[tr].nq |-> {} ], z |-> [ q \in 1 .. Traces[tr].nq |-> {} ],
                 why |-> "", info |-> << >> ]

Fail(st, why, info) == [ st EXCEPT !.why = why, !.info = info ]

DoReset(st, g, t) ==
  LET S == TLCEval(ToSet(t))
      bad == { q \in S : Sens(st, CollapseAxis[g], q) # {} }
  IN  IF bad # {} THEN Fail(st, "a detector or observable depends on a freshly reset qubit's random component",
                            { << q, Sens(st, CollapseAxis[g], q) >> : q \in bad })
      ELSE [ st EXCEPT !.x = [ q \in Q |-> IF q \in S THEN {} ELSE @[q] ],
                       !.z = [ q \in Q |-> IF q \in S THEN {} ELSE @[q] ] ]

DoGate(st, g, t) ==
  LET S == TLCEval(ToSet(t))
      p == Push[g]
  IN  [ st EXCEPT !.x = [ q \in Q |-> IF q \in S THEN Sens(st, p[1], q) ELSE @[q] ],
                  !.z = [ q \in Q |-> IF q \in S THEN Sens(st, p[2], q) ELSE @[q] ] ]

DoPairs(st, g, m, r) ==
  LET a == PairAxes[g]
      mine(q) == a[r[q]]
      kick(q) == Sens(st, a[3 - r[q]], m[q])      \* what the partner's kicked-back Pauli would flip
  IN  [ st EXCEPT
        !.x = [ q \in Q |-> IF m[q] = 0 \/ mine(q) = "X" THEN @[q] ELSE SymDiff(@[q], kick(q)) ],
        !.z = [ q \in Q |-> IF m[q] = 0 \/ mine(q) = "Z" THEN @[q] ELSE SymDiff(@[q], kick(q)) ] ]

DoMeasure(st, g, t, ix, sn) ==
  LET a == CollapseAxis[g]
      bad == { q \in ToSet(t) : Sens(st, a, q) # {} }
  IN  IF bad # {} THEN Fail(st, "a detector or observable is randomised by a measurement",
                            { << q, Sens(st, a, q) >> : q \in bad })
      ELSE [ st EXCEPT
             !.x = [ q \in Q |-> IF ix[q] = 0 \/ a = "X" THEN @[q] ELSE SymDiff(@[q], ToSet(sn[ix[q]])) ],
             !.z = [ q \in Q |-> IF ix[q] = 0 \/ a = "Z" THEN @[q] ELSE SymDiff(@[q], ToSet(sn[ix[q]])) ] ]

DoMpp(st, g, ix, r, sn) ==
  LET prod(i) == FoldLeft(LAMBDA acc, y : SymDiff(acc, Sens(st, y[1], y[2])), {}, g[i])
      bad == { i \in 1 .. Len(g) : prod(i) # {} }
      a(q) == g[ix[q]][r[q]][1]
  IN  IF bad # {} THEN Fail(st, "a detector or observable is randomised by a parity measurement", { << g[i], prod(i) >> : i \in bad })
      ELSE [ st EXCEPT
             !.x = [ q \in Q |-> IF ix[q] = 0 THEN @[q] ELSE IF a(q) = "X" THEN @[q] ELSE SymDiff(@[q], ToSet(sn[ix[q]])) ],
             !.z = [ q \in Q |-> IF ix[q] = 0 THEN @[q] ELSE IF a(q) = "Z" THEN @[q] ELSE SymDiff(@[q], ToSet(sn[ix[q]])) ] ]

-----------------------------------------------------------------------------
(* Elementary faults of noise events. *)
Paulis1 == { "X", "Y", "Z" }
Dets(S) == { d \in S : d > 0 }
One(st, q) == { Sens(st, P, q) : P \in Paulis1 }
Two(st, a, b) == { SymDiff(u, v) : u \in One(st, a) \cup { {} }, v \in One(st, b) \cup { {} } }
Faults(st, e) ==
  CASE e.o = "N" /\ e.g = "X_ERROR" -> { Sens(st, "X", q) : q \in ToSet(e.t) }
    [] e.o = "N" /\ e.g = "Y_ERROR" -> { Sens(st, "Y", q) : q \in ToSet(e.t) }
    [] e.o = "N" /\ e.g = "Z_ERROR" -> { Sens(st, "Z", q) : q \in ToSet(e.t) }
    [] e.o = "N" /\ e.g = "DEPOLARIZE1" -> UNION { One(st, q) : q \in ToSet(e.t) }
    [] e.o = "N" /\ e.g = "DEPOLARIZE2" -> UNION { Two(st, e.t[2 * i - 1], e.t[2 * i]) : i \in 1 .. Len(e.t) \div 2 }
    [] e.o = "E" -> { FoldLeft(LAMBDA acc, y : SymDiff(acc, Sens(st, y[1], y[2])), {}, e.t) }
    [] e.o \in { "M", "MPP" } /\ e.nz = 1 -> { ToSet(e.s[i]) : i \in 1 .. Len(e.s) }
    [] OTHER -> {}
NoisyQubits(e) ==
  IF e.o = "N" THEN ToSet(e.t) ELSE IF e.o = "E" THEN { e.t[i][2] : i \in 1 .. Len(e.t) } ELSE {}
(* Detectors fall into two classes (even and odd sub-rounds).  Decoding by matching needs every       *)
(* elementary part of a fault - one Pauli on one qubit, or one flipped record - to be seen by at most  *)
(* two detectors of each class.                                                                        *)
Classes(S) == << { d \in S : d > 0 /\ T.dt[d] % 2 = 0 }, { d \in S : d > 0 /\ T.dt[d] % 2 = 1 } >>
Small(S) == LET c == Classes(S) IN Cardinality(c[1]) <= 2 /\ Cardinality(c[2]) <= 2
NoiseStep(st, e) ==
  LET bad == IF SCOPE # "C19" THEN {} ELSE { q \in NoisyQubits(e) : \E P \in Paulis1 : ~Small(Sens(st, P, q)) }
      badM == IF SCOPE = "C19" /\ e.o \in { "M", "MPP" } /\ e.nz = 1 THEN { i \in 1 .. Len(e.s) : ~Small(ToSet(e.s[i])) } ELSE {}
      fs == TLCEval(Faults(st, e) \ { {} })
  IN  IF bad # {} THEN Fail(st, "an error is seen by more than two detectors of one class",
                            { << q, One(st, q) >> : q \in bad })
      ELSE IF badM # {} THEN Fail(st, "a measurement error is seen by more than two detectors of one class", badM)
      ELSE IF fs = {} \/ PrintT("@@" \o ToJson([ tr |-> tr, f |-> SetToSeq({ SetToSeq(f) : f \in fs }) ])) THEN st ELSE st

-----------------------------------------------------------------------------
Apply(st0, e) ==
  LET st == IF SCOPE \in { "C19", "SYMPTOMS" } /\ e.o \in { "N", "E", "M", "MPP" } THEN TLCEval(NoiseStep(st0, e)) ELSE st0
  IN  IF st.why # "" THEN st
      ELSE CASE e.o \in { "R", "RX", "RY" } -> DoReset(st, e.o, e.t)
        [] e.o = "G" -> DoGate(st, e.g, e.t)
        [] e.o = "P" -> DoPairs(st, e.g, e.m, e.r)
        [] e.o = "M" -> DoMeasure(st, e.g, e.t, e.ix, e.s)
        [] e.o = "MPP" -> DoMpp(st, e.g, e.ix, e.r, e.s)
        [] e.o \in { "N", "E" } -> st
        [] OTHER -> Fail(st, "unexpected instruction", e.o)

AtStart(st) ==
  LET bad == { q \in Q : st.z[q] # {} }
  IN  IF bad # {} THEN Fail(st, "a detector or observable depends on the initial state's random component", bad) ELSE st

Next ==
  /\ s.why = ""
  /\ pc >= 1
  /\ LET s1 == TLCEval(Apply(s, T.ev[pc]))
         s2 == IF pc = 1 /\ s1.why = "" THEN AtStart(s1) ELSE s1
     IN  /\ s' = s2
         /\ pc' = pc - 1
         /\ IF s2.why # "" THEN PrintT("@@" \o ToJson([ rej |-> tr, at |-> pc, why |-> s2.why, info |-> ToString(s2.info) ]))
            ELSE IF pc = 1 THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE
  /\ UNCHANGED tr
=============================================================================
