--------------------------- MODULE HoneycombTrace ---------------------------
(***************************************************************************)
(* Trace specification for generated honeycomb memory circuits.            *)
(*                                                                         *)
(* A trace is the flattened instruction list of a circuit produced by the  *)
(* implementation (error channels silenced).  The specification runs an    *)
(* abstract machine over it:                                               *)
(*   fr   per qubit, which axis of the qubit's initial frame its current   *)
(*        X, Y, Z axes are (single qubit Cliffords, up to sign);           *)
(*   cnt  per data qubit, how many parity interactions it has had;         *)
(*   ax   per data qubit, the axes of its first three interactions (these  *)
(*        *define* the lab X, Y, Z axes, so the specification is invariant *)
(*        under local frame changes);                                      *)
(*   pend per ancilla, the interactions accumulated in its Z value that    *)
(*        have not been read yet; last: the record of its last reading;    *)
(*   hist per place, the set of measurement records whose parity is the    *)
(*        place's ideal outcome: for an edge one per sub-round measuring   *)
(*        it, for a data qubit its final outcome.                          *)
(* Interactions on different data qubits commute and every data qubit must *)
(* see its interactions in sub-round order, so an accepted circuit is      *)
(* equivalent to the ideal schedule.                                       *)
(*                                                                         *)
(* SCOPE selects the clauses a check is about: "C02" the schedule, "C04"   *)
(* additionally detectors, "C05" additionally the observable.              *)
(***************************************************************************)
EXTENDS Torus, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACES)
SCOPE == IOEnv.SCOPE

VARIABLES tr, pc, s
vars == << tr, pc, s >>
View == << tr, pc >>

T == Traces[tr]
W == T.w
H == T.h
N == T.n
NQ == Len(T.co)
EdgesPerType == (W * H) \div 2
HexesPerColor == (W * H) \div 6

(* What the tracked observable has become when the experiment ends (kept in the state: computed once). *)
FinalLogical == LET P == Logical(T.obs, N, W, H)
                IN  [ b |-> LogicalBasis(P), q |-> LogicalSupport(P), u |-> Uniform(P) ]

Axes == [ X |-> 1, Y |-> 2, Z |-> 3 ]
(* For a gate U: the axes U^-1 X U, U^-1 Y U, U^-1 Z U (up to sign). *)
PullBack ==
  [ I |-> << "X", "Y", "Z" >>, H |-> << "Z", "Y", "X" >>, H_YZ |-> << "X", "Z", "Y" >>, H_XY |-> << "Y", "X", "Z" >>,
    C_XYZ |-> << "Z", "X", "Y" >>, C_ZYX |-> << "Y", "Z", "X" >>,
    X |-> << "X", "Y", "Z" >>, Y |-> << "X", "Y", "Z" >>, Z |-> << "X", "Y", "Z" >>,
    S |-> << "Y", "X", "Z" >>, S_DAG |-> << "Y", "X", "Z" >>, SQRT_X |-> << "X", "Z", "Y" >>,
    SQRT_X_DAG |-> << "X", "Z", "Y" >>, SQRT_Y |-> << "Z", "Y", "X" >>, SQRT_Y_DAG |-> << "Z", "Y", "X" >> ]
(* Two qubit controlled Paulis: the axes on the first and second target. *)
PairAxes ==
  [ CX |-> << "Z", "X" >>, CY |-> << "Z", "Y" >>, CZ |-> << "Z", "Z" >>,
    XCX |-> << "X", "X" >>, XCY |-> << "X", "Y" >>, XCZ |-> << "X", "Z" >>,
    YCX |-> << "Y", "X" >>, YCY |-> << "Y", "Y" >>, YCZ |-> << "Y", "Z" >> ]
MeasAxis == [ M |-> "Z", MX |-> "X", MY |-> "Y" ]

Co(q) == T.co[q]                       \* doubled coordinates, <<>> when unplaced
DataQ(q) == Co(q) # << >> /\ IsData(Co(q))

Fresh == << "X", "Y", "Z" >>
Places == 4 * W * H
Idx(p) == (p[1] \div 2) * (2 * H) + p[2] + 1
InitState ==
  [ fr |-> [ q \in 1 .. NQ |-> Fresh ], cnt |-> [ q \in 1 .. NQ |-> 0 ], ax |-> [ q \in 1 .. NQ |-> << >> ],
    pend |-> [ q \in 1 .. NQ |-> {} ], last |-> [ q \in 1 .. NQ |-> 0 ], aax |-> [ q \in 1 .. NQ |-> "" ],
    fin |-> {}, nrec |-> 0, nout |-> 0, hist |-> [ i \in 1 .. Places |-> << >> ],
    fl |-> FinalLogical, dets |-> {}, diff |-> {}, sh |-> << 0, 0, 0 >>, why |-> "", info |-> << >> ]

Init == /\ tr \in 1 .. Len(Traces)
        /\ pc = 1
        /\ s = InitState

Fail(st, why, info) == [ st EXCEPT !.why = why, !.info = info ]

(* The initial-frame axis of a data qubit's k-th interaction must make sense. *)
AxisOK(st, q, A) ==
  LET k == st.cnt[q]
  IN  /\ (A = "Z") = (k % 3 = PrepBasis(T.obs))
      /\ IF k < 3 THEN \A i \in 1 .. Len(st.ax[q]) : st.ax[q][i] # A ELSE A = st.ax[q][(k % 3) + 1]
FinalBasis == s.fl.b
FinalAxisOK(st, q, A) ==
  LET b == FinalBasis
  IN  /\ (A = "Z") = (b = PrepBasis(T.obs))
      /\ IF Len(st.ax[q]) > b THEN A = st.ax[q][b + 1]
         ELSE \A i \in 1 .. Len(st.ax[q]) : st.ax[q][i] # A

-----------------------------------------------------------------------------
DoReset(st, t) ==
  LET S == TLCEval(ToSet(t))
      badData == { q \in S : DataQ(q) /\ (st.cnt[q] > 0 \/ q \in st.fin) }
      badAnc == { q \in S : st.pend[q] # {} }
  IN  IF badData # {} THEN Fail(st, "data qubit reset during the experiment", badData)
      ELSE IF badAnc # {} THEN Fail(st, "measurement qubit reset before its parity was read", badAnc)
      ELSE [ st EXCEPT !.fr = [ q \in 1 .. NQ |-> IF q \in S THEN Fresh ELSE @[q] ],
                       !.last = [ q \in 1 .. NQ |-> IF q \in S THEN 0 ELSE @[q] ],
                       !.aax = [ q \in 1 .. NQ |-> IF q \in S THEN "" ELSE @[q] ] ]

DoGate(st, g, t) ==
  LET S == TLCEval(ToSet(t))
      pb == PullBack[g]
      New(f) == << f[Axes[pb[1]]], f[Axes[pb[2]]], f[Axes[pb[3]]] >>
  IN  IF S \cap st.fin # {} THEN Fail(st, "gate on a data qubit after its final measurement", g)
      ELSE [ st EXCEPT !.fr = [ q \in 1 .. NQ |-> IF q \in S THEN New(@[q]) ELSE @[q] ] ]

(* Controlled Pauli layer; m[q] is q's partner (0: none), r[q] its role 1/2. *)
DoPairs(st, g, m, r) ==
  LET axs == PairAxes[g]
      A(q) == st.fr[q][Axes[axs[r[q]]]]
      used == TLCEval({ q \in 1 .. NQ : m[q] # 0 })
      d == TLCEval({ q \in used : DataQ(q) })
      a == TLCEval(used \ d)
      badMix == { q \in d : m[q] \in d } \cup { q \in a : m[q] \in a }
      badAx == { q \in d : ~AxisOK(st, q, A(q)) }
      late == { q \in d : q \in st.fin \/ st.cnt[q] >= N }
      badAnc == { q \in a : A(q) = "Z" \/ st.aax[q] \notin { "", A(q) } }
  IN  IF badMix # {} THEN Fail(st, "two-qubit gate not between a data qubit and a measurement qubit", badMix)
      ELSE IF late # {} THEN Fail(st, "data qubit interacts after the last requested sub-round", late)
      ELSE IF badAx # {} THEN Fail(st, "parity interaction in the wrong basis", [ g |-> g, q |-> badAx ])
      ELSE IF badAnc # {} THEN Fail(st, "measurement qubit accumulates along an inconsistent axis", badAnc)
      ELSE [ st EXCEPT
             !.pend = [ q \in 1 .. NQ |-> IF q \in a THEN @[q] \cup { << st.cnt[m[q]], m[q] >> } ELSE @[q] ],
             !.aax = [ q \in 1 .. NQ |-> IF q \in a THEN A(q) ELSE @[q] ],
             !.ax = [ q \in 1 .. NQ |-> IF q \in d /\ st.cnt[q] < 3 THEN Append(@[q], A(q)) ELSE @[q] ],
             !.cnt = [ q \in 1 .. NQ |-> IF q \in d THEN @[q] + 1 ELSE @[q] ] ]

(* The ideal outcome obtained from a pair of same-sub-round interactions; <<>> if it is none. *)
OutcomeOf(new) ==
  IF Cardinality(new) # 2 THEN << >>
  ELSE LET x == CHOOSE v \in new : TRUE
           y == CHOOSE v \in new : v # x
           e == EdgeBetween(Co(x[2]), Co(y[2]), W, H)
       IN  IF x[1] # y[1] \/ e = << >> THEN << >>
           ELSE IF EdgeType(e) # x[1] % 3 THEN << >> ELSE << x[1], e >>

OnMyPath(o) == o[1] < N /\ OnPath(T.obs, o[2], W, H)
(* Register outcomes: outs is a sequence of <<k, edge>>, rs the records whose parity they are. *)
Register(st, outs, rs) ==
  LET ids == TLCEval([ j \in 1 .. Len(outs) |-> Idx(outs[j][2]) ])
      at == TLCEval([ i \in ToSet(ids) |-> CHOOSE j \in 1 .. Len(outs) : ids[j] = i ])
      dom == TLCEval(DOMAIN at)
      dup == { j \in 1 .. Len(outs) : Len(st.hist[Idx(outs[j][2])]) # outs[j][1] \div 3 }
  IN  IF dup # {} THEN Fail(st, "edge parities read out of order", { outs[j] : j \in dup })
      ELSE [ st EXCEPT !.hist = [ i \in 1 .. Places |-> IF i \in dom THEN Append(@[i], rs[at[i]]) ELSE @[i] ],
                       !.nout = @ + Len(outs),
                       !.diff = IF SCOPE # "C05" THEN @
                                ELSE FoldLeft(LAMBDA acc, j : IF OnMyPath(outs[j]) THEN SymDiff(acc, rs[j]) ELSE acc,
                                              @, [ j \in 1 .. Len(outs) |-> j ]) ]

(* Single qubit measurements; ix[q] is q's position among the targets (0: not measured). *)
DoMeasure(st, g, t, ix) ==
  LET A(q) == st.fr[q][Axes[MeasAxis[g]]]
      S == TLCEval(ToSet(t))
      D == TLCEval({ q \in S : DataQ(q) })
      B == TLCEval(S \ D)
      early == { q \in D : st.cnt[q] # N }
      twice == D \cap st.fin
      wrong == { q \in D : ~FinalAxisOK(st, q, A(q)) }
      off == { q \in B : A(q) # "Z" }
      o == TLCEval([ q \in B |-> OutcomeOf(st.pend[q]) ])
      noEdge == { q \in B : o[q] = << >> }
      away == { q \in B \ noEdge : Co(q) # << >> /\ Co(q) # o[q][2] }
      bs == SelectSeq(t, LAMBDA q : q \in B)
      rs == TLCEval([ i \in 1 .. Len(bs) |-> { st.nrec + ix[bs[i]] } \cup (IF st.last[bs[i]] = 0 THEN {} ELSE { st.last[bs[i]] }) ])
      dloc == TLCEval([ q \in D |-> Idx(Co(q)) ])
      dd == TLCEval([ i \in { dloc[q] : q \in D } |-> CHOOSE q \in D : dloc[q] = i ])
      ddom == TLCEval(DOMAIN dd)
      st1 == TLCEval(Register(st, TLCEval([ i \in 1 .. Len(bs) |-> o[bs[i]] ]), rs))
  IN  IF early # {} THEN Fail(st, "data qubit measured before the last sub-round", early)
      ELSE IF twice # {} THEN Fail(st, "data qubit measured twice", twice)
      ELSE IF wrong # {} THEN Fail(st, "final data measurement in the wrong basis", wrong)
      ELSE IF off # {} THEN Fail(st, "measurement qubit read along the wrong axis", off)
      ELSE IF noEdge # {} THEN Fail(st, "measurement is not the parity of one edge of the sub-round",
                                    { << q, st.pend[q] >> : q \in noEdge })
      ELSE IF away # {} THEN Fail(st, "edge measured by a measurement qubit elsewhere", { << q, o[q] >> : q \in away })
      ELSE IF st1.why # "" THEN st1
      ELSE [ st1 EXCEPT
             !.pend = IF B = {} THEN @ ELSE [ q \in 1 .. NQ |-> IF q \in B THEN {} ELSE @[q] ],
             !.last = IF B = {} THEN @ ELSE [ q \in 1 .. NQ |-> IF q \in B THEN st.nrec + ix[q] ELSE @[q] ],
             !.nrec = @ + Len(t),
             !.fin = @ \cup D,
             !.hist = IF D = {} THEN @
                      ELSE [ i \in 1 .. Places |-> IF i \in ddom THEN << { st.nrec + ix[dd[i]] } >> ELSE @[i] ],
             !.diff = IF SCOPE # "C05" THEN @ ELSE SymDiff(@, { st.nrec + ix[q] : q \in { x \in D : Co(x) \in st.fl.q } }) ]

(* Direct pair measurements; g is a sequence of << <<axis, q, inv>>, <<axis, q, inv>> >>. *)
DoMpp(st, g, ix, r) ==
  LET odd == { i \in 1 .. Len(g) : Len(g[i]) # 2 \/ \E j \in 1 .. Len(g[i]) : ~DataQ(g[i][j][2]) }
      S == TLCEval({ q \in 1 .. NQ : ix[q] # 0 })
      A(q) == st.fr[q][Axes[g[ix[q]][r[q]][1]]]
      late == { q \in S : q \in st.fin \/ st.cnt[q] >= N }
      badAx == { q \in S : ~AxisOK(st, q, A(q)) }
      o == TLCEval([ i \in 1 .. Len(g) |-> OutcomeOf({ << st.cnt[g[i][j][2]], g[i][j][2] >> : j \in 1 .. 2 }) ])
      noEdge == { i \in 1 .. Len(g) : o[i] = << >> }
      st1 == TLCEval(Register(st, o, TLCEval([ i \in 1 .. Len(g) |-> { st.nrec + i } ])))
  IN  IF odd # {} THEN Fail(st, "parity measurement that is not on two data qubits", odd)
      ELSE IF late # {} THEN Fail(st, "data qubit interacts after the last requested sub-round", late)
      ELSE IF badAx # {} THEN Fail(st, "parity interaction in the wrong basis", badAx)
      ELSE IF noEdge # {} THEN Fail(st, "measurement is not the parity of one edge of the sub-round", noEdge)
      ELSE IF st1.why # "" THEN st1
      ELSE [ st1 EXCEPT
             !.ax = [ q \in 1 .. NQ |-> IF q \in S /\ st.cnt[q] < 3 THEN Append(@[q], A(q)) ELSE @[q] ],
             !.cnt = [ q \in 1 .. NQ |-> IF q \in S THEN @[q] + 1 ELSE @[q] ],
             !.nrec = @ + Len(g) ]

-----------------------------------------------------------------------------
(* Detectors. *)
Abs(st, r) == FoldLeft(LAMBDA acc, i : SymDiff(acc, { st.nrec + 1 - i }), {}, r)   \* look-backs to records
RecsExist(st, r) == \A i \in 1 .. Len(r) : r[i] >= 1 /\ r[i] <= st.nrec

None == << "none" >>
Some(x) == << "some", x >>
(* The value of hexagon h completed in sub-round k. *)
HexKnown(h, k) == k % 3 = (Color(h) + 2) % 3 /\ (k >= 1 \/ (k = 0 /\ (Color(h) + 1) % 3 = PrepBasis(T.obs)))
HexValue(h, k) ==
  (IF k >= 1 THEN { << k - 1, e >> : e \in FirstEdges(h, W, H) } ELSE {})
     \cup { << k, e >> : e \in SecondEdges(h, W, H) }
(* What h was known to be before sub-round k: an earlier value, or the initial state's. *)
HexRef(h, k) ==
  LET c == { j \in { k - 1, k - 2, k - 3 } : j >= 0 /\ HexKnown(h, j) }
  IN  IF c # {} THEN Some(HexValue(h, CHOOSE j \in c : TRUE))
      ELSE IF Color(h) = PrepBasis(T.obs) THEN Some({}) ELSE None
LastType == (N - 1) % 3
Data(qs) == { << -1, q >> : q \in qs }

ExpectedAt(p, t) ==       \* the detector expected at place p and time t, or None
  IF t < 0 \/ t > N THEN None
  ELSE IF IsEdge(p) THEN
    IF t = 0 /\ t < N /\ PrepBasis(T.obs) = 0 /\ EdgeType(p) = 0 THEN Some({ << 0, p >> })
    ELSE IF t = N /\ FinalBasis = LastType /\ EdgeType(p) = LastType
         THEN Some(SymDiff({ << N - 1, p >> }, Data(Ends(p, W, H))))
    ELSE None
  ELSE IF IsHex(p) THEN
    LET ref == HexRef(p, t)
    IN  IF ref = None THEN None
        ELSE IF t < N THEN IF HexKnown(p, t) THEN Some(SymDiff(HexValue(p, t), ref[2])) ELSE None
        ELSE IF Color(p) = FinalBasis THEN Some(SymDiff(Data(HexQubits(p, W, H)), ref[2]))
        ELSE IF FinalBasis # LastType /\ Color(p) # LastType
             THEN Some(SymDiff(Data(HexQubits(p, W, H)) \cup { << N - 1, e >> : e \in FirstEdges(p, W, H) }, ref[2]))
        ELSE None
  ELSE None

(* How many detectors there must be: by symmetry every place of a colour/type behaves alike. *)
RepHex(c) == CHOOSE h \in { << 0, 2 * j >> : j \in { 0, 2, 4 } } : Color(h) = c   \* rows 0,2,4 of column 0
RepEdge(t) == CHOOSE e \in { << 2, 2 * j + 1 >> : j \in 0 .. 2 } : EdgeType(e) = t
ExpectedCount ==
  LET hexAt == { << c, t >> \in (0 .. 2) \X (0 .. N) : ExpectedAt(RepHex(c), t) # None }
      edgeAt == { << c, t >> \in (0 .. 2) \X { 0, N } : ExpectedAt(RepEdge(c), t) # None }
  IN  Cardinality(hexAt) * HexesPerColor + Cardinality(edgeAt) * EdgesPerType

(* The records whose parity is the parity of a set of ideal outcomes ({0} in it: not available). *)
RecOf(st, o) ==
  LET h == st.hist[Idx(o[2])]
      i == IF o[1] = -1 THEN 1 ELSE o[1] \div 3 + 1
  IN  IF i <= Len(h) THEN h[i] ELSE { -o[1] - 2 }
Recs(st, os) == FoldSet(LAMBDA o, acc : SymDiff(acc, RecOf(st, o)), {}, os)

DetProblem(st, d) ==
  IF ~RecsExist(st, d.r) THEN "detector refers to measurements that do not exist"
  ELSE IF Len(d.c) # 3 THEN "detector without space-time coordinates"
  ELSE LET p == << d.c[1] + st.sh[1], d.c[2] + st.sh[2] >>
           e == ExpectedAt(p, d.c[3] + st.sh[3])
       IN  IF p[1] \notin 0 .. 4 * W - 1 \/ p[2] \notin 0 .. 2 * H - 1 \/ e = None THEN "detector where none is expected"
           ELSE IF Abs(st, d.r) # Recs(st, e[2]) THEN "detector compares the wrong measurements"
           ELSE ""
DoDetectors(st, ds) ==
  IF SCOPE # "C04" THEN st
  ELSE LET bad == { i \in 1 .. Len(ds) : DetProblem(st, ds[i]) # "" }
           At(d) == << d.c[1] + st.sh[1], d.c[2] + st.sh[2], d.c[3] + st.sh[3] >>
           new == TLCEval({ At(ds[i]) : i \in 1 .. Len(ds) })
       IN  IF bad # {} THEN LET i == Min(bad) IN Fail(st, DetProblem(st, ds[i]), [ d |-> ds[i], sh |-> st.sh ])
           ELSE IF Cardinality(new) # Len(ds) \/ \E x \in new : x \in st.dets
           THEN Fail(st, "two detectors for the same comparison", new \cap st.dets)
           ELSE [ st EXCEPT !.dets = @ \cup new ]

DoObservable(st, i, r) ==
  IF SCOPE # "C05" THEN st
  ELSE IF ~RecsExist(st, r) THEN Fail(st, "observable refers to measurements that do not exist", r)
  ELSE IF i # (IF T.obs = "V" THEN 0 ELSE 1) THEN Fail(st, "wrong observable index", i)
  ELSE [ st EXCEPT !.diff = SymDiff(@, Abs(st, r)) ]

-----------------------------------------------------------------------------
Apply(st, ev) ==
  CASE ev.o = "R" -> DoReset(st, ev.t)
    [] ev.o = "G" -> DoGate(st, ev.g, ev.t)
    [] ev.o = "P" -> DoPairs(st, ev.g, ev.m, ev.r)
    [] ev.o = "M" -> DoMeasure(st, ev.g, ev.t, ev.ix)
    [] ev.o = "MPP" -> DoMpp(st, ev.g, ev.ix, ev.r)
    [] ev.o = "DET" -> DoDetectors(st, ev.d)
    [] ev.o = "OBS" -> DoObservable(st, ev.i, ev.r)
    [] ev.o = "SHIFT" -> [ st EXCEPT !.sh = [ i \in 1 .. 3 |-> @[i] + (IF i <= Len(ev.c) THEN ev.c[i] ELSE 0) ] ]
    [] OTHER -> Fail(st, "unexpected instruction", ev.o)

NData == Cardinality({ q \in 1 .. NQ : DataQ(q) })
AtEnd(st) ==
  IF NData # W * H \/ { Co(q) : q \in { x \in 1 .. NQ : DataQ(x) } } # Qubits(W, H)
  THEN Fail(st, "the circuit's data qubits are not the patch's", NData)
  ELSE IF LET placed == { q \in 1 .. NQ : Co(q) # << >> } IN Cardinality({ Co(q) : q \in placed }) # Cardinality(placed)
  THEN Fail(st, "two qubits at the same place", << >>)
  ELSE IF Cardinality(st.fin) # W * H THEN Fail(st, "not every data qubit is measured at the end", W * H - Cardinality(st.fin))
  ELSE IF st.nout # N * EdgesPerType
  THEN Fail(st, "edge measurements missing", << st.nout, N * EdgesPerType >>)
  ELSE IF \E q \in 1 .. NQ : st.pend[q] # {} THEN Fail(st, "parity accumulated but never read", << >>)
  ELSE IF SCOPE = "C04" /\ Cardinality(st.dets) # ExpectedCount
  THEN Fail(st, "detectors missing", << Cardinality(st.dets), ExpectedCount >>)
  ELSE IF SCOPE = "C05" /\ st.diff # {}
  THEN Fail(st, "the observable is not the product of its path and final support; records in excess or missing", st.diff)
  ELSE IF ~st.fl.u THEN Fail(st, "the tracked operator cannot be read out in one basis", N)
  ELSE st

Next ==
  /\ s.why = ""
  /\ pc <= Len(T.ev)
  /\ LET s1 == TLCEval(Apply(s, T.ev[pc]))
         s2 == IF pc = Len(T.ev) /\ s1.why = "" THEN AtEnd(s1) ELSE s1
     IN  /\ s' = s2
         /\ pc' = pc + 1
         /\ IF s2.why # "" THEN PrintT("@@" \o ToJson([ rej |-> tr, at |-> pc, why |-> s2.why, info |-> ToString(s2.info) ]))
            ELSE IF pc = Len(T.ev) THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE
  /\ UNCHANGED tr
=============================================================================
