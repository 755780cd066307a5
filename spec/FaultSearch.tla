---------------------------- MODULE FaultSearch ----------------------------
(***************************************************************************)
(* Exhaustive search for small undetected logical failures.                *)
(*                                                                         *)
(* Each problem lists elementary faults (detectors flipped, observable     *)
(* flipped or not) and a limit.  A behaviour assembles a fault set: it     *)
(* starts with a fault that flips the observable and keeps adding a fault  *)
(* that touches the smallest detector still lit.  Every undetected set     *)
(* with odd observable parity contains one assembled this way, so if no    *)
(* behaviour within the limit reaches "nothing lit, observable flipped",   *)
(* every logical failure needs more than limit faults.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC

Problems == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES pr, lit, par, cnt, used
View == << pr, lit, par, cnt >>

P == Problems[pr]
CeilDiv(a, b) == (a + b - 1) \div b
Feasible(n, c) == c + CeilDiv(n, P.deg) <= P.limit     \* enough faults left to switch everything off

Init == /\ pr \in 1 .. Len(Problems)
        /\ \E f \in 1 .. Len(Problems[pr].f) :
             /\ Problems[pr].f[f].o = 1
             /\ lit = ToSet(Problems[pr].f[f].d)
             /\ par = 1
             /\ cnt = 1
             /\ used = << f >>
        /\ cnt <= Problems[pr].limit

Failure == lit = {} /\ par = 1

Next ==
  /\ lit # {}
  /\ cnt < P.limit
  /\ Feasible(Cardinality(lit), cnt)
  /\ \E i \in 1 .. Len(P.at[Min(lit)]) :
       LET f == P.at[Min(lit)][i]
           l == SymDiff(lit, ToSet(P.f[f].d))
       IN  /\ Feasible(Cardinality(l), cnt + 1)
           /\ lit' = l
           /\ par' = (par + P.f[f].o) % 2
           /\ cnt' = cnt + 1
           /\ used' = Append(used, f)
  /\ pr' = pr

(* Evaluated on every state: report failures without stopping at the first problem's. *)
Report == Failure => PrintT("@@" \o ToJson([ fail |-> pr, faults |-> used ]))
=============================================================================
