-------------------------------- MODULE Work --------------------------------
(***************************************************************************)
(* How much of an experiment is left.  An experiment has taken n shots     *)
(* with e errors in t clock ticks; its limits are p = [ms, me, bn, bd]:    *)
(* shots, errors, and the circuit breaker rate bn/bd, which trips from     *)
(* ten shots on.                                                           *)
(*                                                                         *)
(* Model (MInit/MNext): batches are added until the work is finished; the  *)
(* invariants are what users of the accounting rely on.                    *)
(* Traces (TInit/TNext): histories of the implementation, one point after  *)
(* each batch; n, e, ms, me are in units of `scale` shots.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC

CeilDiv(a, b) == (a + b - 1) \div b
Finished(x, p, scale) ==
  \/ x.n >= p.ms
  \/ x.e >= p.me
  \/ x.n >= CeilDiv(10, scale) /\ x.e * p.bd >= p.bn * x.n
RemShots(x, p, scale) == IF Finished(x, p, scale) THEN 0 ELSE p.ms - x.n
RemErrors(x, p, scale) == IF Finished(x, p, scale) THEN 0 ELSE p.me - x.e

(* Times are fractions; <<1, 0>> is unbounded. *)
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Equal(a, b) == a[1] * b[2] = b[1] * a[2] /\ (a[2] = 0) = (b[2] = 0)
RemTime(x, p, scale) ==
  IF Finished(x, p, scale) THEN << 0, 1 >>
  ELSE LET byShots == IF x.n > 0 THEN << (p.ms - x.n) * x.t, x.n >> ELSE << 1, 0 >>
           byErrors == IF x.e > 0 THEN << (p.me - x.e) * x.t, x.e >> ELSE << 1, 0 >>
       IN  IF Less(byErrors, byShots) THEN byErrors ELSE byShots

-----------------------------------------------------------------------------
CONSTANTS MaxShots, MaxErrors
VARIABLES x, p, tr, l
mvars == << x, p, tr, l >>
View == << x, p, tr, l >>
MInit ==
  /\ x = [ n |-> 0, e |-> 0, t |-> 0 ]
  /\ \E ms \in 0 .. MaxShots, me \in 0 .. MaxErrors, b \in { << 0, 1 >>, << 1, 4 >>, << 1, 2 >>, << 1, 1 >>, << 3, 2 >> } :
       p = [ ms |-> ms, me |-> me, bn |-> b[1], bd |-> b[2] ]
  /\ tr = 0 /\ l = 0
MNext ==
  /\ ~Finished(x, p, 1)
  /\ \E n \in 1 .. RemShots(x, p, 1) : \E e \in 0 .. n :
       x' = [ n |-> x.n + n, e |-> x.e + e, t |-> x.t + n ]
  /\ UNCHANGED << p, tr, l >>
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)
Positive == IF Finished(x, p, 1) THEN RemShots(x, p, 1) = 0 /\ RemErrors(x, p, 1) = 0 /\ RemTime(x, p, 1) = << 0, 1 >>
            ELSE RemShots(x, p, 1) > 0 /\ RemErrors(x, p, 1) > 0 /\ (x.n = 0 => RemTime(x, p, 1)[2] = 0)
(* Taking the remaining shots always finishes; nothing ever takes more than the limit. *)
Enough == ~Finished(x, p, 1) => Finished([ n |-> x.n + RemShots(x, p, 1), e |-> x.e, t |-> x.t ], p, 1)
Limit == x.n <= p.ms \/ x.n = 0
Done == <>Finished(x, p, 1)

-----------------------------------------------------------------------------
Rows == ndJsonDeserialize(IOEnv.TRACES)
R == Rows[tr]
TInit == tr \in 1 .. Len(Rows) /\ l = 0 /\ x = << >> /\ p = "judging"
Fault(r, o) ==
  LET y == [ n |-> o.n, e |-> o.e, t |-> o.t ]
      q == [ ms |-> r.ms, me |-> r.me, bn |-> r.bn, bd |-> r.bd ]
  IN  CASE o.fin # (IF Finished(y, q, r.scale) THEN 1 ELSE 0) -> "work is not reported finished exactly when a limit is reached"
        [] o.rs # RemShots(y, q, r.scale) -> "the remaining shots are not what is missing to the limit"
        [] o.re # RemErrors(y, q, r.scale) -> "the remaining errors are not what is missing to the limit"
        [] ~Equal(o.rt, RemTime(y, q, r.scale)) -> "the remaining time is not the smaller extrapolation"
        [] OTHER -> ""
TNext ==
  /\ p = "judging" /\ l < Len(R.pts)
  /\ LET w == TLCEval(Fault(R, R.pts[l + 1]))
     IN  /\ p' = IF w = "" THEN p ELSE w
         /\ IF w # "" THEN PrintT("@@" \o ToJson([ rej |-> tr, at |-> l, why |-> w, info |-> << R.ms, R.me, R.bn, R.bd, R.scale, R.pts[l + 1] >> ]))
            ELSE IF l + 1 = Len(R.pts) THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE
  /\ l' = l + 1 /\ UNCHANGED << x, tr >>
=============================================================================
