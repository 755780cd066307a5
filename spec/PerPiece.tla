------------------------------ MODULE PerPiece ------------------------------
(***************************************************************************)
(* Independent flips.  Model: pieces with flip probability num/den are     *)
(* composed one at a time; the total flips iff an odd number of them does. *)
(* Every reachable total is printed: a converter must map (total, pieces)  *)
(* back to num/den.  Parity invariant: 1 - 2 total = (1 - 2 p)^pieces.     *)
(*                                                                         *)
(* Traces: the converter's values on a grid of totals for one number of    *)
(* pieces, in units of 10^-9 (f[i + 1] at total i / (Len(f) - 1)).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC

CONSTANTS MaxDen, MaxTotal
VARIABLES num, den, pieces, tot, base, tr, why
View == << num, den, pieces, tot, base, tr, why >>

(* tot / base is the total flip probability; base = den^pieces is kept unreduced. *)
MInit ==
  /\ den \in 1 .. MaxDen /\ num \in 0 .. den
  /\ pieces = 1 /\ tot = num /\ base = den
  /\ tr = 0 /\ why = ""
MNext ==
  /\ base * den <= MaxTotal /\ pieces < 20
  /\ pieces' = pieces + 1
  /\ tot' = tot * (den - num) + (base - tot) * num
  /\ base' = base * den
  /\ UNCHANGED << num, den, tr, why >>
Pow(a, n) == FoldLeft(LAMBDA acc, i : acc * a, 1, [ i \in 1 .. n |-> i ])
Parity == base - 2 * tot = Pow(den - 2 * num, pieces)
(* Where the piece is determined by the total: at most one half, or oddly many pieces. *)
Determined == 2 * num <= den \/ pieces % 2 = 1
Report == Determined => PrintT("@@" \o ToJson([ n |-> pieces, t |-> << tot, base >>, p |-> << num, den >> ]))

-----------------------------------------------------------------------------
Rows == ndJsonDeserialize(IOEnv.TRACES)
Giga == 1000000000
Fault(r) ==
  LET m == Len(r.f) - 1
      f(i) == r.f[i + 1]
      tol == 2
  IN  CASE f(0) # 0 \/ f(m) # Giga -> "0 and 1 are not fixed"
        [] m % 2 = 0 /\ f(m \div 2) # Giga \div 2 -> "one half is not fixed"
        [] \E i \in 0 .. m - 1 : f(i + 1) < f(i) - tol -> "the per-piece rate falls when the total rises"
        [] \E i \in 0 .. m : f(i) + f(m - i) > Giga + tol \/ f(i) + f(m - i) < Giga - tol -> "p and 1-p are not treated symmetrically"
        [] \E i \in 0 .. m \div 2 : f(i) > (Giga \div m) * i + tol -> "the per-piece rate exceeds the total rate"
        [] r.n > 1 /\ \E i \in 1 .. (m - 1) \div 2 : f(i) >= (Giga \div m) * i -> "the per-piece rate does not shrink with several pieces"
        [] r.n = 1 /\ \E i \in 0 .. m : f(i) > (Giga \div m) * i + tol \/ f(i) < (Giga \div m) * i - tol -> "one piece is not the total"
        [] OTHER -> ""
TInit == tr \in 1 .. Len(Rows) /\ why = "" /\ num = 0 /\ den = 1 /\ pieces = 0 /\ tot = 0 /\ base = 1
TNext ==
  /\ pieces = 0 /\ pieces' = 1
  /\ LET w == TLCEval(Fault(Rows[tr]))
     IN  why' = w /\ PrintT("@@" \o (IF w # "" THEN ToJson([ rej |-> tr, at |-> 0, why |-> w, info |-> Rows[tr].n ]) ELSE ToJson([ acc |-> tr ])))
  /\ UNCHANGED << num, den, tot, base, tr >>
=============================================================================
