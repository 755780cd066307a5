------------------------------ MODULE Correct ------------------------------
(***************************************************************************)
(* What the distance of an experiment is good for: faults that are fewer   *)
(* than half the distance are corrected.                                   *)
(*                                                                         *)
(* A fault is the set of detectors (positive) and observables (negative)   *)
(* it flips.  Strikes accumulate; a decoder sees the lit detectors only    *)
(* and names the observables it believes flipped.                          *)
(*                                                                         *)
(* Model (MInit/MNext): all small tables of faults.  Whatever at most      *)
(* (d - 1) / 2 faults strike, where no set of fewer than d faults flips an *)
(* observable unseen, every smallest explanation of the lit detectors      *)
(* names the right observables: the promise is one a matching decoder can  *)
(* keep.                                                                   *)
(*                                                                         *)
(* Traces (TInit/TNext): the promised distance of a honeycomb experiment,  *)
(* the fault tables computed by DetectorFlow for its noisy circuit, and    *)
(* what the decoder said about strikes; or counts of rightly predicted     *)
(* shots of a circuit in which given faults are certain.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC

CONSTANTS Dets, MaxFaults

Rows == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, why
View == << tr, l, why >>

Xor(S) == FoldSet(LAMBDA a, b : SymDiff(a, b), {}, S)
Seen(S) == { x \in S : x > 0 }
Flips(S) == { x \in S : x < 0 }

-----------------------------------------------------------------------------
(* Model: tr is a table (a set of distinct faults), l the struck ones. *)
Kinds == { S \in SUBSET (Dets \cup { -1 }) : S # {} }
Unseen(tab, S) == LET x == Xor(S) IN Seen(x) = {} /\ Flips(x) # {}
Dist(tab) == LET bad == { Cardinality(S) : S \in { S \in SUBSET tab : Unseen(tab, S) } } IN IF bad = {} THEN Cardinality(tab) + 1 ELSE Min(bad)
Smallest(tab, lit) ==
  LET ex == { S \in SUBSET tab : Seen(Xor(S)) = lit }
      n == Min({ Cardinality(S) : S \in ex })
  IN  { S \in ex : Cardinality(S) = n }
MInit == /\ tr \in UNION { kSubset(k, Kinds) : k \in 1 .. MaxFaults }
         /\ l = {} /\ why = << Dist(tr) >>
MNext == \E f \in tr \ l : l' = l \cup { f } /\ UNCHANGED << tr, why >>
Corrected == 2 * Cardinality(l) < why[1] =>
               \A S \in Smallest(tr, Seen(Xor(l))) : Flips(Xor(S)) = Flips(Xor(l))
(* And the promise is not larger than that: some strike of half the distance is explained wrongly. *)
Tight == (l = {} /\ why[1] <= Cardinality(tr)) =>
           \E S \in SUBSET tr : Cardinality(S) = (why[1] + 1) \div 2 /\ \E E \in Smallest(tr, Seen(Xor(S))) : Flips(Xor(E)) # Flips(Xor(S))

-----------------------------------------------------------------------------
(* Traces. *)
R == Rows[tr]
Direct(s) == s \in { "EM3", "EM3_v2" }
Promised(r) == IF r.obs = "V" THEN (IF Direct(r.style) THEN r.w \div 2 ELSE r.w)
               ELSE (IF Direct(r.style) THEN r.h \div 3 ELSE r.h \div 2)
(* A fault that lights more than two detectors of one class is two edges of the decoding graph. *)
Parts(r, f) ==
  LET n(k) == Cardinality({ x \in f : x > 0 /\ r.dt[x] % 2 = k })
      m == IF n(0) > n(1) THEN n(0) ELSE n(1)
  IN  IF m <= 2 THEN 1 ELSE (m + 1) \div 2
Load(r, ids) == FoldLeft(LAMBDA a, i : a + Parts(r, ToSet(r.f[i])), 0, ids)
Shot(r, s) ==
  LET x == FoldLeft(LAMBDA a, i : SymDiff(a, ToSet(r.f[i])), {}, s.fs)
  IN  CASE ToSet(s.lit) # Seen(x) -> "the struck detectors are not the ones shown to the decoder"
        [] 2 * Load(r, s.fs) < Promised(r) /\ { -1 - o : o \in ToSet(s.o) } # Flips(x) -> "a correctable set of faults is corrected wrongly"
        [] OTHER -> ""
Judge(r, k) ==
  IF r.kind = "decode" THEN Shot(r, r.shots[k])
  ELSE LET s == r.shots[k]
       IN  IF 2 * s.load < Promised(r) /\ s.correct # s.n THEN "certain correctable faults are not corrected in every shot" ELSE ""
TInit == tr \in 1 .. Len(Rows) /\ l = 0 /\ why = ""
TNext ==
  /\ why = "" /\ l < Len(R.shots)
  /\ LET w == TLCEval(Judge(R, l + 1))
     IN  /\ why' = w
         /\ IF w # "" THEN PrintT("@@" \o ToJson([ rej |-> tr, at |-> l, why |-> w, info |-> R.shots[l + 1] ]))
            ELSE IF l + 1 = Len(R.shots) THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE
  /\ l' = l + 1 /\ tr' = tr
=============================================================================
