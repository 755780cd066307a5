------------------------------ MODULE Collect ------------------------------
(***************************************************************************)
(* Data collection: problems are sampled in batches until a stop rule is   *)
(* met, every finished batch is appended to a CSV file, runs may be        *)
(* interrupted anywhere and followed by further runs on the same file.     *)
(*                                                                         *)
(* Each critical section of the implementation is one action: opening      *)
(* (truncate, write header), one sampler call, appending its record,       *)
(* moving on.  Batch sizes and outcomes are free within the rules.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS NProblems, MaxRuns, MinS, MaxS, MaxB, ErrT, SdNum, SdDen, CrashesAllowed, KeepFile

VARIABLES pc, mode, runs, prob, total, errs, batch, pending, file, log, stopped
vars == << pc, mode, runs, prob, total, errs, batch, pending, file, log, stopped >>

Header == << 0 >>
Absent == << << -1 >> >>
Least(a, b) == IF a < b THEN a ELSE b

(* sqrt(p (1 - p) / n) <= SdNum / SdDen with p = e / n, multiplied out. *)
SdBelow(n, e, num, den) == e * (n - e) * den * den < num * num * n * n * n
SdEqual(n, e, num, den) == e * (n - e) * den * den = num * num * n * n * n
HopelessRate(n, e) == 100 * e >= 48 * n /\ e >= 10
(* strict: how a standard deviation exactly at the target is counted (floating point decides). *)
StopRule(n, e, mn, mx, et, num, den, strict) ==
  \/ n >= mx
  \/ n >= mn /\ \/ e >= et /\ (SdBelow(n, e, num, den) \/ ((~strict \/ num = 0) /\ SdEqual(n, e, num, den)))
                \/ HopelessRate(n, e)
BatchAllowed(b, n, mx, mb) == b >= 1 /\ b <= mb /\ n + b <= mx
Stop == StopRule(total, errs, MinS, MaxS, ErrT, SdNum, SdDen, FALSE)

Init ==
  /\ pc = "idle" /\ mode = "append" /\ runs = 0 /\ prob = 1 /\ total = 0 /\ errs = 0 /\ batch = 0
  /\ pending = << >> /\ file = Absent /\ log = << >> /\ stopped = TRUE

(* A run starts; told to discard, or finding no header, it (re)creates the file. *)
StartRun(m) ==
  /\ pc = "idle" /\ runs < MaxRuns
  /\ runs' = runs + 1 /\ mode' = m
  /\ pc' = IF m = "discard" \/ file = Absent \/ file = << >> THEN "create" ELSE "ready"
  /\ prob' = 1 /\ total' = 0 /\ errs' = 0 /\ batch' = 0 /\ pending' = << >> /\ stopped' = FALSE
  /\ UNCHANGED << file, log >>
Truncate ==
  /\ pc = "create" /\ pc' = "header" /\ file' = << >> /\ log' = << >>
  /\ UNCHANGED << mode, runs, prob, total, errs, batch, pending, stopped >>
WriteHeader ==
  /\ pc = "header" /\ pc' = "ready" /\ file' = << Header >>
  /\ UNCHANGED << mode, runs, prob, total, errs, batch, pending, log, stopped >>
Sample(b, e) ==
  /\ pc = "ready" /\ prob <= NProblems
  /\ total = 0 \/ ~Stop
  /\ BatchAllowed(b, total, MaxS, MaxB) /\ e \in 0 .. b
  /\ pc' = "sampled" /\ pending' = << prob, b, b - e >> /\ batch' = b
  /\ total' = total + b /\ errs' = errs + e
  /\ log' = IF KeepFile THEN Append(log, << prob, b, b - e >>) ELSE log
  /\ UNCHANGED << mode, runs, prob, file, stopped >>
Record ==
  /\ pc = "sampled" /\ pc' = "ready" /\ pending' = << >>
  /\ file' = IF KeepFile THEN Append(file, pending) ELSE file
  /\ UNCHANGED << mode, runs, prob, total, errs, batch, log, stopped >>
NextProblem ==
  /\ pc = "ready" /\ prob <= NProblems /\ total > 0 /\ Stop
  /\ prob' = prob + 1 /\ total' = 0 /\ errs' = 0 /\ batch' = 0
  /\ UNCHANGED << pc, mode, runs, pending, file, log, stopped >>
Finish ==
  /\ pc = "ready" /\ prob = NProblems + 1
  /\ pc' = "idle" /\ stopped' = TRUE
  /\ UNCHANGED << mode, runs, prob, total, errs, batch, pending, file, log >>
(* The process dies: whatever was not on disk is lost. *)
Crash ==
  /\ CrashesAllowed /\ pc # "idle"
  /\ pc' = "idle" /\ pending' = << >> /\ prob' = 1 /\ total' = 0 /\ errs' = 0 /\ batch' = 0
  /\ log' = IF pending # << >> /\ KeepFile THEN SubSeq(log, 1, Len(log) - 1) ELSE log
  /\ UNCHANGED << mode, runs, file, stopped >>

Progress == Truncate \/ WriteHeader \/ (\E b \in 1 .. MaxB, e \in 0 .. MaxB : Sample(b, e)) \/ Record \/ NextProblem \/ Finish
Next == Progress \/ (\E m \in { "append", "discard" } : StartRun(m)) \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Progress)

-----------------------------------------------------------------------------
(* C12 *)
NeverOverMax == total <= MaxS
NeverOverBatch == batch <= MaxB
EnoughShots == [][(prob' = prob + 1 /\ pc # "idle") => total >= Least(MinS, MaxS) /\ Stop]_vars
Terminates == (pc # "idle") ~> (pc = "idle")
NotTooLong == [][(total' > total) => (total = 0 \/ ~Stop)]_vars

(* C13 *)
HeaderFirst == file # Absent /\ file # << >> => file[1] = Header /\ \A i \in 2 .. Len(file) : file[i] # Header
Recorded ==
  LET tail == IF file = Absent \/ file = << >> THEN << >> ELSE Tail(file)
  IN  IF pending # << >> THEN log = Append(tail, pending) ELSE log = tail
OnDiskBeforeNext == [][(pending' # << >> /\ pending = << >>) => Recorded]_vars
OnlyDiscardLoses == [][(Len(file') < Len(file)) => pc = "create" /\ (mode = "discard" \/ file = Absent)]_vars
=============================================================================
