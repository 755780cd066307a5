---------------------------- MODULE CollectTrace ----------------------------
(***************************************************************************)
(* Recorded histories of real collection runs against Collect's rules.     *)
(*                                                                         *)
(* Events:  run [mode, out]          a run starts (out = 0: no file)       *)
(*          call [p, b, file]        sampler called for problem p, b shots *)
(*          ret [c]                  it returned c correct                 *)
(*          end / crash [file]       the run returned / died               *)
(* file is the file as found at that moment: [e, r] with e = 0 if absent   *)
(* and r the lines: <<0>> for the header, <<p, shots, correct>> for a      *)
(* record, <<>> for anything else; <<-7>> stands for all that the file     *)
(* held before the study when another program wrote that.                  *)
(* kind "frac": detection-fraction collection (no loop: one call per       *)
(* problem; the record's numbers follow from the problem).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
C == INSTANCE Collect WITH NProblems <- 0, MaxRuns <- 0, MinS <- 0, MaxS <- 0, MaxB <- 0, ErrT <- 0, SdNum <- 0, SdDen <- 1,
       CrashesAllowed <- FALSE, KeepFile <- FALSE, pc <- 0, mode <- 0, runs <- 0, prob <- 0, total <- 0, errs <- 0, batch <- 0,
       pending <- 0, file <- 0, log <- 0, stopped <- 0

Rows == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, why,
          disk,      \* the file as it must be now: [e, r]
          pending,   \* record of a finished batch not yet known to be on disk, or <<>>
          phase,     \* "idle", "opening" (nothing sampled yet), "open", "sampling"
          run, prob, total, errs, batch
View == << tr, l >>

R == Rows[tr]
Empty == [ e |-> 1, r |-> << >> ]
Absent == [ e |-> 0, r |-> << >> ]
Fresh == [ e |-> 1, r |-> << << 0 >> >> ]
With(f, rec) == [ f EXCEPT !.r = Append(@, rec) ]
NoFile == run.out = 0

(* The file once a run has opened it. *)
Opened == IF NoFile THEN disk
          ELSE IF run.mode = "discard" \/ disk = Absent \/ disk = Empty THEN Fresh ELSE disk
(* ... and everything a crash during opening may leave behind. *)
OpeningStates == IF NoFile THEN { disk }
                 ELSE IF Opened = disk THEN { disk } ELSE { disk, Empty, Fresh }
Settled == IF phase = "opening" THEN Opened ELSE IF pending = << >> \/ NoFile THEN disk ELSE With(disk, pending)

NP == R.np
P == R.par
StopBoth == { C!StopRule(total, errs, P.min, P.max, P.err, P.sdn, P.sdd, s) : s \in { TRUE, FALSE } }
MayStop == R.kind = "frac" \/ TRUE \in StopBoth
MayContinue == R.kind # "frac" /\ FALSE \in StopBoth
FracRecord(p) == << p, R.shots * R.frac[p][1], R.shots * (R.frac[p][1] - R.frac[p][2]) >>

Init ==
  /\ tr \in 1 .. Len(Rows) /\ l = 1 /\ why = "" /\ disk = Rows[tr].init /\ pending = << >> /\ phase = "idle"
  /\ run = << >> /\ prob = 0 /\ total = 0 /\ errs = 0 /\ batch = 0

Ev == R.ev[l]
Judge(w) ==
  /\ why' = w
  /\ IF w # "" THEN PrintT("@@" \o ToJson([ rej |-> tr, at |-> l, why |-> w, info |-> ToString([ event |-> Ev, file |-> disk, pending |-> pending, total |-> total, errors |-> errs, problem |-> prob ]) ]))
     ELSE IF l = Len(R.ev) THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE
  /\ l' = l + 1 /\ tr' = tr

Run ==
  /\ Ev.k = "run"
  /\ run' = Ev /\ phase' = "opening" /\ prob' = 0 /\ total' = 0 /\ errs' = 0 /\ batch' = 0 /\ pending' = << >>
  /\ UNCHANGED disk
  /\ Judge("")
Call ==
  /\ Ev.k = "call"
  /\ LET w == CASE phase = "sampling" -> "sampler called again before it returned"
                [] Ev.file # Settled -> "file is not the header plus one record per finished batch when the next batch starts"
                [] Ev.p = 0 -> "sampler got a circuit or decoder that is no problem's own"
                [] Ev.p \notin { prob, prob + 1 } \/ Ev.p > NP -> "problems are not processed in order"
                [] prob # 0 /\ Ev.p = prob /\ ~MayContinue -> "sampling continued although the stop rule was met"
                [] prob # 0 /\ Ev.p = prob + 1 /\ ~MayStop -> "moved on to the next problem before the stop rule was met"
                [] R.kind # "frac" /\ ~C!BatchAllowed(Ev.b, IF Ev.p = prob THEN total ELSE 0, P.max, P.batch)
                     -> "batch is empty, above the batch limit or takes the problem above its maximum"
                [] OTHER -> ""
     IN  Judge(w)
  /\ disk' = Settled
  /\ total' = IF Ev.p = prob THEN total ELSE 0
  /\ errs' = IF Ev.p = prob THEN errs ELSE 0
  /\ prob' = Ev.p /\ batch' = Ev.b /\ phase' = "sampling" /\ pending' = << >>
  /\ UNCHANGED run
Ret ==
  /\ Ev.k = "ret"
  /\ phase' = "open"
  /\ pending' = IF R.kind = "frac" THEN FracRecord(prob) ELSE << prob, batch, Ev.c >>
  /\ total' = total + batch /\ errs' = errs + (batch - Ev.c)
  /\ UNCHANGED << disk, run, prob, batch >>
  /\ Judge("")
End ==
  /\ Ev.k = "end"
  /\ Judge(CASE Ev.file # Settled -> "file of a completed run is not the header plus one record per finished batch"
             [] Ev.stray # 0 -> "a file other than the requested one was touched"
             [] phase = "sampling" -> "run returned inside a sampler call"
             [] prob # NP -> "run returned before every problem was processed"
             [] NP > 0 /\ ~MayStop -> "run returned before the stop rule was met"
             [] OTHER -> "")
  /\ disk' = Ev.file /\ phase' = "idle" /\ pending' = << >>
  /\ UNCHANGED << run, prob, total, errs, batch >>
Crash ==
  /\ Ev.k = "crash"
  /\ Judge(IF phase = "opening"
           THEN IF Ev.file \in OpeningStates THEN "" ELSE "interrupted while opening: previous records or the header are damaged"
           ELSE IF Ev.file \in { disk, Settled } THEN "" ELSE "interrupted run left a lost, torn or doubled record")
  /\ disk' = Ev.file /\ phase' = "idle" /\ pending' = << >>
  /\ UNCHANGED << run, prob, total, errs, batch >>
Next == why = "" /\ l <= Len(R.ev) /\ (Run \/ Call \/ Ret \/ End \/ Crash)
=============================================================================
