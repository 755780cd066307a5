----------------------------- MODULE StudyTrace -----------------------------
(***************************************************************************)
(* Histories of the real collection, aggregation and reading code against  *)
(* Study.tla.  A trace is a sequence of events: a collector opening a      *)
(* file, a sampler call returning to it, its interruption or end, a        *)
(* fraction collection, an aggregation into a file, and reads of files     *)
(* with what they returned.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Rows == ndJsonDeserialize(IOEnv.TRACES)
S == INSTANCE Study WITH NFiles <- 3, NCollectors <- 2, MaxLen <- 0, Emit <- 0, file <- << >>, run <- << >>, hist <- << >>, owed <- << >>, made <- 0
VARIABLES tr, l, why, fl, run
View == << tr, l >>
R == Rows[tr]
Off == [ on |-> 0, f |-> 0, m |-> "append" ]
Range(s) == { s[i] : i \in 1 .. Len(s) }

Init == /\ tr \in 1 .. Len(Rows) /\ l = 0 /\ why = ""
        /\ fl = [ f \in 1 .. R.files |-> S!Missing ] /\ run = [ c \in 1 .. 2 |-> Off ]

Verdict(w, last) ==
  IF w # "" THEN PrintT("@@" \o ToJson([ rej |-> tr, at |-> l, why |-> w, info |-> [ event |-> R.ev[l + 1], history |-> SubSeq(R.ev, 1, l) ] ]))
  ELSE IF last THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE

RECURSIVE PutAll(_, _)
PutAll(f, rs) == IF rs = << >> THEN f ELSE PutAll(S!Put(f, rs[1]), Tail(rs))

Step ==
  /\ why = "" /\ l < Len(R.ev)
  /\ LET e == R.ev[l + 1]
         w == CASE e.k = "start" -> IF S!MayOpen(run, e.f, e.m) THEN "" ELSE "machinery: two collectors where one discards"
                [] e.k = "sample" /\ e.x = 0 -> "the sampler was called for something that is not in the study"
                [] e.k = "read" /\ Cardinality(Range(e.out)) # Len(e.out) -> "an experiment was read twice"
                [] e.k = "read" /\ Range(e.out) # S!Totals(S!Cat(fl, e.fs)) -> "what is read is not exactly what was sampled and not discarded"
                [] OTHER -> ""
     IN  /\ why' = w
         /\ Verdict(w, l + 1 = Len(R.ev))
         /\ fl' = CASE e.k = "start" -> [ fl EXCEPT ![e.f] = S!Opened(@, e.m) ]
                    [] e.k = "sample" -> [ fl EXCEPT ![run[e.c].f] = S!Put(@, << e.x, e.n, e.g >>) ]
                    [] e.k = "frac" -> [ fl EXCEPT ![e.f] = PutAll(S!Opened(@, e.m), e.rs) ]
                    [] e.k = "agg" -> [ fl EXCEPT ![e.f] = S!Merged(fl, e.fs) ]
                    [] OTHER -> fl
         /\ run' = CASE e.k = "start" -> [ run EXCEPT ![e.c] = [ on |-> 1, f |-> e.f, m |-> e.m ] ]
                     [] e.k = "stop" -> [ run EXCEPT ![e.c] = Off ]
                     [] OTHER -> run
  /\ l' = l + 1 /\ tr' = tr
Next == Step
=============================================================================
