-------------------------------- MODULE Study --------------------------------
(***************************************************************************)
(* A study: collectors append batches to result files (possibly two at     *)
(* once to one file), are interrupted while sampling, are started again;   *)
(* detection fractions are collected in one go; result files are           *)
(* aggregated into further result files; any set of files is read.         *)
(*                                                                         *)
(* A record is << experiment, shots, correct >>.  This module is the model *)
(* and the generator of histories; StudyTrace.tla binds its file           *)
(* operators to the implementation.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC

Missing == [ e |-> 0, r |-> << >> ]
Opened(fl, m) == IF m = "discard" \/ fl.e = 0 THEN [ e |-> 1, r |-> << >> ] ELSE fl
Put(fl, rec) == [ e |-> 1, r |-> Append(fl.r, rec) ]

RECURSIVE Cat(_, _)
Cat(fl, fs) == IF fs = << >> THEN << >> ELSE fl[fs[1]].r \o Cat(fl, Tail(fs))
RECURSIVE Sum(_, _, _)
Sum(recs, x, k) == IF recs = << >> THEN 0 ELSE (IF recs[1][1] = x THEN recs[1][k] ELSE 0) + Sum(Tail(recs), x, k)
Totals(recs) == { << x, Sum(recs, x, 2), Sum(recs, x, 3) >> : x \in { recs[i][1] : i \in 1 .. Len(recs) } }
RECURSIVE AsSeq(_)
AsSeq(s) == IF s = { } THEN << >> ELSE LET e == CHOOSE e \in s : TRUE IN << e >> \o AsSeq(s \ { e })
Merged(fl, fs) == [ e |-> 1, r |-> AsSeq(Totals(Cat(fl, fs))) ]

(* Two collectors may share a file as long as neither discards it. *)
MayOpen(run, f, m) == \A d \in DOMAIN run : run[d].on = 1 /\ run[d].f = f => m = "append" /\ run[d].m = "append"
Quiet(run, f) == \A d \in DOMAIN run : run[d].on = 0 \/ run[d].f # f

------------------------------------------------------------------------------
CONSTANTS NFiles, NCollectors, MaxLen, Emit
VARIABLES file, run, hist, owed, made
vars == << file, run, hist, owed, made >>

Files == 1 .. NFiles
Idle == [ on |-> 0, f |-> 0, m |-> "append", todo |-> << >> ]
Todos == { << 1, 1 >>, << 1, 2 >>, << 2 >> }

Init ==
  /\ file = [ f \in Files |-> Missing ] /\ owed = [ f \in Files |-> << >> ]
  /\ run = [ c \in 1 .. NCollectors |-> Idle ]
  /\ hist = << >> /\ made = 0

Op == [ op |-> "", c |-> 0, f |-> 0, m |-> "", td |-> << >>, fs |-> << >> ]
Say(h) == hist' = Append(hist, h)
LeastIdle(c) == run[c].on = 0 /\ \A d \in 1 .. c - 1 : run[d].on = 1

Start(c, f, m, td) ==
  /\ LeastIdle(c) /\ MayOpen(run, f, m)
  /\ file' = [ file EXCEPT ![f] = Opened(@, m) ]
  /\ owed' = [ owed EXCEPT ![f] = IF m = "discard" THEN << >> ELSE @ ]
  /\ run' = [ run EXCEPT ![c] = [ on |-> 1, f |-> f, m |-> m, todo |-> td ] ]
  /\ Say([ Op EXCEPT !.op = "start", !.c = c, !.f = f, !.m = m, !.td = td ]) /\ UNCHANGED made
(* A sampler call returns; its record is on file before anything else happens. *)
Sample(c) ==
  /\ run[c].on = 1
  /\ LET rec == << run[c].todo[1], 2 ^ made, made >> f == run[c].f IN
     /\ file' = [ file EXCEPT ![f] = Put(@, rec) ]
     /\ owed' = [ owed EXCEPT ![f] = Append(@, rec) ]
     /\ run' = [ run EXCEPT ![c] = IF Len(@.todo) = 1 THEN Idle ELSE [ @ EXCEPT !.todo = Tail(@) ] ]
  /\ made' = made + 1 /\ Say([ Op EXCEPT !.op = "sample", !.c = c, !.f = run[c].f ])
(* Interrupted inside a sampler call: that call never counts. *)
Interrupt(c) == /\ run[c].on = 1 /\ run' = [ run EXCEPT ![c] = Idle ] /\ Say([ Op EXCEPT !.op = "stop", !.c = c ]) /\ UNCHANGED << file, owed, made >>
Fractions(f, m) ==
  /\ Quiet(run, f)
  /\ LET rec == << 3, 2 ^ made, made >> IN
     /\ file' = [ file EXCEPT ![f] = Put(Opened(@, m), rec) ]
     /\ owed' = [ owed EXCEPT ![f] = Append(IF m = "discard" THEN << >> ELSE @, rec) ]
  /\ made' = made + 1 /\ Say([ Op EXCEPT !.op = "frac", !.f = f, !.m = m ]) /\ UNCHANGED run
Aggregate(fs, g) ==
  /\ g \notin { fs[i] : i \in 1 .. Len(fs) } /\ \A i \in 1 .. Len(fs) : file[fs[i]].e = 1
  /\ Quiet(run, g)
  /\ file' = [ file EXCEPT ![g] = Merged(file, fs) ]
  /\ owed' = [ owed EXCEPT ![g] = Cat([ f \in Files |-> [ r |-> owed[f] ] ], fs) ]
  /\ Say([ Op EXCEPT !.op = "agg", !.fs = fs, !.f = g ]) /\ UNCHANGED << run, made >>

Lists == { s \in UNION { [ 1 .. n -> Files ] : n \in 1 .. 2 } : Len(s) = 1 \/ s[1] # s[2] }
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E c \in 1 .. NCollectors : \/ \E f \in Files, m \in { "append", "discard" }, td \in Todos : Start(c, f, m, td)
                                    \/ Sample(c) \/ Interrupt(c)
     \/ \E f \in Files, m \in { "append", "discard" } : Fractions(f, m)
     \/ \E fs \in Lists, g \in Files : Aggregate(fs, g)
  /\ (Emit = 1 /\ Len(hist') = MaxLen) => PrintT("@@" \o ToJson([ h |-> hist' ]))
Spec == Init /\ [][Next]_vars

(* What a file says is what was sampled into it since it was last discarded. *)
Accounted == \A f \in Files : Totals(file[f].r) = Totals(owed[f])
(* Batches carry distinct powers of two: without aggregating, none is owed twice or in two files. *)
NothingTwice ==
  (\A n \in 1 .. Len(hist) : hist[n].op # "agg")
    => \A f, g \in Files : \A i \in 1 .. Len(owed[f]), j \in 1 .. Len(owed[g]) : owed[f][i] = owed[g][j] => f = g /\ i = j
(* Only discarding and aggregating replace what a file holds. *)
Last == hist'[Len(hist')]
Grows == [][ \A f \in Files :
   (file'[f].r = file[f].r)
   \/ (Len(file'[f].r) > Len(file[f].r) /\ SubSeq(file'[f].r, 1, Len(file[f].r)) = file[f].r)
   \/ (Last.f = f /\ (Last.op = "agg" \/ Last.m = "discard")) ]_vars
=============================================================================
