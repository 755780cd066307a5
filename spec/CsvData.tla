------------------------------ MODULE CsvData -------------------------------
(***************************************************************************)
(* Recorded results.  A world is a set of files, each a sequence of batch  *)
(* records << experiment, shots, correct, time >>.  Reading files yields a *)
(* data set: per experiment the totals.  Filtering, grouping and merging   *)
(* are total-preserving and leave their source alone; aggregating is       *)
(* reading, writing one table, and reading it again.                       *)
(*                                                                         *)
(* A trace is a sequence of such operations with what the implementation   *)
(* returned; the specification keeps every data set created so far and can *)
(* look at any of them again.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC

Rows == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, why, sets
View == << tr, l >>
R == Rows[tr]

Total(recs, ds, k) == FoldLeft(LAMBDA acc, r : IF r[1] \in ds THEN acc + r[k] ELSE acc, 0, recs)
(* The records of the named files, in any order: only the totals matter. *)
Recs(fs) == FoldLeft(LAMBDA acc, i : acc \o R.files[i], << >>, fs)
Totals(recs) == { << d, Total(recs, { d }, 2), Total(recs, { d }, 3), Total(recs, { d }, 4) >> : d \in { recs[i][1] : i \in 1 .. Len(recs) } }

(* What came out, as a set; nothing may come out twice. *)
Once(out) == Cardinality(ToSet(out)) = Len(out)
KeyOf(op, d) == LET p == CHOOSE x \in ToSet(op.key) : x[1] = d IN p[2]
Keys(op, ds) == { KeyOf(op, e[1]) : e \in ds }
Part(op, ds, k) == { e \in ds : KeyOf(op, e[1]) = k }
SumOf(es, j) == FoldSet(LAMBDA e, acc : acc + e[j], 0, es)

Init == tr \in 1 .. Len(Rows) /\ l = 0 /\ why = "" /\ sets = << >>

Verdict(w, last) ==
  IF w # "" THEN PrintT("@@" \o ToJson([ rej |-> tr, at |-> l, why |-> w, info |-> R.ops[l + 1] ]))
  ELSE IF last THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE

Step ==
  /\ why = "" /\ l < Len(R.ops)
  /\ LET op == R.ops[l + 1]
         src == IF op.op \in { "read", "agg" } THEN Totals(Recs(op.fs)) ELSE sets[op.src]
         out == ToSet(op.out)
         new == CASE op.op = "filter" -> { e \in src : e[1] \in ToSet(op.keep) }
                  [] OTHER -> src
         w == CASE ~ Once(op.out) -> "an experiment or group was returned twice"
                [] op.op \in { "read", "agg", "filter" } /\ out # new ->
                     CASE op.op = "read" -> "reading does not give each experiment's exact totals"
                       [] op.op = "agg" -> "aggregating and reading back does not give each experiment's exact totals"
                       [] OTHER -> "filtering does not keep exactly the selected experiments with their totals"
                [] op.op = "look" /\ out # new -> "an operation changed its source data"
                [] op.op = "group" /\ { << g[1], ToSet(g[2]) >> : g \in out } # { << k, Part(op, src, k) >> : k \in Keys(op, src) } ->
                     "grouping is not the partition of the experiments by key"
                [] op.op = "group" /\ \E g \in out : ~ Once(g[2]) -> "an experiment is twice in a group"
                [] op.op = "merge" /\ out # { << k, SumOf(Part(op, src, k), 2), SumOf(Part(op, src, k), 3), SumOf(Part(op, src, k), 4) >> : k \in Keys(op, src) } ->
                     "merging does not give the sums of each group"
                [] OTHER -> ""
     IN  /\ why' = w
         /\ Verdict(w, l + 1 = Len(R.ops))
         /\ sets' = IF op.op \in { "read", "agg", "filter" } THEN Append(sets, new) ELSE sets
  /\ l' = l + 1 /\ tr' = tr
Next == Step
=============================================================================
