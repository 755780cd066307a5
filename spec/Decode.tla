------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* Decoding and counting (C11).  Each trace is one experiment with the     *)
(* real decoders; its steps visit the shots one by one.                    *)
(*                                                                         *)
(* "match": err[i] = [d, f, w]: error i flips detectors d and observables  *)
(*    f and weighs w (probability 1/(1 + 2^w)).  Each shot [s, o] is a     *)
(*    syndrome and the decoder's answer, which must be the frame of some   *)
(*    least-weight set of errors explaining the syndrome.                  *)
(* "count": every shot suffers exactly the errors `real`; the returned     *)
(*    count is all or nothing according to what the model predicts.        *)
(* "file": detection events reveal the truth (observable j is the parity   *)
(*    of the detectors obs[j]); an external decoder recorded what it was   *)
(*    given (file) and what it answered (ans); given: the events handed to *)
(*    the code, where they were chosen by the harness; back: predictions   *)
(*    read back; count: the number of right shots reported.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils

Rows == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, why, right, table
View == << tr, l >>
R == Rows[tr]

XorAll(ss) == FoldLeft(SymDiff, {}, ss)
Detects(S) == FoldSet(LAMBDA i, acc : SymDiff(acc, ToSet(R.err[i].d)), {}, S)
Frames(S) == FoldSet(LAMBDA i, acc : SymDiff(acc, ToSet(R.err[i].f)), {}, S)
Weight(S) == FoldSet(LAMBDA i, acc : acc + R.err[i].w, 0, S)
(* Only errors that flip some detector can be chosen by a matching decoder. *)
Visible == { i \in 1 .. Len(R.err) : R.err[i].d # << >> }
Explanations == TLCEval({ [ s |-> Detects(S), w |-> Weight(S), f |-> Frames(S) ] : S \in SUBSET Visible })
Best(s) ==
  LET c == { e \in table : e.s = s }
      m == Min({ e.w : e \in c })
  IN  { e.f : e \in { x \in c : x.w = m } }

Init == tr \in 1 .. Len(Rows) /\ l = 0 /\ why = "" /\ right = 0 /\ table = {}
Judge(w, last) ==
  /\ why' = w
  /\ IF w # "" THEN PrintT("@@" \o ToJson([ rej |-> tr, at |-> l, why |-> w, info |-> "" ]))
     ELSE IF last THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE
  /\ l' = l + 1 /\ tr' = tr

Start ==
  /\ l = 0
  /\ table' = IF R.kind \in { "match", "count" } THEN Explanations ELSE {}
  /\ right' = 0
  /\ LET w == CASE R.kind = "file" /\ R.demok = 0 -> "the external decoder was not given the model circuit's error model"
                [] R.kind = "file" /\ R.corr # R.wantcorr -> "correlated decoding was not requested as asked"
                [] R.kind = "file" /\ Len(R.file) # R.n -> "the external decoder was not given every shot once"
                [] OTHER -> ""
     IN  Judge(w, FALSE)
Shot ==
  /\ l >= 1 /\ l <= Len(R.shots)
  /\ LET s == R.shots[l]
         w == CASE R.kind = "match" -> IF ToSet(s.o) \in Best(ToSet(s.s)) THEN ""
                                       ELSE "the prediction is not the frame of a least-weight explanation of the shot"
                [] R.kind = "file" ->
                     IF R.given = 1 /\ ToSet(s.s) # ToSet(R.file[l]) THEN "the external decoder was given other detection events than the shot's"
                     ELSE IF R.given = 1 /\ s.o # R.ans[l] THEN "an answer was read back for the wrong shot or observable"
                     ELSE ""
                [] OTHER -> ""
     IN  Judge(w, FALSE)
  /\ UNCHANGED << table, right >>
Truth(i) == [ j \in 1 .. Len(R.obs) |-> Cardinality(ToSet(R.obs[j]) \cap ToSet(R.file[i])) % 2 ]
Count ==
  /\ l = Len(R.shots) + 1
  /\ LET m == { i \in 1 .. Len(R.ans) : R.ans[i] = Truth(i) }
         b == Best(Detects(ToSet(R.real)))
         f == Frames(ToSet(R.real))
         w == CASE R.kind = "file" /\ R.count >= 0 -> IF R.count = Cardinality(m) THEN "" ELSE "the count is not the number of rightly predicted shots"
                [] R.kind = "count" -> IF (R.count = R.n /\ f \in b) \/ (R.count = 0 /\ b # { f }) THEN ""
                                       ELSE "the count is not the number of rightly predicted shots"
                [] OTHER -> ""
     IN  Judge(w, TRUE)
  /\ UNCHANGED << table, right >>
Next == why = "" /\ (Start \/ Shot \/ Count)
=============================================================================
