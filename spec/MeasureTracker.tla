--------------------------- MODULE MeasureTracker ---------------------------
(***************************************************************************)
(* The measurement tracker as a state machine (C09).  Every key has a      *)
(* history of values; a value is the set of record times whose parity it   *)
(* stands for, or an obstacle.  One action per public operation; recorded  *)
(* histories of the real tracker are validated call by call.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils

Rows == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, why, hist, t
View == << tr, l >>

Obstacle == { -1 }
R == Rows[tr]
Ev == R.ev[l]
Keys == 1 .. R.nkeys

(* Value of key k as of `back` updates ago: <<"ok", set>>, <<"none">> (obstacle) or <<"err">>. *)
Val(k, back) ==
  IF back >= Len(hist[k]) THEN << "err" >>
  ELSE LET v == hist[k][Len(hist[k]) - back] IN IF v = Obstacle THEN << "none" >> ELSE << "ok", v >>
Combine(ks) ==   \* what a combination of <<key, back>> may answer
  LET vals == [ i \in 1 .. Len(ks) |-> Val(ks[i][1], ks[i][2]) ]
      errs == \E i \in 1 .. Len(ks) : vals[i] = << "err" >>
      obst == \E i \in 1 .. Len(ks) : vals[i] = << "none" >>
  IN  (IF errs THEN { << "err" >> } ELSE {}) \cup (IF obst THEN { << "none" >> } ELSE {})
      \cup (IF errs \/ obst THEN {} ELSE { << "ok", FoldSeq(LAMBDA v, acc : SymDiff(v[2], acc), {}, vals) >> })
(* Reference time of an answer: now, or just after the measurement a key names. *)
Origin(after) ==
  IF after = 0 THEN t
  ELSE IF Len(hist[after]) = 0 THEN -1
  ELSE LET v == hist[after][Len(hist[after])] IN IF Cardinality(v) = 1 /\ v # Obstacle THEN Max(v) + 1 ELSE -1

Init == /\ tr \in 1 .. Len(Rows) /\ l = 1 /\ why = "" /\ t = 0
        /\ hist = [ k \in 1 .. Rows[tr].nkeys |-> << >> ]

Judge(w) ==
  /\ why' = w
  /\ IF w # "" THEN PrintT("@@" \o ToJson([ rej |-> tr, at |-> l, why |-> w, info |-> ToString([ event |-> Ev, history |-> hist, measurements |-> t ]) ]))
     ELSE IF l = Len(R.ev) THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE
  /\ l' = l + 1 /\ tr' = tr

Measure ==
  /\ Ev.k = "meas"
  /\ hist' = FoldLeft(LAMBDA h, i : [ h EXCEPT ![Ev.keys[i]] = Append(@, { t + i - 1 }) ], hist, [ i \in 1 .. Len(Ev.keys) |-> i ])
  /\ t' = t + Len(Ev.keys)
  /\ Judge("")
Dummy ==
  /\ Ev.k = "dummy"
  /\ hist' = FoldLeft(LAMBDA h, k : [ h EXCEPT ![k] = Append(@, IF Ev.obs = 1 THEN Obstacle ELSE {}) ], hist, Ev.keys)
  /\ t' = t
  /\ Judge("")
Group ==
  /\ Ev.k = "group"
  /\ LET a == Combine(Ev.q)
         got == IF Ev.err = 1 THEN a \cap { << "err" >> } ELSE a \ { << "err" >> }
     IN  /\ hist' = IF got = {} \/ Ev.err = 1 THEN hist
                    ELSE LET v == CHOOSE v \in got : TRUE
                         IN  [ hist EXCEPT ![Ev.gk] = Append(@, IF v[1] = "none" THEN Obstacle ELSE v[2]) ]
         /\ Judge(IF got # {} THEN "" ELSE IF Ev.err = 1 THEN "grouping available values failed" ELSE "grouping a value that was never provided did not fail")
  /\ t' = t
(* res: "err", "none" or "ok" with offsets (all negative). *)
Query ==
  /\ Ev.k = "query"
  /\ LET a == Combine(Ev.q)
         o == Origin(Ev.after)
         times == { o + Ev.offs[i] : i \in 1 .. Len(Ev.offs) }
         future == \E v \in a : v[1] = "ok" /\ \E x \in v[2] : x >= o
         w == CASE Ev.res = "err" ->
                     IF << "err" >> \in a \/ (Ev.after # 0 /\ (o = -1 \/ future)) THEN "" ELSE "asking for available values failed"
                [] Ev.after # 0 /\ o = -1 -> IF Ev.res = "none" /\ << "none" >> \in a THEN "" ELSE "an answer relative to a measurement that was never made"
                [] Ev.res = "none" -> IF << "none" >> \in a THEN "" ELSE "records were available but no targets were given"
                [] OTHER -> IF \E v \in a : v = << "ok", times >> /\ Len(Ev.offs) = Cardinality(times) THEN ""
                            ELSE "the targets do not name the requested records"
     IN  Judge(w)
  /\ UNCHANGED << hist, t >>
Next == why = "" /\ l <= Len(R.ev) /\ (Measure \/ Dummy \/ Group \/ Query)
=============================================================================
