------------------------------ MODULE Problems ------------------------------
(***************************************************************************)
(* Problem descriptions against the circuits sampled, and the catalogue of *)
(* the paper.                                                              *)
(*                                                                         *)
(* A description is a record [w, h, rounds, cd, nq, noise, style, obs,     *)
(* dec]; noise in units of 10^-7.  An experiment is a description together *)
(* with what the circuit its maker yields shows: the number of qubits it   *)
(* uses, of data qubits (read at the end), of records in total, its        *)
(* observable number, the strengths of its channels (in thousandths of the *)
(* described noise), and the sub-rounds asked for (0: surface code).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC

Rows == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, why
View == << tr, l >>
R == Rows[tr]

HoneycombStyles == { "honeycomb_SD6", "honeycomb_PC3", "honeycomb_EM3", "honeycomb_EM3_v2", "honeycomb_SI1000" }
SurfaceStyles == { "surface_SD6", "surface_SI1000" }
Direct(s) == s \in { "honeycomb_EM3", "honeycomb_EM3_v2" }
CeilDiv(a, b) == (a + b - 1) \div b

(* Channel strengths of each style, in thousandths of its noise parameter. *)
Strengths(s) ==
  CASE s \in { "honeycomb_SD6", "surface_SD6", "honeycomb_PC3", "honeycomb_EM3" } -> { 1000 }
    [] s = "honeycomb_EM3_v2" -> { 500, 1000 }   \* 1000 only where qubits idle (parity noise is judged by NoiseTrace)
    [] s \in { "honeycomb_SI1000", "surface_SI1000" } -> { 100, 1000, 2000, 5000 }

Problem(d, x) ==
  IF d.style \in HoneycombStyles THEN
    CASE d.w # x.w \/ d.h # x.h -> "the described patch size is not the experiment's"
      [] x.data # d.w * d.h -> "the circuit's data qubits do not fill the described patch"
      [] x.ext # << d.w, d.h >> -> "the circuit's patch has another shape than described"
      [] d.nq # x.nq -> "the described qubit count is not the circuit's"
      [] d.nq # (IF Direct(d.style) THEN d.w * d.h ELSE d.w * d.h + 3 * ((d.w * d.h) \div 2)) -> "the described qubit count is not the style's"
      [] (x.recs - d.w * d.h) # x.n * ((d.w * d.h) \div 2) -> "the circuit does not run the requested sub-rounds"
      [] d.rounds # CeilDiv(x.n, 3) -> "the described rounds are not the sub-rounds divided by three, rounded up"
      [] d.style # "honeycomb_" \o x.style -> "the described style is not the experiment's"
      [] d.obs # x.obs -> "the described observable is not the experiment's"
      [] x.oi # (IF d.obs = "V" THEN << 0 >> ELSE << 1 >>) -> "the circuit records another observable than described"
      [] d.dec # x.dec -> "the described decoder is not the one asked for"
      [] d.noise # x.noise -> "the described noise is not the experiment's"
      [] d.noise > 0 /\ ~(ToSet(x.amps) \subseteq Strengths(d.style)) -> "the circuit's channels do not have the described strength"
      [] d.noise > 0 /\ x.full = 1 /\ ToSet(x.amps) \cup (IF d.style = "honeycomb_EM3_v2" THEN { 1000 } ELSE {}) # Strengths(d.style) -> "the circuit lacks channels of the described style"
      [] d.noise = 0 /\ x.amps # << >> -> "a noiseless description of a noisy circuit"
      [] OTHER -> ""
  ELSE IF d.style \in SurfaceStyles THEN
    CASE d.w # x.w \/ d.h # x.w \/ d.cd # x.w -> "the described patch size is not the experiment's"
      [] x.data # d.w * d.h -> "the circuit's data qubits do not fill the described patch"
      [] d.nq # x.nq \/ d.nq # 2 * d.w * d.w - 1 -> "the described qubit count is not the circuit's"
      [] (x.recs - d.w * d.h) # d.rounds * (d.w * d.h - 1) -> "the described rounds are not the circuit's"
      [] d.style # "surface_" \o x.style -> "the described style is not the experiment's"
      [] d.obs # x.obs -> "the described observable is not the experiment's"
      [] Len(x.oi) # 1 -> "the circuit does not track one observable"
      [] d.dec # x.dec -> "the described decoder is not the one asked for"
      [] d.noise # x.noise -> "the described noise is not the experiment's"
      [] d.noise > 0 /\ ToSet(x.amps) # Strengths(d.style) -> "the circuit's channels do not have the described strength"
      [] OTHER -> ""
  ELSE "a style nobody knows"

(* Changing fields of a description changes those fields. *)
Changed(r) == [ f \in DOMAIN r.d |-> IF f \in DOMAIN r.ch THEN r.ch[f] ELSE r.d[f] ]

(* The paper's catalogue. *)
Noises == { 1000, 2000, 3000, 5000, 7000, 10000, 15000, 20000, 30000, 50000, 70000, 100000, 150000, 200000, 300000 }
Decoders == { "internal", "internal_correlated" }
Honeycombs == { << 4 * u, 6 * u, 12 * u, p, s, o, dec >> :
                  u \in 1 .. 5, p \in Noises, s \in { "honeycomb_SI1000", "honeycomb_SD6", "honeycomb_EM3_v2" }, o \in { "V", "H" }, dec \in Decoders }
Surfaces == { << d, d, 3 * d, p, s, o, dec >> :
                d \in { 3, 7, 11, 15, 19 }, p \in Noises, s \in SurfaceStyles, o \in { "X", "Z" }, dec \in Decoders }
Key(d) == << d.w, d.h, d.rounds, d.noise, d.style, d.obs, d.dec >>
Catalogue(r) ==
  LET ks == TLCEval([ i \in 1 .. Len(r.descs) |-> Key(r.descs[i]) ])
      want == CASE r.which = "honeycomb" -> Honeycombs [] r.which = "surface" -> Surfaces [] OTHER -> Honeycombs \cup Surfaces
      got == ToSet(ks)
  IN  CASE Cardinality(got) # Len(ks) -> "two problems of the catalogue have the same description"
        [] want \ got # {} -> "a combination is missing from the catalogue"
        [] got \ want # {} -> "the catalogue has a problem that is not one of its combinations"
        [] OTHER -> ""
(* Limits left open (-1) are the paper's, reduced as asked; nothing recorded before is discarded. *)
Budget(a) == << a[1], IF a[2] = -1 THEN 100000000 \div a[5] ELSE a[2], IF a[3] = -1 THEN 1000 \div a[5] ELSE a[3], IF a[4] = -1 THEN 32768 ELSE a[4], 0 >>
(* Selecting by number: exactly that problem is handed to the collector. *)
Selected(r) ==
  CASE r.id >= 0 /\ Len(r.descs) # 1 -> "selecting a problem by number does not sample one problem"
    [] r.id >= 0 /\ r.descs[1] # r.want -> "selecting a problem by number samples another problem"
    [] r.id < 0 /\ Len(r.descs) # r.total -> "not every problem is sampled"
    [] r.budget # Budget(r.asked) -> "the collector is not given the budget asked for"
    [] OTHER -> ""

Init == tr \in 1 .. Len(Rows) /\ l = 0 /\ why = ""
Next ==
  /\ l = 0 /\ l' = 1 /\ tr' = tr
  /\ LET w == TLCEval(CASE R.kind = "problem" -> Problem(R.d, R.x)
                        [] R.kind = "change" -> IF R.out = Changed(R) THEN "" ELSE "changing a description changes other fields than asked"
                        [] R.kind = "catalogue" -> Catalogue(R)
                        [] R.kind = "select" -> Selected(R)
                        [] R.kind = "place" -> IF R.same = 1 /\ R.added = R.want THEN "" ELSE "the surface code circuit is not the one of the directory that was named"
                        [] R.kind = "label" -> IF R.ok = 1 THEN "" ELSE "the legend label does not name the experiment's size and noise")
     IN  /\ why' = w
         /\ PrintT("@@" \o (IF w # "" THEN ToJson([ rej |-> tr, at |-> 0, why |-> w, info |-> "" ]) ELSE ToJson([ acc |-> tr ])))
=============================================================================
