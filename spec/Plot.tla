-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* Figures of recorded data.                                               *)
(*                                                                         *)
(* A record is one experiment at one noise strength: describing fields,    *)
(* n shots, e errors, and the ends (lo, hi) of its likelihood interval.    *)
(* Rates on the figure are per code cell: what is drawn, composed with     *)
(* itself once per cell, must give back the recorded total rate.  Rates    *)
(* are integers in units of 1/One.                                         *)
(*                                                                         *)
(* Model: TLC enumerates small record sets (which experiment has data at   *)
(* which noise, with how many errors) with the curves a figure must show;  *)
(* curve-building steps through the records in any order and must end in   *)
(* the same curves.  Traces: records in, drawn artists out.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, Json, IOUtils, TLC

CONSTANTS Keys, Noises, Errs
VARIABLES recs, todo, curves, bands, tr, why
View == << recs, todo, curves, bands, tr, why >>
vars == << recs, todo, curves, bands >>

None == -1
Insert(s, x) == SelectSeq(s, LAMBDA y : y[1] < x[1]) \o << x >> \o SelectSeq(s, LAMBDA y : y[1] > x[1])
MInit ==
  /\ recs \in [ Keys \X Noises -> Errs \cup {None} ]
  /\ todo = { k \in DOMAIN recs : recs[k] # None }
  /\ curves = [ k \in Keys |-> << >> ] /\ bands = [ k \in Keys |-> << >> ] /\ tr = 0 /\ why = ""
MNext ==
  /\ \E r \in todo :
       /\ todo' = todo \ {r}
       /\ bands' = [ bands EXCEPT ![r[1]] = Insert(@, << r[2], recs[r] >>) ]
       /\ curves' = IF recs[r] = 0 THEN curves ELSE [ curves EXCEPT ![r[1]] = Insert(@, << r[2], recs[r] >>) ]
  /\ UNCHANGED << recs, tr, why >>
Ascending == \A k \in Keys : \A i \in 1 .. Len(curves[k]) - 1 : curves[k][i][1] < curves[k][i + 1][1]
Complete ==
  todo = {} => \A k \in Keys :
    /\ ToSet(curves[k]) = { << x, recs[<< k, x >>] >> : x \in { y \in Noises : recs[<< k, y >>] > 0 } }
    /\ { p[1] : p \in ToSet(bands[k]) } = { y \in Noises : recs[<< k, y >>] # None }
Report == todo = {} => PrintT("@@" \o ToJson([ r |-> [ i \in 1 .. Cardinality(DOMAIN recs) |-> LET k == SetToSeq(DOMAIN recs)[i] IN << k[1], k[2], recs[k] >> ] ]))

-----------------------------------------------------------------------------
One == 46000
Abs(x) == IF x < 0 THEN 0 - x ELSE x
CeilDiv(a, b) == 0 - ((0 - a) \div b)
Tol == 5
(* an odd number of c independent flips of probability p *)
Compose(p, c) == FoldLeft(LAMBDA t, i : (t * (One - p)) \div One + (p * (One - t)) \div One, p, [ i \in 1 .. c - 1 |-> i ])
Converted(v, t, c) ==       \* v is the rate per cell of the total rate t
  IF t > One \div 2 + Tol THEN Abs(Compose(One - v, c) - (One - t)) <= Tol + c
  ELSE Abs(Compose(v, c) - t) <= Tol + c \/ (t >= One \div 2 - Tol /\ Abs(One - Compose(One - v, c) - t) <= Tol + c)

Cells(r) == CeilDiv(r.rounds, r.dist)
Label(r) == ToString(r.rounds) \o " rounds, " \o ToString(r.w) \o "x" \o ToString(r.h) \o " data"
Total(r) == (r.e * One) \div r.n

(* One curve against the records of one experiment. *)
ShowsCurve(line, S) ==
  LET c == Cells(CHOOSE r \in S : TRUE)
      P == { r \in S : r.e > 0 }
  IN  /\ line.label = Label(CHOOSE r \in S : TRUE)
      /\ Len(line.pts) = Cardinality(P)
      /\ \A i \in 1 .. Len(line.pts) - 1 : line.pts[i][1] < line.pts[i + 1][1]
      /\ \A r \in P : \E i \in 1 .. Len(line.pts) : line.pts[i][1] = r.noise /\ Converted(line.pts[i][2], Total(r), c)
ShowsBand(line, S) ==
  LET c == Cells(CHOOSE r \in S : TRUE)
  IN  /\ Len(line.band) = Cardinality(S)
      /\ \A r \in S : \E i \in 1 .. Len(line.band) :
           /\ line.band[i][1] = r.noise
           /\ Converted(line.band[i][2], r.lo, c) /\ Converted(line.band[i][3], r.hi, c)
      /\ \A i \in 1 .. Len(line.pts) : \E j \in 1 .. Len(line.band) :
           line.band[j][1] = line.pts[i][1] /\ line.band[j][2] <= line.pts[i][2] + 1 /\ line.pts[i][2] <= line.band[j][3] + 1

CurvesFault(lines, R) ==
  LET Ks == { r.key : r \in R }
      Of(k) == { r \in R : r.key = k }
  IN  CASE Len(lines) # Cardinality(Ks) -> "not one curve per experiment"
        [] \E k \in Ks : ~ \E i \in 1 .. Len(lines) : ShowsCurve(lines[i], Of(k)) -> "no curve shows an experiment's points"
        [] \E k \in Ks : ~ \E i \in 1 .. Len(lines) : ShowsCurve(lines[i], Of(k)) /\ ShowsBand(lines[i], Of(k)) -> "the shaded region is not the converted likelihood interval"
        [] \E i \in 1 .. Len(lines) : ~ \E k \in Ks : ShowsCurve(lines[i], Of(k)) -> "a curve shows no experiment"
        [] OTHER -> ""

-----------------------------------------------------------------------------
(* Panels *)
Cols == << "SD6", "SI1000", "EM3" >>
Suffix == << "SD6", "SI1000", "EM3_v2" >>
Family(surface) == IF surface THEN "surface_" ELSE "honeycomb_"
Full == << << TRUE, "X", "internal" >>, << TRUE, "Z", "internal" >>, << TRUE, "X", "internal_correlated" >>, << TRUE, "Z", "internal_correlated" >>,
           << FALSE, "H", "internal" >>, << FALSE, "V", "internal" >>, << FALSE, "H", "internal_correlated" >>, << FALSE, "V", "internal_correlated" >> >>
Focus == << << TRUE, "Z", "internal_correlated" >>, << FALSE, "H", "internal_correlated" >> >>
FitFull == << << TRUE, "", "internal" >>, << TRUE, "", "internal_correlated" >>, << FALSE, "", "internal" >>, << FALSE, "", "internal_correlated" >> >>
FitFocus == << << TRUE, "", "internal_correlated" >>, << FALSE, "", "internal_correlated" >> >>
Decoding(dec) == IF dec = "internal" THEN " (Standard)" ELSE " (Correlated)"
Observable(o) == CASE o = "H" -> "Horizontal" [] o = "V" -> "Vertical" [] OTHER -> o
RowName(t) == (IF t[1] THEN "Surface" ELSE "Honeycomb") \o Decoding(t[3]) \o "\n"
              \o (IF t[2] = "" THEN "" ELSE Observable(t[2]) \o " Observable\n") \o "Code Cell Error Rate"
In(r, t, col) == r.style = Family(t[1]) \o Suffix[col] /\ r.dec = t[3] /\ (t[2] = "" \/ r.obs = t[2])

(* r.panels[row][col] = [title, ylabel, lines]; Bad(panel, records) judges the contents *)
PanelsFault(r, table, Judge(_, _)) ==
  LET R == ToSet(r.recs)
      P(i, j) == r.panels[i][j]
      Blank(i, j) == table[i][1] /\ j = 3                  \* there is no surface code in the third column
      f == [ i \in 1 .. Len(table), j \in 1 .. 3 |-> Judge(P(i, j), { x \in R : In(x, table[i], j) }) ]
  IN  CASE Len(r.panels) # Len(table) \/ \E i \in 1 .. Len(r.panels) : Len(r.panels[i]) # 3 -> "grid of panels"
        [] \E i \in 1 .. Len(table) : P(i, 1).ylabel # RowName(table[i]) -> "a row is not named after its code, decoder and observable"
        [] \E i \in 1 .. Len(table), j \in 1 .. 3 : P(i, j).title \notin {"", Cols[j]} -> "a column is not named after its error model"
        [] \E j \in 1 .. 3 : \A i \in 1 .. Len(table) : P(i, j).title = "" -> "a column has no name"
        [] \E i \in 1 .. Len(table), j \in 1 .. 3 : f[i, j] # "" -> f[CHOOSE p \in (1 .. Len(table)) \X (1 .. 3) : f[p] # ""]
        [] OTHER -> ""

(* Detection fractions: panel titles by style, one line per noise strength. *)
DetTitle == [ surface_SD6 |-> "SD6\nSurface Code", surface_SI1000 |-> "SI1000\nSurface Code", honeycomb_SD6 |-> "SD6\nHoneycomb Code",
              honeycomb_SI1000 |-> "SI1000\nHoneycomb Code", honeycomb_EM3_v2 |-> "EM3\nHoneycomb Code", honeycomb_EM3 |-> "Tweaked EM3\nHoneycomb Code" ]
Count(x, s) == Cardinality({ i \in DOMAIN s : s[i] = x })
DetFault(r) ==
  LET Ps == { i \in DOMAIN r.panels : r.panels[i].title # "" }
      One2(t) == CHOOSE i \in Ps : r.panels[i].title = t
      Want(s, n) == LET q == SelectSeq(r.recs, LAMBDA x : x.style = s /\ x.noise = n) IN [ i \in DOMAIN q |-> << q[i].dist, q[i].e, q[i].n >> ]
      Same(pts, w) == /\ Len(pts) = Len(w)
                      /\ \A i \in DOMAIN w : Count(w[i], w) = Count(w[i], [ k \in DOMAIN pts |-> pts[k] ])
      Bad(s) ==
        LET ls == r.panels[One2(DetTitle[s])].lines
            Ns == { x.noise : x \in { y \in ToSet(r.recs) : y.style = s } }
        IN  \/ { ls[i].noise : i \in DOMAIN ls } # Ns \/ Len(ls) # Cardinality(Ns)
            \/ \E i \in DOMAIN ls : ~ Same(ls[i].pts, Want(s, ls[i].noise))
  IN  CASE { r.panels[i].title : i \in Ps } # { DetTitle[s] : s \in DOMAIN DetTitle } \/ Cardinality(Ps) # Cardinality(DOMAIN DetTitle) -> "panels of the detection fraction figure"
        [] \E s \in DOMAIN DetTitle : Bad(s) -> "a style's detection fractions are not in its panel, one line per noise strength"
        [] OTHER -> ""

(* Line fits: cell errors 2^-k at distances ds (exponents on a line falling with distance or not); what is drawn is
   the points << d, 10^4 k >> and, when errors fall, the fitted law at errors 1 and 10^-13 = 2^(-43.1850): distances * 10^4. *)
FitPanel(p, R) ==
  LET Ok(l, x) ==
        /\ l.noise = x.noise /\ Len(l.pts) = Len(x.ds)
        /\ \A i \in 1 .. Len(x.ds) : \E j \in 1 .. Len(l.pts) : l.pts[j][1] = x.ds[i] /\ Abs(l.pts[j][2] - 10000 * x.ks[i]) <= 20
      Slope4(x) == ((x.ks[2] - x.ks[1]) * 4) \div (x.ds[2] - x.ds[1])
      At0(x) == (4 * x.ks[1] - Slope4(x) * x.ds[1])        \* 4 k at distance 0
      Falls(x) == Slope4(x) > 0
      (* exponent t (times 10^4) is reached at distance (4 t - At0) / Slope4 *)
      LineOk(l, x) == /\ Abs(l[1] * Slope4(x) + 10000 * At0(x)) <= 60 * Slope4(x)
                      /\ Abs(l[2] * Slope4(x) - (4 * 431850 - 10000 * At0(x))) <= 400 * Slope4(x)
  IN  CASE Len(p.scatter) # Cardinality(R) -> "not one set of points per noise strength"
        [] \E x \in R : ~ \E i \in 1 .. Len(p.scatter) : Ok(p.scatter[i], x) -> "the points of a noise strength are not in its panel"
        [] Len(p.fits) # Cardinality({ x \in R : Falls(x) }) -> "not one fitted line per noise strength whose errors fall"
        [] \E x \in R : Falls(x) /\ ~ \E i \in 1 .. Len(p.fits) : LineOk(p.fits[i], x) -> "a fitted line is not the law of its points"
        [] OTHER -> ""
CurvePanel(p, R) == CurvesFault(p.lines, R)

(* r.ticks = << place, number the label names >>, in units of a millionth of the place *)
Fault(r) ==
  CASE \E i \in DOMAIN r.ticks : Abs(r.ticks[i][1] - r.ticks[i][2]) > 1000 -> "a scale is labelled with other numbers than its own"
    [] r.kind = "data" -> IF r.title # r.shown THEN "title" ELSE CurvesFault(r.lines, ToSet(r.recs))
    [] r.kind = "thr" -> PanelsFault(r, IF r.focus THEN Focus ELSE Full, CurvePanel)
    [] r.kind = "fit" -> PanelsFault(r, IF r.focus THEN FitFocus ELSE FitFull, FitPanel)
    [] r.kind = "det" -> DetFault(r)

Rows == ndJsonDeserialize(IOEnv.TRACES)
TInit == tr \in 1 .. Len(Rows) /\ why = "" /\ todo = { << 0, 0 >> } /\ recs = << >> /\ curves = << >> /\ bands = << >>
TNext ==
  /\ todo # {} /\ todo' = {}
  /\ LET w == TLCEval(Fault(Rows[tr]))
     IN  why' = w /\ PrintT("@@" \o (IF w # "" THEN ToJson([ rej |-> tr, at |-> 0, why |-> w, info |-> Rows[tr] ]) ELSE ToJson([ acc |-> tr ])))
  /\ UNCHANGED << recs, curves, bands, tr >>
=============================================================================
