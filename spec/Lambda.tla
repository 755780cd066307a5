------------------------------- MODULE Lambda -------------------------------
(***************************************************************************)
(* Pairing, fitting and extrapolating logical error data (the Lambda and   *)
(* teraquop projections).                                                  *)
(*                                                                         *)
(* Pairing model: for one noise strength a world gives, per distance and   *)
(* per side (horizontal/X = "h", vertical/Z = "v"), the flip probability   *)
(* per code cell in sixteenths, or None.  Distances are paired one after   *)
(* the other; the cell error in 256ths is 1 - (1 - h)(1 - v).              *)
(*                                                                         *)
(* Fits: cell errors are exact powers 2^-k.  The traces give distances and *)
(* exponents and what the implementation derived from them, in base-2 logs *)
(* times 10^4.  Ordinary least squares, its slope range (cost one above    *)
(* the best, in natural logs) and its distance range are computed here.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, Json, IOUtils, TLC

CONSTANTS Dists, Rates
None == -1
VARIABLES world, todo, xs, ys, tr, why
View == << world, todo, xs, ys, tr, why >>

Either(h, v) == 16 * h + 16 * v - h * v            (* of 256 *)
MInit ==
  /\ world \in [ Dists \X {"h", "v"} -> Rates \cup {None} ]
  /\ todo = SetToSortSeq(Dists, <) /\ xs = << >> /\ ys = << >> /\ tr = 0 /\ why = ""
MNext ==
  /\ todo # << >>
  /\ LET d == Head(todo)
         h == world[<< d, "h" >>]
         v == world[<< d, "v" >>]
         h2 == IF h = None THEN v ELSE h
         v2 == IF v = None THEN h ELSE v
         use == h2 > 0 /\ v2 > 0                      (* observed, and with errors *)
     IN  /\ xs' = IF use THEN Append(xs, d) ELSE xs
         /\ ys' = IF use THEN Append(ys, Either(h2, v2)) ELSE ys
  /\ todo' = Tail(todo)
  /\ UNCHANGED << world, tr, why >>
Sorted == \A i \in 1 .. Len(xs) - 1 : xs[i] < xs[i + 1]
Bounds ==   (* at least either part, at most their sum *)
  \A i \in 1 .. Len(xs) : \A s \in {"h", "v"} :
      /\ world[<< xs[i], s >>] # None => ys[i] >= 16 * world[<< xs[i], s >>]
      /\ ys[i] <= 256
Report ==
  todo = << >> =>
    PrintT("@@" \o ToJson([ h |-> [ d \in 1 .. Cardinality(Dists) |-> world[<< SetToSortSeq(Dists, <)[d], "h" >>] ],
                            v |-> [ d \in 1 .. Cardinality(Dists) |-> world[<< SetToSortSeq(Dists, <)[d], "v" >>] ],
                            d |-> SetToSortSeq(Dists, <), xs |-> xs, ys |-> ys ]))

-----------------------------------------------------------------------------
(* Fits *)
Rows == ndJsonDeserialize(IOEnv.TRACES)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Sum(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
Times(a, b) == [ i \in 1 .. Len(a) |-> a[i] * b[i] ]
Scale == 10000
CeilDiv(a, b) == 0 - ((0 - a) \div b)                \* b > 0

Qubits(style, unit, d) ==                            \* unit: 16 times the qubits per squared distance
  IF style = "surface" THEN 2 * d * d - 1
  ELSE LET r == 4 * CeilDiv(d, 4) IN (unit * (r * r)) \div 16

(* Ordinary least squares of the exponent over the distance; D is n^2 times the variance of the distances. *)
Fit(r) ==
  LET n == Len(r.ds)
      D == n * Sum(Times(r.ds, r.ds)) - Sum(r.ds) * Sum(r.ds)
      B == n * Sum(Times(r.ds, r.ks)) - Sum(r.ds) * Sum(r.ks)
      A == Sum(r.ks) * Sum(Times(r.ds, r.ds)) - Sum(r.ds) * Sum(Times(r.ds, r.ks))
  IN  [ n |-> n, D |-> D, B |-> B, A |-> A ]         \* exponent(d) = (A + B d) / D
Exact(r, f) == \A i \in 1 .. Len(r.ds) : f.D * r.ks[i] = f.A + f.B * r.ds[i]

(* |obs / Scale - num / den| <= tol / Scale *)
Near(obs, num, den, tol) ==
  LET q == num \div den
      m == num % den
  IN  Abs((obs - q * Scale) * den - m * Scale) <= tol * den

(* The required distance for 2^-(t2/2) on exact data, when the exponent rises: every integer d is judged. *)
Reaches(r, f, d) == 2 * (f.A + f.B * d) >= r.t2 * f.D
Ties(r, f, d) == 2 * (f.A + f.B * d) = r.t2 * f.D
Req(r, f) == Min({ d \in 0 .. 2000 : Reaches(r, f, d) })
Reqs(r, f) == { Req(r, f) } \cup (IF Ties(r, f, Req(r, f)) THEN { Req(r, f) + 1 } ELSE {})

RECURSIVE Gcd2(_, _)
Gcd2(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd2(b, a % b)
(* Distance range of the inverse fit (distance over exponent): within sqrt(R) of the estimate y,
   R = (Dk + (n t - K)^2) / (n Dk), y = (t D - A) / B on exact data; all in half exponents, to within permille. *)
InRange(r, f, d, permille) ==
  LET n == f.n
      K == Sum(r.ks)
      Dk == n * Sum(Times(r.ks, r.ks)) - K * K
      g == Gcd2(f.B, f.D)
      b == f.B \div g
      e == (r.t2 * f.D - 2 * f.A - 2 * d * f.B) \div g     \* 2 b (y - d)
      u == n * r.t2 - 2 * K
      x == b * b * (4 * Dk + u * u)                        \* 4 b^2 n Dk R
  IN  e * e <= (x + (IF permille < 0 THEN 0 - CeilDiv(x * (0 - permille), 1000) ELSE CeilDiv(x * permille, 1000))) \div (n * Dk)
Low(r, f, m) == Min({ d \in 0 .. Req(r, f) : InRange(r, f, d, m) } \cup { Req(r, f) })
High(r, f, m) == 1 + Max({ d \in Req(r, f) - 1 .. 2 * Req(r, f) + 60 : InRange(r, f, d, m) } \cup { Req(r, f) - 1 })

FitFault(r) ==
  LET f == Fit(r)
      qs == { Qubits(r.style, r.unit, d) : d \in Reqs(r, f) }
      qs1 == { Qubits(r.style, r.unit, d) : d \in { Low(r, f, m) : m \in {-2, 0, 2} } }
      qs2 == { Qubits(r.style, r.unit, d) : d \in { High(r, f, m) : m \in {-2, 0, 2} } }
  IN  CASE ~ Near(r.slope, f.B, f.D, 5) -> "slope is not the least-squares slope"
        [] ~ Near(r.icpt, f.A, f.D, 50) -> "intercept is not the least-squares intercept"
        [] ~ Near(r.pe, f.A + f.B * r.dq, f.D, 60) -> "projected error is not the fitted law at that distance"
        [] ~ Near(r.lam, 2 * f.B, f.D, 10) -> "suppression factor is not the error ratio over two steps of distance"
        [] r.hi < r.lam \/ r.lo > r.lam -> "suppression range does not contain the estimate"
        [] Abs(r.v1 * f.D - f.n * 1000000) > f.n * 2000 \/ Abs(r.v3 * f.D - f.n * 1000000) > f.n * 2000 ->
             "suppression range is not where the cost is one above the best"
        [] f.B > 0 /\ ~ (LET num == r.t2 * f.D - 2 * f.A IN Near(r.pd, num, 2 * f.B, 200)) -> "projected distance is not where the fitted law meets the target"
        [] f.B > 0 /\ Exact(r, f) /\ r.q \notin qs -> "required qubit count is not that of the smallest buildable distance reaching the target"
        [] f.B > 0 /\ Exact(r, f) /\ ~ (r.q1 <= r.q /\ r.q <= r.q2) -> "qubit range does not contain the estimate"
        [] f.B > 0 /\ Exact(r, f) /\ r.q1 \notin qs1 -> "low end of the qubit range"
        [] f.B > 0 /\ Exact(r, f) /\ r.q2 \notin qs2 -> "high end of the qubit range"
        [] OTHER -> ""

-----------------------------------------------------------------------------
(* Groups as the implementation formed them: recs << noise, side, distance, id >>. *)
PairFault(r) ==
  LET Ns == { r.recs[i][1] : i \in DOMAIN r.recs }
      Want(n, s) == { << r.recs[i][3], r.recs[i][4] >> : i \in { j \in DOMAIN r.recs : r.recs[j][1] = n /\ r.recs[j][2] = s } }
      G(n) == CHOOSE i \in DOMAIN r.groups : r.groups[i].noise = n
      Ds(S) == { p[1] : p \in S }
  IN  CASE { r.groups[i].noise : i \in DOMAIN r.groups } # Ns \/ Len(r.groups) # Cardinality(Ns) -> "groups are not the noise strengths"
        [] \E n \in Ns : ToSet(r.groups[G(n)].h) # Want(n, "h") \/ Len(r.groups[G(n)].h) # Cardinality(Want(n, "h")) -> "horizontal data of a group"
        [] \E n \in Ns : ToSet(r.groups[G(n)].v) # Want(n, "v") \/ Len(r.groups[G(n)].v) # Cardinality(Want(n, "v")) -> "vertical data of a group"
        [] \E n \in Ns : r.groups[G(n)].low # (Min({ Cardinality(Want(n, "h")), Cardinality(Want(n, "v")) }) < 3) -> "low confidence flag"
        [] OTHER -> ""

-----------------------------------------------------------------------------
(* Figures.  cases[i]: panel, label, style, unit, pts (noise, ds, ks); lines: what was drawn, noise ascending. *)
FigFault(r) ==
  LET Cs == { i \in DOMAIN r.cases : r.cases[i].pts # << >> }
      Fits(i) == { << p.noise, Fit(p) >> : p \in ToSet(r.cases[i].pts) }
      Drawn(i) == { x \in Fits(i) : x[2].B > 0 }        \* errors fall with distance
      Key(c) == << c.panel, c.label >>
      L(i) == CHOOSE j \in DOMAIN r.lines : Key(r.lines[j]) = Key(r.cases[i])
      Good(i, pt, x) ==
        /\ pt.noise = x[1] /\ pt.lo <= pt.y /\ pt.y <= pt.hi
        /\ IF r.what = "lambda" THEN Near(pt.y, 2 * x[2].B, x[2].D, 10)
           ELSE pt.y = Qubits(r.cases[i].style, r.cases[i].unit, Req([ t2 |-> r.t2 ], x[2]))    \* 10^-12 lies between 2^-40 and 2^-39.75
      Bad(i) ==
        LET l == r.lines[L(i)].pts
            D == TLCEval(Drawn(i))
        IN  \/ Len(l) # Cardinality(D)
            \/ \E k \in 1 .. Len(l) - 1 : l[k].noise >= l[k + 1].noise
            \/ \E x \in D : ~ \E k \in 1 .. Len(l) : Good(i, l[k], x)
  IN  CASE { Key(r.lines[j]) : j \in DOMAIN r.lines } # { Key(r.cases[i]) : i \in Cs } \/ Len(r.lines) # Cardinality(Cs) ->
             "one curve per style and decoder with data, in its panel"
        [] \E i \in Cs : Bad(i) -> "a curve does not show the projected values inside their ranges"
        [] OTHER -> ""

Fault(r) == CASE r.kind = "fit" -> FitFault(r) [] r.kind = "pair" -> PairFault(r) [] r.kind = "fig" -> FigFault(r)
TInit == tr \in 1 .. Len(Rows) /\ why = "" /\ world = << >> /\ todo = << 0 >> /\ xs = << >> /\ ys = << >>
TNext ==
  /\ todo # << >> /\ todo' = << >>
  /\ LET w == TLCEval(Fault(Rows[tr]))
     IN  why' = w /\ PrintT("@@" \o (IF w # "" THEN ToJson([ rej |-> tr, at |-> 0, why |-> w, info |-> Rows[tr] ]) ELSE ToJson([ acc |-> tr ])))
  /\ UNCHANGED << world, xs, ys, tr >>
=============================================================================
