------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Searches over monotone functions, and likelihood intervals.             *)
(*                                                                         *)
(* "table"     f is tabulated on lo .. lo + Len(v) - 1; x must be a point  *)
(*             of the range whose value is as close to t as any.           *)
(* "line"      f(x) = a * x + b on lo .. hi.                               *)
(* "cross"     f is piecewise linear through << lo + i, v[i + 1] >> and    *)
(*             goes on with its outermost slopes; x (in 2^-14) must lie on *)
(*             the requested side of the start and its value within atol   *)
(*             of t (both in 2^-14), up to the rounding of x.              *)
(* "fine"      the same for a line and a tolerance far below the range: res  *)
(*             is the distance to t in thousandths of the tolerance.       *)
(* "interval"  k errors in n shots, ends in units of 1/(100 n): the true   *)
(*             crossing of L(p) = rate * L(k/n) is within one unit.  Few   *)
(*             errors (k <= 60) in more than 10^7 shots are judged at      *)
(*             n = 10^6, ends still in hundredths of an error: L has       *)
(*             reached its Poisson limit.                                  *)
(* "binom"     exp(log_binomial) = em * 2^ee for h hits in n samples at     *)
(*             rate a/m (clamped into [0, 1]); inf = 1 for log 0.          *)
(* "wide"      the same for c percent of n >= 10^7 shots, where L is       *)
(*             Gaussian: ends in errors away from the estimate.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC

Rows == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, why
View == << tr, l >>
R == Rows[tr]
Abs(a) == IF a < 0 THEN -a ELSE a

-----------------------------------------------------------------------------
Inf == 1000000            \* stands for an infinite value in a table
Far(y, t) == IF Abs(y) = Inf THEN 2 * Inf ELSE Abs(y - t)
Table(r) ==
  LET i == r.x - r.lo + 1
  IN  CASE i < 1 \/ i > Len(r.v) -> "the returned point is outside the range"
        [] \E j \in 1 .. Len(r.v) : Far(r.v[j], r.t) < Far(r.v[i], r.t) -> "another point's value is closer to the target"
        [] OTHER -> ""
Line(r) ==
  LET f(x) == r.a * x + r.b
  IN  CASE r.x < r.lo \/ r.x > r.hi -> "the returned point is outside the range"
        [] r.x > r.lo /\ Abs(f(r.x - 1) - r.t) < Abs(f(r.x) - r.t) -> "another point's value is closer to the target"
        [] r.x < r.hi /\ Abs(f(r.x + 1) - r.t) < Abs(f(r.x) - r.t) -> "another point's value is closer to the target"
        [] OTHER -> ""

-----------------------------------------------------------------------------
One == 16384
(* Value (in 1/One) at x (in 1/One) of the piecewise linear function. *)
At(r, x) ==
  LET n == Len(r.v)
      i == x \div One - r.lo                             \* segment
      c == IF i < 0 THEN 0 ELSE IF i > n - 2 THEN n - 2 ELSE i
      slope == r.v[c + 2] - r.v[c + 1]
  IN  One * r.v[c + 1] + slope * (x - One * (r.lo + c))
Steepest(r) == Max({ Abs(r.v[i + 1] - r.v[i]) : i \in 1 .. Len(r.v) - 1 })
Cross(r) ==
  CASE r.dir > 0 /\ r.x < r.start -> "the intercept is on the wrong side of the start"
    [] r.dir < 0 /\ r.x > r.start -> "the intercept is on the wrong side of the start"
    [] Abs(At(r, r.x) - r.t) > r.atol + Steepest(r) -> "the value at the intercept is not within tolerance"
    [] OTHER -> ""

Fine(r) ==
  CASE r.side = 0 -> "the intercept is on the wrong side of the start"
    [] r.res > 1000 -> "the value at the intercept is not within tolerance"
    [] OTHER -> ""

-----------------------------------------------------------------------------
(* Floating point with 30 bit mantissas: <<m, e>> is m * 2^e, 2^29 <= m < 2^30, or <<0, 0>>. *)
Half == 536870912         \* 2^29
Two15 == 32768
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN << 0, 0 >> ELSE IF m < Half THEN Norm(2 * m, e - 1) ELSE IF m >= Half + Half THEN Norm(m \div 2, e + 1) ELSE << m, e >>
Mul(a, b) ==
  LET ah == a[1] \div Two15  al == a[1] % Two15
      bh == b[1] \div Two15  bl == b[1] % Two15
  IN  IF a[1] = 0 \/ b[1] = 0 THEN << 0, 0 >> ELSE Norm(ah * bh + ((ah * bl + al * bh) \div Two15), a[2] + b[2] + 30)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN Norm(1, 0) ELSE IF n % 2 = 1 THEN Mul(a, Pow(a, n - 1)) ELSE LET h == TLCEval(Pow(a, n \div 2)) IN Mul(h, h)
F(i) == Norm(i, 0)
DivInt(a, k) == Norm(2 * (a[1] \div k) + (2 * (a[1] % k)) \div k, a[2] - 1)
Leq(a, b) == IF a[1] = 0 THEN TRUE ELSE IF b[1] = 0 THEN FALSE ELSE a[2] < b[2] \/ (a[2] = b[2] /\ a[1] <= b[1])
(* Likelihood (times (100 n)^n) of the rate a/(100 n). *)
Like(n, k, a) == Mul(Pow(F(a), k), Pow(F(100 * n - a), n - k))

(* L(a) >= (rn / rd) ^ rp * L(max), at most / at least up to one percent. *)
Side(c, x, r, a) == Mul(Mul(F(c), TLCEval(Pow(F(x), r.rp))), TLCEval(Like(r.n, r.k, a)))
AtLeast(r, a) == Leq(Side(990, r.rn, r, 100 * r.k), Side(1000, r.rd, r, a))
AtMost(r, a) == Leq(Side(990, r.rd, r, a), Side(1000, r.rn, r, 100 * r.k))
Interval(r) ==
  LET best == 100 * r.k
      top == 100 * r.n
  IN  CASE r.inside = 0 -> "the interval is not inside [0, 1] or does not contain the observed rate"
        [] r.k = 0 /\ r.low # 0 -> "no errors were seen, but the interval does not start at 0"
        [] r.k = r.n /\ r.high # top -> "only errors were seen, but the interval does not end at 1"
        [] r.low < best /\ ~AtLeast(r, IF r.low + 1 > best THEN best ELSE r.low + 1) -> "the lower end is less likely than requested"
        [] r.low > 0 /\ ~AtMost(r, r.low - 1) -> "the lower end is more likely than requested"
        [] r.high > best /\ ~AtLeast(r, IF r.high - 1 < best THEN best ELSE r.high - 1) -> "the upper end is less likely than requested"
        [] r.high < top /\ ~AtMost(r, r.high + 1) -> "the upper end is more likely than requested"
        [] OTHER -> ""

RECURSIVE Choose(_, _)
Choose(n, h) == IF h = 0 THEN F(1) ELSE DivInt(Mul(Choose(n - 1, h - 1), F(n)), h)
Clamp(a, m) == IF a < 0 THEN 0 ELSE IF a > m THEN m ELSE a
Binom(r) ==
  LET a == Clamp(r.a, r.m)
      true == Mul(TLCEval(Choose(r.n, r.h)), Mul(TLCEval(Pow(F(a), r.h)), TLCEval(Pow(F(r.m - a), r.n - r.h))))
      got == Mul(Norm(r.em, r.ee), TLCEval(Pow(F(r.m), r.n)))
  IN  CASE true[1] = 0 -> IF r.inf = 1 THEN "" ELSE "an impossible outcome is given a likelihood"
        [] r.inf = 1 -> "a possible outcome is given no likelihood"
        [] ~Leq(Mul(F(990), true), Mul(F(1000), got)) -> "the likelihood of an outcome is too low"
        [] ~Leq(Mul(F(990), got), Mul(F(1000), true)) -> "the likelihood of an outcome is too high"
        [] OTHER -> ""

(* Twice the natural logarithm of 1/ratio, in thousandths. *)
TwoLn == << << 2, 1386 >>, << 10, 4605 >>, << 100, 9210 >>, << 1000, 13816 >>, << 100000, 23026 >> >>
Wide(r) ==
  LET q == (CHOOSE x \in ToSet(TwoLn) : x[1] = r.rd)[2]
      vrnc == (r.n \div 10000) * r.c * (100 - r.c)             \* n p (1 - p)
      want == (vrnc \div 1000) * q
      Ok(s) == 100 * Abs((s * s - want) \div 1000) <= 3 * (want \div 1000)
  IN  CASE r.inside = 0 -> "the interval is not inside [0, 1] or does not contain the observed rate"
        [] ~Ok(r.low) -> "the lower end does not have the requested likelihood"
        [] ~Ok(r.high) -> "the upper end does not have the requested likelihood"
        [] OTHER -> ""

-----------------------------------------------------------------------------
Fault(r) ==
  CASE r.kind = "table" -> Table(r)
    [] r.kind = "line" -> Line(r)
    [] r.kind = "cross" -> Cross(r)
    [] r.kind = "binom" -> Binom(r)
    [] r.kind = "fine" -> Fine(r)
    [] r.kind = "interval" -> Interval(r)
    [] r.kind = "wide" -> Wide(r)
Init == tr \in 1 .. Len(Rows) /\ l = 0 /\ why = ""
Next ==
  /\ why = "" /\ l < Len(R.cs)
  /\ LET w == TLCEval(Fault(R.cs[l + 1]))
     IN  /\ why' = w
         /\ IF w # "" THEN PrintT("@@" \o ToJson([ rej |-> tr, at |-> l, why |-> w, info |-> R.cs[l + 1] ]))
            ELSE IF l + 1 = Len(R.cs) THEN PrintT("@@" \o ToJson([ acc |-> tr ])) ELSE TRUE
  /\ l' = l + 1 /\ tr' = tr
=============================================================================
