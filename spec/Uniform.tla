------------------------------ MODULE Uniform ------------------------------
(* Distribution of what the code draws at random, judged on samples.         *)
(* dist:    shares over the integers modulo the small prime q (the library   *)
(*          is linked with such a group), as a table of share values at      *)
(*          1..t with the number of times they occurred;                     *)
(* values:  a table of single values in lo .. q - 1 with their counts;       *)
(* scalars: rows of scalars of the real group, one row per draw.             *)
EXTENDS TraceBase, Prims, Wire

(* ---------------------------------------------------------------- small field *)
RECURSIVE PowM(_, _, _)
PowM(b, k, q) == IF k = 0 THEN 1 ELSE (b * PowM(b, k - 1, q)) % q
InvM(x, q) == PowM(x % q, q - 2, q)
(* coefficients, from degree 0, of the polynomial through (1, s[1]) .. (t, s[t]), by divided differences *)
Coeffs(s, q) ==
  LET t == Len(s)
      d == TLCEval(LET f[k \in 0 .. t - 1] ==           \* f[k][i]: k-th difference starting at i
                         IF k = 0 THEN [i \in 1 .. t |-> s[i]]
                         ELSE [i \in 1 .. t - k |-> ((f[k - 1][i + 1] + q - f[k - 1][i]) * InvM(k, q)) % q] IN f)
      \* Horner on Newton's form: p = p * (x - (k+1)) + d[k][1]
      p[k \in 0 .. t] ==
         IF k = t THEN [i \in 0 .. t - 1 |-> 0]
         ELSE [i \in 0 .. t - 1 |->
                 ((IF i = 0 THEN d[k][1] ELSE p[k + 1][i - 1]) + (q - ((k + 1) % q)) * p[k + 1][i]) % q]
  IN p[0]

RECURSIVE PowN(_, _)
PowN(b, k) == IF k = 0 THEN 1 ELSE b * PowN(b, k - 1)
RECURSIVE Total(_, _, _)
Total(op(_), i, n) == IF i > n THEN 0 ELSE op(i) + Total(op, i + 1, n)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
(* Pearson's statistic of cells cells, seen counts (cells not listed count 0); *)
(* the bound is exceeded by uniform samples with probability below 10^-12      *)
ChiOk(seen, cells) ==
  LET n == Len(seen)
      m == LET c(i) == seen[i] IN Total(c, 1, n)
      e == m \div cells
      sq(x) == LET d == Min2(Abs(x - e), 700) IN d * d
      x2 == ((LET c(i) == sq(seen[i]) IN Total(c, 1, n)) + (cells - n) * sq(0)) \div e
      over == x2 - (cells - 1) - 60 - (cells \div e + 1)
  IN e >= 20 /\ n <= cells /\ (over <= 0 \/ (over < 40000 /\ over * over <= 120 * (cells - 1)))

Dist(e) ==
  LET rows == TLCEval([i \in DOMAIN e.counts |-> [c |-> Coeffs(e.counts[i].s, e.q), m |-> e.counts[i].m]])
      free == IF e.secret >= 0 THEN 1 .. e.t - 1 ELSE 0 .. e.t - 1
      all  == LET c(i) == rows[i].m IN Total(c, 1, Len(rows))
      good == SelectSeq(rows, LAMBDA r : \A k \in free : r.c[k] # 0)     \* zero may or may not be drawn
      cells == PowN(e.q - 1, Cardinality(free))
      kept == LET c(i) == good[i].m IN Total(c, 1, Len(good))
      \* at least the share of the samples that uniform coefficients would leave, less 5%
      least == LET f[k \in 0 .. Cardinality(free)] == IF k = 0 THEN all ELSE (f[k - 1] \div e.q) * (e.q - 1) IN (f[Cardinality(free)] \div 20) * 19
  IN Viol("C05", e.secret >= 0 => \A i \in DOMAIN rows : rows[i].c[0] = e.secret, "constant coefficient is not the secret")
     \cup Viol("C05", kept >= least, "coefficients vanish too often")
     \cup (IF kept < least THEN {} ELSE Viol("C05", ChiOk([i \in DOMAIN good |-> good[i].m], cells), "coefficients are not independent and uniform"))

Values(e) == Viol(e.prop, (\A i \in DOMAIN e.counts : e.counts[i].v \in e.lo .. e.q - 1)
                          /\ ChiOk([i \in DOMAIN e.counts |-> e.counts[i].m], e.q - e.lo), e.what \o " is not uniform")

(* ---------------------------------------------------------------- real group *)
BitOk(col, k, n) ==      \* bit k set about half of the time (seven standard deviations)
  LET d == 2 * BitOnes(col, k) - n IN d * d <= 49 * n
Distinct(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)
Flat(rows) == LET w == Len(rows[1]) IN [i \in 1 .. Len(rows) * w |-> rows[((i - 1) \div w) + 1][((i - 1) % w) + 1]]
Scalars(e) ==
  LET w == Len(e.rows[1])
      n == Len(e.rows)
      col(k) == [i \in 1 .. n |-> e.rows[i][k]]
      adj(f(_, _)) == TLCEval(Flat([i \in 1 .. n |-> [k \in 1 .. w - 1 |-> f(e.rows[i][k + 1], e.rows[i][k])]]))
      minus(a, b) == SSub(a, b)
      ratio(a, b) == SMul(a, SInv(b))
      flat == TLCEval(Flat(e.rows))
  IN Viol(e.prop, \A i \in DOMAIN flat : SCanon(flat[i]), e.what \o ": not canonical")
     \cup Viol(e.prop, Distinct(flat) /\ \A i \in DOMAIN flat : flat[i] # S0, e.what \o ": repeats or vanishes")
     \cup Viol(e.prop, w < 2 \/ (Distinct(adj(minus)) /\ Distinct(adj(ratio))), e.what \o ": consecutive draws are related")
     \cup Viol(e.prop, n * w < 200 \/ \A k \in 0 .. 251 : BitOk(flat, k, Len(flat)), e.what \o ": some bits are biased")

(* coefficients given by the driver, against the shares they came from *)
RECURSIVE EvalAt(_, _, _)
EvalAt(c, x, k) == IF k > Len(c) THEN S0 ELSE SAdd(c[k], SMul(x, EvalAt(c, x, k + 1)))
Fits(e) == Viol(e.prop, \A i \in DOMAIN e.shares : EvalAt(e.c, SInt(e.shares[i].i), 1) = e.shares[i].v, "driver: coefficients do not fit the shares")

UStart(run) == <<>>
UStep(run, st, e) ==
  [st |-> st, bad |-> CASE e.op = "dist" -> Dist(e) [] e.op = "values" -> Values(e) [] e.op = "scalars" -> Scalars(e) [] e.op = "fits" -> Fits(e)
                        [] e.op = "elements" -> Viol(e.prop, Distinct(e.vals) /\ \A i \in DOMAIN e.vals : PValid(e.vals[i]) /\ e.vals[i] # P0, e.what \o ": repeats or is no element")]
=============================================================================
