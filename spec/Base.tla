-------------------------------- MODULE Base --------------------------------
(* Small vocabulary shared by every module: integer sums, permutations and  *)
(* their parity, exact rationals <<num, den>>, and "clause" verdicts.       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Idx(s) == 1..Len(s)
Dom(r) == DOMAIN r
Has(r, f) == f \in DOMAIN r
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
EvenSign(k) == IF k % 2 = 0 THEN 1 ELSE -1

SumOver(S, f(_)) == MapThenSumSet(f, S)
SumSeq(s) == FoldLeft(LAMBDA a, b: a + b, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA a, b: a * b, 1, s)

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k < 0 \/ k > n THEN 0
                ELSE IF k = 0 \/ k = n THEN 1
                ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)

\* drop position i of a sequence
Omit(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Inversions(s) == Cardinality({p \in (Idx(s) \X Idx(s)) : p[1] < p[2] /\ s[p[1]] > s[p[2]]})
\* orientation sign of a tuple of distinct integers, relative to ascending order
Sgn(s) == EvenSign(Inversions(s))
Distinct(s) == Cardinality(Rng(s)) = Len(s)
\* subsets of size k; the comprehension normalises the set TLC's built-in kSubset returns out of order
KSubsets(k, S) == {x : x \in kSubset(k, S)}
PermutationsOf(S) == {p \in [1..Cardinality(S) -> S] : Cardinality({p[i] : i \in 1..Cardinality(S)}) = Cardinality(S)}

\* Verdicts are sets of clause names, {} meaning "the event is a behaviour of the spec".
\* They are written CASE ~c1 -> {"c1"} [] ~c2 -> {"c2"} ... [] OTHER -> {}; TLC tries the
\* arms in order, so later clauses may assume the earlier ones (well-formedness first).

(* ---- exact rationals, kept reduced, denominators positive; 32 bit budget ---- *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RNorm(n, d) == LET g == Gcd(Abs(n), Abs(d)) IN
               IF n = 0 THEN <<0, 1>>
               ELSE LET a == Abs(n) \div g
                        b == Abs(d) \div g
                    IN <<IF (n < 0) = (d < 0) THEN a ELSE -a, b>>
RInt(n) == <<n, 1>>
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN RNorm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g == Gcd(Abs(a[1]), b[2])
                  h == Gcd(Abs(b[1]), a[2])
              IN RNorm((a[1] \div Max2(g,1)) * (b[1] \div Max2(h,1)), (a[2] \div Max2(h,1)) * (b[2] \div Max2(g,1)))
RInv(a) == RNorm(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
REq(a, b) == RNorm(a[1], a[2]) = RNorm(b[1], b[2])
RLe(a, b) == RSub(a, b)[1] <= 0
RLt(a, b) == RSub(a, b)[1] < 0
RSumSeq(s) == FoldLeft(LAMBDA a, b: RAdd(a, b), <<0, 1>>, s)
\* got is the rational r times 10^4, rounded
Near4(got, r) == Abs(got - ((r[1] \div r[2]) * 10000 + ((r[1] % r[2]) * 10000) \div r[2])) <= 1
RZero == <<0, 1>>
ROne == <<1, 1>>
=============================================================================
