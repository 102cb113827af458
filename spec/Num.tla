-------------------------------- MODULE Num --------------------------------
(* Exact numbers without floating point: integers, rationals <<n, d>> (d > 0) *)
(* and quadratic irrationals [p, s, q, d] = (p + s*sqrt(q))/d with d > 0,     *)
(* s in {-1, 0, 1}.  All operators stay within 32 bit for the ranges used.    *)
EXTENDS Integers, Sequences, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Gcd0(_, _)
Gcd0(a, b) == IF b = 0 THEN a ELSE Gcd0(b, a % b)
Gcd(a, b) == Gcd0(Abs(a), Abs(b))
\* integer square root by bisection: largest r with r*r <= n
RECURSIVE ISqrt0(_, _, _)
ISqrt0(n, lo, hi) == IF lo >= hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN ISqrt0(n, m, hi) ELSE ISqrt0(n, lo, m - 1)
ISqrt(n) == ISqrt0(n, 0, Min2(n, 46000))
IsSquare(n) == n >= 0 /\ LET r == ISqrt(n) IN r * r = n

\* rationals
Rat(n, d) == LET g == Gcd(n, d) IN IF d < 0 THEN <<(-n) \div g, (-d) \div g>> ELSE <<n \div g, d \div g>>
RLess(a, b) == a[1] * b[2] < b[1] * a[2]
RLeq(a, b) == a[1] * b[2] <= b[1] * a[2]
REq(a, b) == a[1] * b[2] = b[1] * a[2]
RAdd(a, b) == Rat(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == Rat(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == Rat(a[1] * b[1], a[2] * b[2])
RMin(a, b) == IF RLess(b, a) THEN b ELSE a
RMax(a, b) == IF RLess(a, b) THEN b ELSE a
RSetMin(S) == CHOOSE a \in S : \A b \in S : RLeq(a, b)
RSetMax(S) == CHOOSE a \in S : \A b \in S : RLeq(b, a)

\* quadratic numbers
QNum(p, s, q, d) == IF s # 0 /\ IsSquare(q)
                    THEN LET r == Rat(p + s * ISqrt(q), d) IN [p |-> r[1], s |-> 0, q |-> 0, d |-> r[2]]
                    ELSE IF s = 0 THEN LET r == Rat(p, d) IN [p |-> r[1], s |-> 0, q |-> 0, d |-> r[2]]
                    ELSE [p |-> p, s |-> s, q |-> q, d |-> d]
QInt(n) == [p |-> n, s |-> 0, q |-> 0, d |-> 1]
QRat(r) == [p |-> r[1], s |-> 0, q |-> 0, d |-> r[2]]
IsRat(x) == x.s = 0
\* sign of x - r for a rational r = <<n, d>>
QSgnMinus(x, r) == LET w == r[1] * x.d - x.p * r[2]          \* compare s*sqrt(q)*r[2] with w
                   IN IF x.s = 0 THEN Sgn(-w)
                      ELSE IF x.s = 1
                           THEN IF w < 0 THEN 1 ELSE Sgn(x.q * r[2] * r[2] - w * w)
                           ELSE IF w > 0 THEN -1 ELSE Sgn(w * w - x.q * r[2] * r[2])
\* comparison; at least one of the two is rational, or they share q and d
QCmp(x, y) == IF IsRat(y) THEN QSgnMinus(x, <<y.p, y.d>>)
              ELSE IF IsRat(x) THEN -QSgnMinus(y, <<x.p, x.d>>)
              ELSE IF x = y THEN 0
              ELSE IF x.q = y.q /\ x.d = y.d /\ x.p = y.p THEN Sgn(x.s - y.s)
              ELSE Assert(FALSE, "incomparable quadratic numbers")
QComparable(x, y) == IsRat(x) \/ IsRat(y) \/ x = y \/ (x.q = y.q /\ x.d = y.d /\ x.p = y.p)
QMax(x, y) == IF QCmp(x, y) < 0 THEN y ELSE x
QMin(x, y) == IF QCmp(x, y) > 0 THEN y ELSE x
=============================================================================
