-------------------------------- MODULE Rand --------------------------------
(* A small deterministic pseudo random function (three combined congruential  *)
(* generators, 32-bit safe) used to resolve the nondeterminism of a           *)
(* specification reproducibly: R(s, k, n) is the k-th draw in 0..n-1 of the   *)
(* behaviour with seed s.                                                     *)
EXTENDS Integers, Sequences
LOCAL Mix(a, b) == (a * 171 + b * 7919 + 101) % 30269
LOCAL Mix2(a, b) == (a * 172 + b * 6997 + 57) % 30307
LOCAL Mix3(a, b) == (a * 170 + b * 5413 + 31) % 30323
LOCAL H1(s, k) == Mix(Mix(Mix(Mix(s % 30269, k % 20011), s % 20021), k % 30269), 5)
LOCAL H2(s, k) == Mix2(Mix2(Mix2(Mix2(k % 30307, s % 20011), k % 20021), s % 30307), 7)
LOCAL H3(s, k) == Mix3(Mix3(Mix3(Mix3((s + k) % 30323, s % 20011), k % 20021), (s % 3001) * (k % 29)), 11)
R(s, k, n) == ((H1(s, k) * 31 + H2(s, k) * 17 + H3(s, k) * 13 + ((H1(s,k) * (H2(s,k) % 60000)) % 10007)) \div 3) % n
PickSeq(q, r) == q[1 + (r % Len(q))]
=============================================================================
