------------------------------- MODULE Vectors -------------------------------
(* P23.  (a) Mode "hist": registers of points and vectors under histories of  *)
(* displacements, scalings and products.  (b) other modes: exact results of   *)
(* rotations, projections, parallelism and parametrisations on the lattice.   *)
EXTENDS Num, Rand, Json
CONSTANTS Lo, Hi, Mode, MaxLen
VARIABLES seed, step, P, V, log
Rnd(k, n) == R(seed, k, n)
Ix == 1..3
Vec(k, n) == <<Rnd(k, 2*n + 1) - n, Rnd(k + 1, 2*n + 1) - n, Rnd(k + 2, 2*n + 1) - n>>
NZ(k, n) == LET v == Vec(k, n) IN IF v = <<0,0,0>> THEN <<2, 0, -1>> ELSE v
Add(a, b) == [i \in Ix |-> a[i] + b[i]]
Sub(a, b) == [i \in Ix |-> a[i] - b[i]]
Mul(s, a) == [i \in Ix |-> s * a[i]]
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Crs(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Box(a, b, c) == Dot(a, Crs(b, c))
MaxAbs(a) == Max2(Max2(Abs(a[1]), Abs(a[2])), Abs(a[3]))
\* ------------------------------------------------------------- histories
Ops == <<"P+=V", "P-=V", "P+V", "P-V", "P*=", "P/=", "V*=", "V/=", "V+V", "V-V", "V=PP", "dot", "cross", "box", "eq", "setP", "setV", "V=P+">>
Small(a) == MaxAbs(a) <= 400
\* one operation on registers i, j, l with scalar c; the log records operands and result
Op(o, i, j, l, c) ==
  LET p == P[i] v == V[j] w == V[l] q == P[l]
      setP(x) == /\ Small(x) /\ P' = [P EXCEPT ![i] = x] /\ UNCHANGED V /\ log' = Append(log, [op |-> o, i |-> i, j |-> j, l |-> l, c |-> c, r |-> x])
      setV(x) == /\ Small(x) /\ V' = [V EXCEPT ![j] = x] /\ UNCHANGED P /\ log' = Append(log, [op |-> o, i |-> i, j |-> j, l |-> l, c |-> c, r |-> x])
      ask(x) == UNCHANGED <<P, V>> /\ log' = Append(log, [op |-> o, i |-> i, j |-> j, l |-> l, c |-> c, r |-> x])
  IN CASE o = "P+=V" -> setP(Add(p, v)) [] o = "P-=V" -> setP(Sub(p, v))
       [] o = "P+V" -> ask(Add(p, v)) [] o = "P-V" -> ask(Sub(p, v))
       [] o = "P*=" -> setP(Mul(c, p)) [] o = "P/=" -> (\A k \in Ix : p[k] % 2 = 0) /\ setP([k \in Ix |-> p[k] \div 2])
       [] o = "V*=" -> setV(Mul(c, v)) [] o = "V/=" -> (\A k \in Ix : v[k] % 2 = 0) /\ setV([k \in Ix |-> v[k] \div 2])
       [] o = "V+V" -> setV(Add(v, w)) [] o = "V-V" -> setV(Sub(v, w)) [] o = "V=PP" -> setV(Sub(q, p))
       [] o = "dot" -> ask(<<Dot(v, w)>>) [] o = "cross" -> ask(Crs(v, w)) [] o = "box" -> Small(v) /\ Small(w) /\ MaxAbs(v) <= 60 /\ MaxAbs(w) <= 60 /\ MaxAbs(V[i]) <= 60 /\ ask(<<Box(v, w, V[i])>>)
       [] o = "eq" -> ask(<<IF p = q THEN 1 ELSE 0>>)
       [] o = "setP" -> setP(<<c, j - 2, l * c>>) [] o = "setV" -> setV(<<l - 2, c, i * c>>)
       [] o = "V=P+" -> setV(Sub(Add(p, w), q))
HInit == P = [i \in Ix |-> <<i, 0, -i>>] /\ V = [i \in Ix |-> <<1, i - 2, 2>>] /\ log = <<>> /\ step = 0
HNext == /\ step < MaxLen
         /\ LET b == 100 + 10 * step IN
            /\ step' = step + 1 /\ UNCHANGED seed
            /\ LET o == PickSeq(Ops, Rnd(b, 1000)) i == 1 + Rnd(b + 1, 3) j == 1 + Rnd(b + 2, 3) l == 1 + Rnd(b + 3, 3) c == Rnd(b + 4, 9) - 4 IN
               IF ENABLED Op(o, i, j, l, c) THEN Op(o, i, j, l, c)
               ELSE UNCHANGED <<P, V>> /\ log' = Append(log, [op |-> "state", i |-> i, j |-> j, l |-> l, c |-> c, r |-> P[i]])
\* laws that hold in every state
Laws == \A i \in Ix, j \in Ix : /\ Dot(V[i], Crs(V[i], V[j])) = 0
                               /\ Sub(Add(P[i], V[j]), V[j]) = P[i]
                               /\ MaxAbs(V[i]) <= 60 /\ MaxAbs(V[j]) <= 60 => Dot(Crs(V[i], V[j]), Crs(V[i], V[j])) = Dot(V[i], V[i]) * Dot(V[j], V[j]) - Dot(V[i], V[j]) * Dot(V[i], V[j])
\* ------------------------------------------------------------- rotations
Axes == << <<1,2,2,3>>, <<2,3,6,7>>, <<0,0,1,1>>, <<0,1,0,1>>, <<1,0,0,1>>, <<-2,1,2,3>>, <<4,-8,1,9>>, <<-1,-4,8,9>>, <<0,3,-4,5>>, <<-6,2,-3,7>>, <<0,0,-1,1>> >>
Q1 == << <<65, 0>>, <<63, 16>>, <<60, 25>>, <<56, 33>>, <<52, 39>>, <<39, 52>>, <<33, 56>>, <<25, 60>>, <<16, 63>> >>
Rot4(p, r) == CASE r = 0 -> p [] r = 1 -> <<-p[2], p[1]>> [] r = 2 -> <<-p[1], -p[2]>> [] r = 3 -> <<p[2], -p[1]>>
Pos == [i \in 1..36 |-> Rot4(Q1[1 + ((i - 1) % 9)], (i - 1) \div 9)]
\* Rodrigues: v c + (k x v) s + k (k.v)(1 - c), k = a/n, (c, s) = Pos/65; numerators over 65 n^2
RotVec(v, a, n, q) == LET kv == Crs(a, v) d == Dot(a, v) IN
   [i \in Ix |-> n * n * q[1] * v[i] + n * q[2] * kv[i] + (65 - q[1]) * d * a[i]]
RotCase == LET ax == PickSeq(Axes, Rnd(1, 1000)) a == <<ax[1], ax[2], ax[3]>> n == ax[4] q == Pos[1 + Rnd(2, 36)]
               vs == [i \in 1..4 |-> Vec(5 + 3 * i, 6)] IN
   [axis |-> a, stretch |-> 1 + Rnd(3, 5), cs |-> q, turns |-> Rnd(4, 5) - 2, vs |-> vs, d |-> 65 * n * n, rs |-> [i \in 1..4 |-> RotVec(vs[i], a, n, q)]]
RotOk == LET c == RotCase IN \A i \in 1..4 : \* lengths and the axis component are kept
   /\ Dot(c.axis, c.rs[i]) = c.d * Dot(c.axis, c.vs[i])
   /\ MaxAbs(c.rs[i]) < 20000 => Dot(c.rs[i], c.rs[i]) = c.d * c.d * Dot(c.vs[i], c.vs[i]) \/ c.d > 600
\* ------------------------------------------------------------- parallelism, right-handedness
ParCase == LET v == NZ(1, 5) w == IF Rnd(4, 3) = 0 THEN NZ(5, 5) ELSE Mul(<<-3, -2, -1, 1, 2, 5>>[1 + Rnd(5, 6)], v) u == NZ(9, 5) IN
   [pv |-> v, pw |-> w, par |-> Crs(v, w) = <<0,0,0>>, u |-> u, box |-> Box(v, w, u), vv |-> Dot(v, v), dot |-> Dot(v, w),
    par2 |-> v[1]*w[2] = v[2]*w[1], nz2 |-> (v[1] # 0 \/ v[2] # 0) /\ (w[1] # 0 \/ w[2] # 0), crs2 |-> v[1]*w[2] - v[2]*w[1]]
\* ------------------------------------------------------------- projections
ProjCase == LET o == Vec(1, 5) d == NZ(4, 4) p == Vec(7, 6) q == Vec(10, 6) dd == Dot(d, d)
                t == Dot(Sub(p, o), d) tq == Dot(Sub(q, o), d)
                \* line: o + (t/dd) d ; plane (normal d): p - (t/dd) d
                onLine == [i \in Ix |-> dd * o[i] + t * d[i]]
                onPlane == [i \in Ix |-> dd * p[i] - t * d[i]]
                onPlaneQ == [i \in Ix |-> dd * q[i] - tq * d[i]]
            IN [o |-> o, dir |-> d, p |-> p, q |-> q, dd |-> dd, onLine |-> onLine, onPlane |-> onPlane, onPlaneQ |-> onPlaneQ,
                par |-> Crs(Sub(q, p), d) = <<0,0,0>>]
ProjOk == LET c == ProjCase IN /\ Dot(Sub(c.onLine, Mul(c.dd, c.p)), c.dir) = 0
                               /\ Dot(Sub(c.onPlane, Mul(c.dd, c.o)), c.dir) = 0
                               /\ Crs(Sub(c.onPlane, Mul(c.dd, c.p)), c.dir) = <<0,0,0>>
\* ------------------------------------------------------------- parametrisation
ParamCase == LET i == 1 + Rnd(1, 36) j == IF Rnd(2, 8) = 0 THEN i ELSE 1 + Rnd(3, 36) IN
   [i |-> i, j |-> j, a |-> 1 + Rnd(4, 7), kn |-> 1 + Rnd(5, 5), m |-> Vec(6, 5), pos |-> Pos,
    \* positions met when running from i to j, in this order (a full turn when i = j)
    run |-> [k \in 1..(IF i = j THEN 37 ELSE 1 + ((j - i + 36) % 36)) |-> 1 + ((i + k - 2) % 36)],
    s |-> Vec(10, 5), t |-> NZ(14, 5)]
RunOk == LET c == ParamCase r == c.run IN r[1] = c.i /\ r[Len(r)] = c.j
Init == seed \in (IF Mode = "hist" THEN Lo..Hi ELSE Lo..(Lo + 63)) /\ HInit
Next == IF Mode = "hist" THEN HNext ELSE seed + 64 <= Hi /\ seed' = seed + 64 /\ UNCHANGED <<step, P, V, log>>
Meta == CASE Mode = "hist" -> Laws [] Mode = "rot" -> RotOk [] Mode = "proj" -> ProjOk [] Mode = "param" -> RunOk [] OTHER -> TRUE
Emit == CASE Mode = "hist" -> step = MaxLen => PrintT(ToJson([hist |-> log]))
          [] Mode = "rot" -> PrintT(ToJson(RotCase)) [] Mode = "par" -> PrintT(ToJson(ParCase))
          [] Mode = "proj" -> PrintT(ToJson(ProjCase)) [] Mode = "param" -> PrintT(ToJson(ParamCase))
=============================================================================
