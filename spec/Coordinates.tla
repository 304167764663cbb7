---------------------------- MODULE Coordinates ----------------------------
(* Points of space in Cartesian and in spherical coordinates, exactly.       *)
(* An angle is the rational point <<cos, sin>> of the unit circle; a point   *)
(* in spherical coordinates is <<r, polar, azimuth>>.                        *)
EXTENDS Rationals, Sequences, TLC, Json
ZeroAngle == <<ROne, RZero>>
OnCircle(a) == RAdd(RMul(a[1], a[1]), RMul(a[2], a[2])) = ROne
IsPolar(a) == RLeq(RZero, a[2])
Cartesian(p) ==
  LET r == p[1] t == p[2] f == p[3] s == RMul(r, t[2])
  IN <<RMul(s, f[1]), RMul(s, f[2]), RMul(r, t[1])>>
(* The documented convention where an angle is undefined: it is zero. *)
Canonical(p) ==
  IF p[1] = RZero THEN <<RZero, ZeroAngle, ZeroAngle>>
  ELSE IF p[2][2] = RZero THEN <<p[1], p[2], ZeroAngle>>
  ELSE p
(* Another way to write the same point: through the pole and half a turn.    *)
Mirror(p) == <<p[1], <<p[2][1], RNeg(p[2][2])>>, <<RNeg(p[3][1]), RNeg(p[3][2])>>>>
Norm2(x) == RAdd(RAdd(RMul(x[1], x[1]), RMul(x[2], x[2])), RMul(x[3], x[3]))
(* The angles of a point other than the origin, from its coordinates alone.  *)
Spherical(x, r, rho) ==
  IF r = RZero THEN <<RZero, ZeroAngle, ZeroAngle>>
  ELSE <<r, <<RDiv(x[3], r), RDiv(rho, r)>>,
         IF rho = RZero THEN ZeroAngle ELSE <<RDiv(x[1], rho), RDiv(x[2], rho)>>>>
Laws(p) ==
  LET x == Cartesian(p) IN
  /\ OnCircle(p[2]) /\ OnCircle(p[3]) /\ IsPolar(p[2])
  /\ Norm2(x) = RMul(p[1], p[1])
  /\ Cartesian(Canonical(p)) = x
  /\ Cartesian(Mirror(p)) = x
  /\ Spherical(x, p[1], RMul(p[1], p[2][2])) = Canonical(p)
(* Lengths scale, directions do not. *)
Scaled(p, k) == <<RMul(k, p[1]), p[2], p[3]>>
Scaling(p, k) == LET x == Cartesian(p) IN Cartesian(Scaled(p, k)) = [i \in 1..3 |-> RMul(k, x[i])]
Answer(p) == [p |-> p, x |-> Cartesian(p), c |-> Canonical(p), m |-> Mirror(p)]
=============================================================================
