------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* Planar vectors and the body frame.  A motion record is                  *)
(*   [x, y, th, vx, vy, om]  (position, angle, velocity, angular velocity) *)
(***************************************************************************)
EXTENDS FixReal

Vec(x, y) == <<x, y>>
VZero == <<RZero, RZero>>
VAdd(u, v) == <<RAdd(u[1], v[1]), RAdd(u[2], v[2])>>
VSub(u, v) == <<RSub(u[1], v[1]), RSub(u[2], v[2])>>
VNeg(u) == <<RNeg(u[1]), RNeg(u[2])>>
VScale(r, u) == <<RMul(r, u[1]), RMul(r, u[2])>>
VDot(u, v) == RAdd(RMul(u[1], v[1]), RMul(u[2], v[2]))
VCross(u, v) == RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
VPerp(u) == <<RNeg(u[2]), u[1]>>                  \* u turned by a quarter, counter-clockwise
VNorm(u) == RSqrt(VDot(u, u))

Turn(th, u) ==                                     \* u rotated by th
    LET c == RCos(th)
        s == RSin(th)
    IN <<RSub(RMul(c, u[1]), RMul(s, u[2])), RAdd(RMul(s, u[1]), RMul(c, u[2]))>>

Centre(k) == <<k.x, k.y>>
LocalToWorld(k, u) == VAdd(Turn(k.th, u), Centre(k))
WorldToLocal(k, w) == Turn(RNeg(k.th), VSub(w, Centre(k)))
\* time derivative of LocalToWorld along the motion
PointVelocity(k, u) == VAdd(<<k.vx, k.vy>>, VScale(k.om, VPerp(Turn(k.th, u))))
\* moment about the centre of a force f that acts at the body-local point u
Moment(k, u, f) == VCross(Turn(k.th, u), f)

KineticEnergy(k, m, I) ==
    RMul(RHalf, RAdd(RMul(m, RAdd(RSq(k.vx), RSq(k.vy))), RMul(I, RSq(k.om))))
=============================================================================
