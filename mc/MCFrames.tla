------------------------------- MODULE MCFrames -------------------------------
(***************************************************************************)
(* The body frame: going to the world and back, distances, velocities of   *)
(* points, moments of forces.                                              *)
(***************************************************************************)
EXTENDS Lattice, Frames

CONSTANTS Emitting
VARIABLE c
Angles == {"0", "1.5707963267948966", "3.141592653589793", "-2.2", "7", "1e-9", "-100.5", "87654.25"}
Places == {<<"0", "0">>, <<"-2.5", "1">>, <<"1000", "-0.001">>}
Speeds == {<<"0", "0", "0">>, <<"1", "-0.5", "0">>, <<"0", "0", "2">>, <<"-3", "0.25", "-1.5">>}
Points == {<<"0", "0">>, <<"1", "0">>, <<"0", "-2">>, <<"0.75", "-1.25">>}
Forces == {<<"3", "0">>, <<"0.5", "-4">>}
Init == c \in [at : Places, th : Angles, v : Speeds, u : Points, f : Forces]
Next == UNCHANGED c

K == LET p == Values(c.at)
         v == Values(c.v)
     IN [x |-> p[1], y |-> p[2], th |-> RParse(c.th), vx |-> v[1], vy |-> v[2], om |-> v[3]]
U == Values(c.u)
Fo == Values(c.f)
e == RParse("1e-32")
Near2(a, b, tol) == Within(a[1], b[1], tol) /\ Within(a[2], b[2], tol)
Moved(k, h) == [k EXCEPT !.x = RAdd(@, RMul(h, k.vx)), !.y = RAdd(@, RMul(h, k.vy)), !.th = RAdd(@, RMul(h, k.om))]

RoundTrip ==
    /\ Near2(WorldToLocal(K, LocalToWorld(K, U)), U, e)
    /\ Near2(LocalToWorld(K, WorldToLocal(K, U)), U, e)
    /\ LocalToWorld(K, VZero) = Centre(K)
Rigid ==        \* distances and orientation are kept
    LET p == LocalToWorld(K, U)
        q == LocalToWorld(K, Fo)
    IN /\ Within(VDot(VSub(p, q), VSub(p, q)), VDot(VSub(U, Fo), VSub(U, Fo)), RParse("1e-30"))
       /\ Within(VCross(VSub(p, Centre(K)), VSub(q, Centre(K))), VCross(U, Fo), RParse("1e-30"))
Speed ==        \* the velocity of a point is the derivative of its place
    LET h == RParse("1e-10")
        d == VScale(RDiv(ROne, RMul(RTwo, h)), VSub(LocalToWorld(Moved(K, h), U), LocalToWorld(Moved(K, RNeg(h)), U)))
    IN Near2(d, PointVelocity(K, U), RParse("1e-17"))
Power ==        \* a force at a point does the work of the force and moment at the centre
    LET p == VDot(Fo, PointVelocity(K, U))
        q == RAdd(VDot(Fo, <<K.vx, K.vy>>), RMul(Moment(K, U, Fo), K.om))
    IN Within(p, q, RParse("1e-30"))
Energy ==
    LET m == RParse("2.5")
        i == RParse("0.75")
        h == RParse("1e-10")
        Faster(s) == [K EXCEPT !.vx = RAdd(@, RMul(s, Fo[1])), !.vy = RAdd(@, RMul(s, Fo[2])), !.om = RAdd(@, s)]
        d == RDiv(RSub(KineticEnergy(Faster(h), m, i), KineticEnergy(Faster(RNeg(h)), m, i)), RMul(RTwo, h))
    IN /\ RLe(RZero, KineticEnergy(K, m, i))
       /\ Within(d, RAdd(RMul(m, VDot(<<K.vx, K.vy>>, Fo)), RMul(i, K.om)), RParse("1e-17"))
Emit == Emitting => Case("frame" \o Words(c.at) \o " " \o c.th \o Words(c.v) \o Words(c.u) \o Words(c.f))
=============================================================================
