------------------------------- MODULE MCJoints -------------------------------
(***************************************************************************)
(* The nine joint kinds: the rows in closed form are the derivatives of    *)
(* the errors; the errors vanish exactly where the geometric relation,     *)
(* stated here a second time through frames, distances and velocities of   *)
(* points, holds.                                                          *)
(***************************************************************************)
EXTENDS Lattice, Params, Joints

CONSTANTS Emitting
VARIABLE c
Motions == {<<"0", "0", "0", "0", "0", "0">>, <<"1", "-2", "1.5707963267948966", "0.5", "0", "0">>,
            <<"-0.5", "0.25", "-2.5", "0", "-1", "2">>, <<"300", "0", "3.141592653589793", "-1", "1", "-0.5">>,
            <<"0", "1", "40", "0", "0", "-3">>, <<"0.001", "-1e-7", "1e-6", "20", "-0.125", "1">>}
Params(kind) ==
    CASE kind = "pin" -> {<<"0", "0", "0", "0", "10", "1">>, <<"1", "-0.5", "2", "0.25", "0", "0">>, <<"0", "-2", "-300", "7", "-3", "0.5">>}
      [] kind = "rot" -> {<<"0", "10", "1">>, <<"-2.5", "0", "0">>, <<"41", "3", "-2">>}
      [] kind = "line" -> {<<"0", "0", "0", "0", "1", "0", "10", "1">>, <<"1", "0.5", "-1", "2", "0", "-1", "0", "0">>,
                           <<"0", "-0.75", "3", "0", "0.6", "0.8", "1", "1">>, <<"-1", "0", "0", "1", "3", "-0.5", "2", "0">>}
      [] kind = "link" -> {<<"0", "0", "0", "0", "1e6", "10", "1">>, <<"1", "-0.5", "0", "2", "3.5", "0", "0">>,
                           <<"0", "0.75", "-1", "0", "0", "-3", "0.5">>}
      [] kind = "roll" -> {<<"0", "0", "1", "0", "1", "10", "1">>, <<"-1", "0.5", "0", "-1", "0.5", "0", "0">>,
                           <<"0", "2", "0.6", "0.8", "2", "1", "3">>, <<"0.25", "0", "-0.8", "0.6", "0", "5", "0">>}
      [] kind = "gear" -> {<<"1", "0", "10", "1">>, <<"-2.5", "0", "0", "0">>, <<"0", "0", "0", "1">>, <<"3", "1", "0", "0">>}
      [] kind \in {"clutch", "fric"} -> {<<"-1", "1", "10", "1">>, <<"0", "0", "0", "0">>, <<"-1e9", "0.5", "0", "2">>}
      [] kind = "crot" -> {<<"0", "-1", "1", "10", "1">>, <<"-2.5", "0", "1e6", "0", "0">>}
Init == \E kind \in JointKinds : \E p \in Params(kind), k1 \in Motions, k2 \in Motions :
            /\ BodyCount(kind) = 1 => k2 = k1
            /\ c = [kind |-> kind, p |-> p, k |-> IF BodyCount(kind) = 1 THEN <<k1>> ELSE <<k1, k2>>]
Next == UNCHANGED c

Ks == TLCEval([s \in 1..Len(c.k) |-> MotionOf(Values(c.k[s]))])
Par == JointParams(c.kind, Values(c.p))
R == Rows(c.kind, Par, Ks)
e == RParse("1e-30")
SameSeq(u, v, tol) == \A i \in DOMAIN u : Within(u[i], v[i], tol)

Closed ==       \* the closed form is the derivative of the error
    LET I == Ideal(c.kind, Par, Ks)
        A == R
    IN /\ Len(A) = Len(I) /\ Len(A) = RowCount(c.kind) /\ Len(Ks) = BodyCount(c.kind)
       /\ \A i \in DOMAIN A :
            /\ Within(A[i].C, I[i].C, e) /\ SameSeq(A[i].J, I[i].J, e) /\ SameSeq(A[i].Jd, I[i].Jd, e)
            /\ A[i].vb = I[i].vb /\ A[i].lo = I[i].lo /\ A[i].hi = I[i].hi /\ A[i].ks = I[i].ks /\ A[i].kd = I[i].kd

Moved(k, h) == [k EXCEPT !.x = RAdd(@, RMul(h, k.vx)), !.y = RAdd(@, RMul(h, k.vy)), !.th = RAdd(@, RMul(h, k.om))]
Field(i) == CASE i % 3 = 1 -> "x" [] i % 3 = 2 -> "y" [] OTHER -> "th"
Differences ==  \* and so say small differences
    LET h == RParse("1e-10")
        two == RMul(RTwo, h)
        tol == RParse("1e-15")
        Shift(ks, q, d) == [ks EXCEPT ![1 + (q - 1) \div 3] = [@ EXCEPT ![Field(q)] = RAdd(@, d)]]
        Ahead(d) == TLCEval([s \in DOMAIN Ks |-> Moved(Ks[s], d)])
        A == R
        fwd == Rows(c.kind, Par, Ahead(h))
        back == Rows(c.kind, Par, Ahead(RNeg(h)))
    IN \A i \in DOMAIN A : \A q \in 1..(3 * Len(Ks)) :
         /\ PositionJoint(c.kind) =>
              Within(A[i].J[q], RDiv(RSub(Rows(c.kind, Par, Shift(Ks, q, h))[i].C, Rows(c.kind, Par, Shift(Ks, q, RNeg(h)))[i].C), two), tol)
         /\ Within(A[i].Jd[q], RDiv(RSub(fwd[i].J[q], back[i].J[q]), two), tol)

\* the relation, through distances and relative velocities
Rate(i) == RDot(R[i].J, Rates(Ks))
Relation ==
    LET k1 == Ks[1]
        k2 == Ks[Len(Ks)]
        E(i) == R[i].C
    IN CASE c.kind = "pin" ->
              LET d == VSub(LocalToWorld(k1, <<Par.lx, Par.ly>>), <<Par.wx, Par.wy>>)
                  v == PointVelocity(k1, <<Par.lx, Par.ly>>)
              IN /\ Within(RAdd(RSq(E(1)), RSq(E(2))), VDot(d, d), e)
                 /\ Within(Rate(1), v[1], e) /\ Within(Rate(2), v[2], e)
         [] c.kind = "rot" -> Within(E(1), RSub(k1.th, Par.th), e) /\ Within(Rate(1), k1.om, e)
         [] c.kind = "line" ->
              LET d == <<Par.dx, Par.dy>>
                  p == VSub(LocalToWorld(k1, <<Par.lx, Par.ly>>), <<Par.x0, Par.y0>>)
                  along == RDiv(VDot(p, d), VDot(d, d))
                  off == VSub(p, VScale(along, d))          \* from the nearest point of the line
              IN /\ Within(RSq(E(1)), RMul(VDot(d, d), VDot(off, off)), RParse("1e-28"))
                 /\ Within(Rate(1), VDot(PointVelocity(k1, <<Par.lx, Par.ly>>), <<RNeg(Par.dy), Par.dx>>), e)
         [] c.kind = "link" ->
              LET d == VSub(LocalToWorld(k1, <<Par.x1, Par.y1>>), LocalToWorld(k2, <<Par.x2, Par.y2>>))
                  v == VSub(PointVelocity(k1, <<Par.x1, Par.y1>>), PointVelocity(k2, <<Par.x2, Par.y2>>))
              IN /\ Within(RAdd(RSq(E(1)), RSq(E(2))), VDot(d, d), RParse("1e-28"))
                 /\ Within(Rate(1), v[1], e) /\ Within(Rate(2), v[2], e)
         [] c.kind = "roll" ->
              LET d == <<Par.dx, Par.dy>>
                  n == VPerp(d)
                  \* the wheel's centre as the base sees it, from the track's origin
                  at == VSub(WorldToLocal(k1, Centre(k2)), <<Par.lx, Par.ly>>)
                  \* material points of wheel and base where the wheel touches the track
                  touch == VSub(Centre(k2), VScale(Par.r, Turn(k1.th, n)))
                  slip == VSub(PointVelocity(k2, WorldToLocal(k2, touch)), PointVelocity(k1, WorldToLocal(k1, touch)))
              IN /\ Within(E(1), RNeg(RAdd(VDot(at, d), RMul(Par.r, RSub(k2.th, k1.th)))), e)
                 /\ Within(E(2), RSub(Par.r, VDot(at, n)), e)
                 \* the unit direction turns the two errors' rates into the velocity of slipping and of lifting off
                 /\ Within(Rate(1), RNeg(VDot(slip, Turn(k1.th, d))), RParse("1e-27"))
                 /\ Within(Rate(2), RNeg(VDot(slip, Turn(k1.th, n))), RParse("1e-27"))
         [] c.kind = "clutch" -> RIsZero(E(1)) /\ Rate(1) = RSub(k2.om, k1.om)
         [] c.kind = "gear" -> RIsZero(E(1)) /\ Rate(1) = RSub(k1.om, RMul(Par.ratio, k2.om))
         [] c.kind \in {"fric", "crot"} -> RIsZero(E(1)) /\ Rate(1) = k1.om

\* forces along a row of a joint between two bodies: opposite, and without a moment where the points coincide
Opposite ==
    c.kind \in {"link", "roll"} =>
        \A i \in DOMAIN R :
            LET J == R[i].J
                arm == IF c.kind = "link"
                       THEN VSub(LocalToWorld(Ks[1], <<Par.x1, Par.y1>>), LocalToWorld(Ks[2], <<Par.x2, Par.y2>>))
                       ELSE VZero
                total == RAdd(RAdd(VCross(Centre(Ks[1]), <<J[1], J[2]>>), J[3]), RAdd(VCross(Centre(Ks[2]), <<J[4], J[5]>>), J[6]))
            IN /\ J[1] = RNeg(J[4]) /\ J[2] = RNeg(J[5])
               /\ Within(total, VCross(arm, <<J[1], J[2]>>), RParse("1e-27"))
Sane == \A i \in DOMAIN R : RLe(R[i].lo, R[i].hi)
Emit == Emitting =>
    Case("row " \o c.kind \o Words(c.p) \o Words(c.k[1]) \o (IF Len(c.k) = 2 THEN Words(c.k[2]) ELSE ""))
=============================================================================
