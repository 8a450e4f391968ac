------------------------------- MODULE Joints -------------------------------
(***************************************************************************)
(* The nine joint kinds.                                                   *)
(*                                                                         *)
(* A joint is a record [kind, b, p]: b is the sequence of one or two body  *)
(* names, p the parameters.  `Error' states the geometric relation a       *)
(* position joint stands for, once, over hyper-dual coordinates; `Ideal'   *)
(* derives from it, by differentiation, the rows the joint contributes.    *)
(* `Rows' gives the same rows in closed form (used where many rows have to *)
(* be evaluated); the model MCJoints checks Rows = Ideal.                  *)
(*                                                                         *)
(* A row is [C, J, Jd, vb, lo, hi, ks, kd]: error, its derivative in the   *)
(* coordinates (x, y, th of the first body, then of the second), the time  *)
(* derivative of that, speed bias, limits of the reaction, stiffness and   *)
(* damping.                                                                *)
(***************************************************************************)
EXTENDS HyperDual, Frames, TLC

JointKinds == {"pin", "rot", "line", "link", "roll", "clutch", "gear", "fric", "crot"}
BodyCount(kind) == IF kind \in {"link", "roll", "clutch", "gear"} THEN 2 ELSE 1
RowCount(kind) == IF kind \in {"pin", "link", "roll"} THEN 2 ELSE 1
PositionJoint(kind) == kind \in {"pin", "rot", "line", "link", "roll"}

NoLimit == RParse("0x1.fffffffffffffp+1023")

-----------------------------------------------------------------------------
(* Geometry over hyper-dual coordinates q (three per body).                *)
LOCAL HPoint(q, o, lx, ly) ==
    LET c == HCos(q[o + 3])
        s == HSin(q[o + 3])
    IN <<HAdd(q[o + 1], HSub(HScale(lx, c), HScale(ly, s))),
         HAdd(q[o + 2], HAdd(HScale(lx, s), HScale(ly, c)))>>
LOCAL HTurn(th, lx, ly) ==
    LET c == HCos(th)
        s == HSin(th)
    IN <<HSub(HScale(lx, c), HScale(ly, s)), HAdd(HScale(lx, s), HScale(ly, c))>>
LOCAL HSub2(u, v) == <<HSub(u[1], v[1]), HSub(u[2], v[2])>>
LOCAL HDot(u, v) == HAdd(HMul(u[1], v[1]), HMul(u[2], v[2]))

Error(kind, p, q) ==
    CASE kind = "pin" ->        \* the pinned point sits at its world target
           LET w == HPoint(q, 0, p.lx, p.ly)
           IN <<HSub(w[1], HConst(p.wx)), HSub(w[2], HConst(p.wy))>>
      [] kind = "rot" ->        \* the body has the prescribed angle
           <<HSub(q[3], HConst(p.th))>>
      [] kind = "line" ->       \* the point lies on the line through (x0, y0) along (dx, dy)
           LET w == HPoint(q, 0, p.lx, p.ly)
               d == HSub2(w, <<HConst(p.x0), HConst(p.y0)>>)
           IN <<HSub(HScale(p.dx, d[2]), HScale(p.dy, d[1]))>>
      [] kind = "link" ->       \* the two points coincide
           HSub2(HPoint(q, 0, p.x1, p.y1), HPoint(q, 3, p.x2, p.y2))
      [] kind = "roll" ->       \* wheel (second body) on a track fixed to the first body
           LET d == HTurn(q[3], p.dx, p.dy)
               n == <<HNeg(d[2]), d[1]>>
               del == HSub2(<<q[4], q[5]>>, HPoint(q, 0, p.lx, p.ly))
               travelled == HDot(del, d)
               rolled == HScale(p.r, HSub(q[6], q[3]))       \* arc, relative to the track
           IN <<HNeg(HAdd(rolled, travelled)), HSub(HConst(p.r), HDot(del, n))>>
      [] OTHER -> <<HConst(RZero)>>

(* Coefficients of the relative speed a velocity joint restricts.          *)
SpeedRow(kind, p) ==
    CASE kind = "clutch" -> <<RZero, RZero, RInt(-1), RZero, RZero, ROne>>
      [] kind = "gear" -> <<RZero, RZero, ROne, RZero, RZero, RNeg(p.ratio)>>
      [] kind \in {"fric", "crot"} -> <<RZero, RZero, ROne>>

Bias(kind, p, i) == IF kind = "crot" THEN p.speed ELSE RZero
Limits(kind, p, i) ==
    CASE kind \in {"clutch", "fric", "crot"} -> <<p.lo, p.hi>>
      [] kind = "link" -> <<RNeg(p.maxF), p.maxF>>
      [] kind = "gear" /\ p.neutral -> <<RZero, RZero>>
      [] OTHER -> <<RNeg(NoLimit), NoLimit>>
\* the no-slip row of a rolling joint is not stabilised in the force-based system
Stiffness(kind, p, i) == IF kind = "roll" /\ i = 1 THEN RZero ELSE p.ks
Damping(kind, p, i) == IF kind = "roll" /\ i = 1 THEN RZero ELSE p.kd

Coords(ks) == IF Len(ks) = 1 THEN <<ks[1].x, ks[1].y, ks[1].th>>
              ELSE <<ks[1].x, ks[1].y, ks[1].th, ks[2].x, ks[2].y, ks[2].th>>
Rates(ks) == IF Len(ks) = 1 THEN <<ks[1].vx, ks[1].vy, ks[1].om>>
             ELSE <<ks[1].vx, ks[1].vy, ks[1].om, ks[2].vx, ks[2].vy, ks[2].om>>

Row(kind, p, i, C, J, Jd) ==
    [C |-> C, J |-> J, Jd |-> Jd, vb |-> Bias(kind, p, i),
     lo |-> Limits(kind, p, i)[1], hi |-> Limits(kind, p, i)[2],
     ks |-> Stiffness(kind, p, i), kd |-> Damping(kind, p, i)]

(* Rows by differentiation of Error: ks is the sequence of motion records. *)
Ideal(kind, p, ks) ==
    LET q == Coords(ks)
        v == Rates(ks)
        n == Len(q)
        zero == TLCEval([k \in 1..n |-> RZero])
        E == TLCEval([k \in 1..n |->
                Error(kind, p, TLCEval([j \in 1..n |-> HVar(q[j], IF j = k THEN ROne ELSE RZero, v[j])]))])
    IN IF PositionJoint(kind)
       THEN TLCEval([i \in 1..RowCount(kind) |->
              Row(kind, p, i, E[1][i][1],
                  TLCEval([k \in 1..n |-> E[k][i][2]]), TLCEval([k \in 1..n |-> E[k][i][4]]))])
       ELSE <<Row(kind, p, 1, RZero, SpeedRow(kind, p), zero)>>

-----------------------------------------------------------------------------
(* The same rows in closed form.                                           *)
LOCAL Z == RZero
Rows(kind, p, ks) ==
    LET k == ks[1] IN
    CASE kind = "pin" ->
           LET r == Turn(k.th, <<p.lx, p.ly>>)
           IN <<Row(kind, p, 1, RSub(RAdd(k.x, r[1]), p.wx), <<ROne, Z, RNeg(r[2])>>,
                    <<Z, Z, RNeg(RMul(k.om, r[1]))>>),
                Row(kind, p, 2, RSub(RAdd(k.y, r[2]), p.wy), <<Z, ROne, r[1]>>,
                    <<Z, Z, RNeg(RMul(k.om, r[2]))>>)>>
      [] kind = "rot" ->
           <<Row(kind, p, 1, RSub(k.th, p.th), <<Z, Z, ROne>>, <<Z, Z, Z>>)>>
      [] kind = "line" ->
           LET r == Turn(k.th, <<p.lx, p.ly>>)
               n == <<RNeg(p.dy), p.dx>>
           IN <<Row(kind, p, 1,
                    VDot(VSub(VAdd(Centre(k), r), <<p.x0, p.y0>>), n),
                    <<n[1], n[2], VDot(VPerp(r), n)>>,
                    <<Z, Z, RNeg(RMul(k.om, VDot(r, n)))>>)>>
      [] kind = "link" ->
           LET k2 == ks[2]
               r1 == Turn(k.th, <<p.x1, p.y1>>)
               r2 == Turn(k2.th, <<p.x2, p.y2>>)
               c == VSub(VAdd(Centre(k), r1), VAdd(Centre(k2), r2))
           IN <<Row(kind, p, 1, c[1], <<ROne, Z, RNeg(r1[2]), RInt(-1), Z, r2[2]>>,
                    <<Z, Z, RNeg(RMul(k.om, r1[1])), Z, Z, RMul(k2.om, r2[1])>>),
                Row(kind, p, 2, c[2], <<Z, ROne, r1[1], Z, RInt(-1), RNeg(r2[1])>>,
                    <<Z, Z, RNeg(RMul(k.om, r1[2])), Z, Z, RMul(k2.om, r2[2])>>)>>
      [] kind = "roll" ->
           LET k2 == ks[2]
               r == Turn(k.th, <<p.lx, p.ly>>)
               d == Turn(k.th, <<p.dx, p.dy>>)
               n == VPerp(d)
               del == VSub(Centre(k2), VAdd(Centre(k), r))
               ddel == VSub(VSub(<<k2.vx, k2.vy>>, <<k.vx, k.vy>>), VScale(k.om, VPerp(r)))
               s == VDot(del, d)
               h == VDot(del, n)
               s3 == RSub(h, VDot(VPerp(r), d))              \* ds / dth1
               h3 == RNeg(RAdd(s, VDot(VPerp(r), n)))        \* dh / dth1
               s3d == RSub(VDot(ddel, n), RMul(k.om, s))
               h3d == RNeg(RAdd(VDot(ddel, d), RMul(k.om, h)))
               dd == VScale(k.om, n)
               nd == VScale(RNeg(k.om), d)
           IN <<Row(kind, p, 1, RNeg(RAdd(RMul(p.r, RSub(k2.th, k.th)), s)),
                    <<d[1], d[2], RSub(p.r, s3), RNeg(d[1]), RNeg(d[2]), RNeg(p.r)>>,
                    <<dd[1], dd[2], RNeg(s3d), RNeg(dd[1]), RNeg(dd[2]), Z>>),
                Row(kind, p, 2, RSub(p.r, h),
                    <<n[1], n[2], RNeg(h3), RNeg(n[1]), RNeg(n[2]), Z>>,
                    <<nd[1], nd[2], RNeg(h3d), RNeg(nd[1]), RNeg(nd[2]), Z>>)>>
      [] OTHER ->
           <<Row(kind, p, 1, RZero, SpeedRow(kind, p),
                 IF BodyCount(kind) = 2 THEN <<Z, Z, Z, Z, Z, Z>> ELSE <<Z, Z, Z>>)>>
=============================================================================
