-------------------------------- MODULE MCLoads --------------------------------
(***************************************************************************)
(* The four loads: opposite on the two bodies, springs as the gradient of  *)
(* their energy, motors within their torque, ground without a speed.       *)
(***************************************************************************)
EXTENDS Lattice, Params, Loads

CONSTANTS Emitting
VARIABLE c
M1 == {<<"0", "0", "0", "0", "0", "0">>, <<"1", "-2", "1.5707963267948966", "0.5", "0", "-1">>, <<"-0.5", "0.25", "-2.5", "0", "-1", "2">>}
M2 == M1 \cup {<<"0.006", "0", "0", "0", "0", "0.5">>, <<"0", "0.02", "0", "3", "0", "0">>}
Acc == {<<"0", "0", "0", "0", "0", "0">>, <<"1", "0", "-2", "0", "3", "0.5">>}
Params(kind) ==
    CASE kind = "gravity" -> {<<"9.81">>, <<"-3">>, <<"0">>}
      [] kind = "static" -> {<<"0", "0", "1", "1">>, <<"3", "-4", "0", "0">>, <<"0", "-2", "0.5", "-1.5">>}
      [] kind = "spring" -> {<<"0", "0", "0", "0", "0", "10", "0">>, <<"0", "0", "0", "0", "1", "10", "2">>, <<"1", "0.5", "-0.25", "0", "2", "7", "0">>,
                             <<"0", "0", "1", "0", "0.5", "0", "1">>}
      [] kind = "motor" -> {<<"10", "0", "1e9", "1">>, <<"10", "0.25", "2", "-3">>, <<"1", "0", "0", "5">>, <<"0", "0.5", "20", "0">>}
Ends(kind) == CASE kind = "gravity" -> {<<>>} [] kind = "static" -> {<<"a">>, <<"b">>} [] OTHER -> {<<"a", "b">>, <<"b", "a">>, <<"a", "a">>}
Init == \E kind \in GenKinds : \E p \in Params(kind), b \in Ends(kind), k1 \in M1, k2 \in M2, acc \in Acc, in \in {{"a", "b"}, {"a"}, {"b"}} :
            /\ kind = "static" => b[1] \in in
            /\ kind \in {"gravity", "static", "spring"} => acc = <<"1", "0", "-2", "0", "3", "0.5">>
            /\ kind = "gravity" => k1 = <<"0", "0", "0", "0", "0", "0">>
            /\ c = [kind |-> kind, p |-> p, b |-> b, k |-> <<k1, k2>>, acc |-> acc, in |-> in]
Next == UNCHANGED c

G == [kind |-> c.kind, b |-> c.b, p |-> LoadParams(c.kind, Values(c.p))]
K == [n \in {"a", "b"} |-> MotionOf(Values(c.k[IF n = "a" THEN 1 ELSE 2]))]
A == [n \in c.in |-> LET v == Values(c.acc) IN IF n = "a" THEN SubSeq(v, 1, 3) ELSE SubSeq(v, 4, 6)]
Mass == [n \in {"a", "b"} |-> <<RParse(IF n = "a" THEN "2" ELSE "0.5"), RParse("1.5")>>]
L == Loads(<<G>>, K, A, Mass, c.in)
e == RParse("1e-30")
Both == c.in = {"a", "b"}
Pair == c.kind \in {"spring", "motor"}
Length == VNorm(VSub(LocalToWorld(K[G.b[2]], <<G.p.x2, G.p.y2>>), LocalToWorld(K[G.b[1]], <<G.p.x1, G.p.y1>>)))

Opposite == Both /\ Pair => /\ Within(L["a"][1], RNeg(L["b"][1]), e) /\ Within(L["a"][2], RNeg(L["b"][2]), e)
Moments ==      \* about the origin; a damped spring also resists sliding, which has a moment
    Both /\ Pair /\ (c.kind = "spring" => RIsZero(G.p.kd)) =>
        LET about(n) == RAdd(VCross(Centre(K[n]), <<L[n][1], L[n][2]>>), L[n][3])
        IN Within(RAdd(about("a"), about("b")), RZero, RParse("1e-27"))
Gradient ==     \* an undamped spring pulls down its energy
    c.kind = "spring" /\ RIsZero(G.p.kd) =>
        IF RLt(Length, CoincidenceLength) THEN \A n \in c.in : L[n] = NoLoad
        ELSE RLt(RParse("0.1"), Length) =>
             LET h == RParse("1e-10")
                 Shift(n, f, d) == [K EXCEPT ![n] = [@ EXCEPT ![f] = RAdd(@, d)]]
                 D(n, f) == RDiv(RSub(SpringEnergy(G, Shift(n, f, h)), SpringEnergy(G, Shift(n, f, RNeg(h)))), RMul(RTwo, h))
             IN \A n \in c.in : /\ Within(L[n][1], RNeg(D(n, "x")), RParse("1e-14"))
                                /\ Within(L[n][2], RNeg(D(n, "y")), RParse("1e-14"))
                                /\ Within(L[n][3], RNeg(D(n, "th")), RParse("1e-14"))
Still == [k \in {"a", "b"} |-> IF k \in c.in THEN K[k] ELSE [K[k] EXCEPT !.vx = RInt(5), !.vy = RInt(-7), !.om = RInt(9)]]
Ground ==       \* what is outside the system has a place but no speed
    /\ L = Loads(<<G>>, Still, A, Mass, c.in)
    /\ c.kind \in {"gravity", "motor"} =>
          L = Loads(<<G>>, [n \in {"a", "b"} |-> [K[n] EXCEPT !.x = RInt(3), !.th = RInt(2)]], A, Mass, c.in)
Dissipates ==   \* a damper between two bodies takes energy out of them
    c.kind = "spring" /\ Both =>
        LET damp == Loads(<<[G EXCEPT !.p.ks = RZero]>>, K, A, Mass, c.in)
            power(n) == RAdd(VDot(<<damp[n][1], damp[n][2]>>, <<K[n].vx, K[n].vy>>), RMul(damp[n][3], K[n].om))
        IN RLe(RAdd(power("a"), power("b")), e)
Torque ==       \* within its limit, and towards its speed as far as damping and limit let it
    c.kind = "motor" =>
        LET t == MotorTorque(G, K, A, c.in)
            w(s) == IF G.b[s] \in c.in THEN K[G.b[s]].om ELSE RZero
            lack == RSub(G.p.speed, RSub(w(2), w(1)))
        IN /\ RLe(RAbs(t), G.p.max)
           /\ RIsZero(G.p.kd) =>
                /\ RLe(RZero, RMul(t, lack))
                /\ RLt(RMul(G.p.ks, RAbs(lack)), G.p.max) => t = RMul(G.p.ks, lack)
           /\ G.b[1] = G.b[2] /\ G.b[1] \in c.in => L[G.b[1]] = NoLoad
           /\ \A n \in c.in : RIsZero(L[n][1]) /\ RIsZero(L[n][2])
Weight == c.kind = "gravity" => \A n \in c.in : L[n] = <<RZero, RNeg(RMul(Mass[n][1], G.p.g)), RZero>>
Fixed ==
    c.kind = "static" =>
        /\ <<L[G.b[1]][1], L[G.b[1]][2]>> = <<G.p.fx, G.p.fy>>
        /\ \A n \in c.in \ {G.b[1]} : L[n] = NoLoad
        \* the moment turns the force's work into that of the point it acts at
        /\ LET k == K[G.b[1]]
               u == <<G.p.px, G.p.py>>
           IN Within(VDot(<<G.p.fx, G.p.fy>>, PointVelocity(k, u)),
                     RAdd(VDot(<<G.p.fx, G.p.fy>>, <<k.vx, k.vy>>), RMul(L[G.b[1]][3], k.om)), e)
Adds == LET H == [kind |-> "gravity", b |-> <<>>, p |-> [g |-> RInt(2)]]
        IN \A n \in c.in : Loads(<<G, H, G>>, K, A, Mass, c.in)[n] = LAdd(L[n], LAdd(Loads(<<H>>, K, A, Mass, c.in)[n], L[n]))
In == IF Both THEN "ab" ELSE CHOOSE n \in c.in : TRUE
Emit == Emitting =>
    Case("load " \o c.kind \o " " \o In \o " " \o (IF c.b = <<>> THEN "-" ELSE c.b[1]) \o " " \o (IF Len(c.b) = 2 THEN c.b[2] ELSE "-")
         \o Words(c.p) \o Words(c.k[1]) \o Words(c.k[2]) \o Words(c.acc))
=============================================================================
