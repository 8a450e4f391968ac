-------------------------------- MODULE Params --------------------------------
(***************************************************************************)
(* Records of the specification from the texts of a case.                  *)
(***************************************************************************)
EXTENDS FixReal, Sequences

JointParams(kind, v) ==
    CASE kind = "pin" -> [lx |-> v[1], ly |-> v[2], wx |-> v[3], wy |-> v[4], ks |-> v[5], kd |-> v[6]]
      [] kind = "rot" -> [th |-> v[1], ks |-> v[2], kd |-> v[3]]
      [] kind = "line" -> [lx |-> v[1], ly |-> v[2], x0 |-> v[3], y0 |-> v[4], dx |-> v[5], dy |-> v[6], ks |-> v[7], kd |-> v[8]]
      [] kind = "link" -> [x1 |-> v[1], y1 |-> v[2], x2 |-> v[3], y2 |-> v[4], maxF |-> v[5], ks |-> v[6], kd |-> v[7]]
      [] kind = "roll" -> [lx |-> v[1], ly |-> v[2], dx |-> v[3], dy |-> v[4], r |-> v[5], ks |-> v[6], kd |-> v[7]]
      [] kind = "gear" -> [ratio |-> v[1], neutral |-> ~RIsZero(v[2]), ks |-> v[3], kd |-> v[4]]
      [] kind \in {"clutch", "fric"} -> [lo |-> v[1], hi |-> v[2], ks |-> v[3], kd |-> v[4]]
      [] kind = "crot" -> [speed |-> v[1], lo |-> v[2], hi |-> v[3], ks |-> v[4], kd |-> v[5]]
LoadParams(kind, v) ==
    CASE kind = "gravity" -> [g |-> v[1]]
      [] kind = "static" -> [fx |-> v[1], fy |-> v[2], px |-> v[3], py |-> v[4]]
      [] kind = "spring" -> [x1 |-> v[1], y1 |-> v[2], x2 |-> v[3], y2 |-> v[4], rest |-> v[5], ks |-> v[6], kd |-> v[7]]
      [] kind = "motor" -> [ks |-> v[1], kd |-> v[2], max |-> v[3], speed |-> v[4]]
MotionOf(v) == [x |-> v[1], y |-> v[2], th |-> v[3], vx |-> v[4], vy |-> v[5], om |-> v[6]]
=============================================================================
