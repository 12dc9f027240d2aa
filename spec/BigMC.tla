------------------------------- MODULE BigMC --------------------------------
(* The laws of Big.tla on boundary values.                                   *)
EXTENDS Big
V == {I(0), I(1), I(-1), I(9999), I(10000), I(-10000), I(10001), I(99999999), I(2147483647), I(-2147483647),
      P2[31], P2[32], P2[63], Neg(P2[63]), Sub(P2[64], I(1)), P10[20], Sub(P10[18], I(7)), Neg(Add(P2[62], I(3)))}
VARIABLE x
Init == x \in V
Next == FALSE /\ UNCHANGED x
Laws ==
    /\ Of(Dec(x)) = x
    /\ \A y \in V :
       /\ Sub(Add(x, y), y) = x
       /\ Add(x, y) = Add(y, x) /\ Mul(x, y) = Mul(y, x)
       /\ Cmp(x, y) = -Cmp(y, x)
       /\ (Cmp(x, y) = 0) = (x = y)
       /\ y # Int0 =>
          LET d == QuoRem(x, y) IN Add(Mul(d.q, y), d.r) = x /\ MCmp(d.r.m, y.m) < 0 /\ (d.r = Int0 \/ d.r.n = x.n)
       /\ \A z \in {I(3), I(-70000), P2[33]} : Mul(x, Add(y, z)) = Add(Mul(x, y), Mul(x, z))
       /\ Cmp(x, y) = (LET d == Sub(x, y) IN IF d = Int0 THEN 0 ELSE IF d.n THEN -1 ELSE 1)
    /\ Fits(Wrap(x, 64), 64) /\ Fits(Wrap(x, 32), 32) /\ Wrap(Wrap(x, 64), 32) = Wrap(x, 32)
    /\ Mod(Sub(Wrap(x, 32), x), P2[32]) = Int0
=============================================================================
