------------------------------ MODULE ParkerMC ------------------------------
(* A parcel carried outwards from the surface: the specified wind accelerates through *)
(* the sonic point, exactly once, and its density only falls.                          *)
EXTENDS Parker
VARIABLES at, sp, rho
pvars == <<at, sp, rho>>
Radii == <<FRat(1, 10), FRat(1, 7), FRat(1, 4), FRat(1, 2), FRat(7, 10), FRat(9, 10), FRat(99, 100), FOne, FRat(101, 100), FRat(11, 10),
           FRat(3, 2), FInt(2), FInt(5), FInt(20), FInt(100)>>
Start == 1..5
Init == \E k \in Start : at = k /\ sp = SpeedAt(Radii[k]) /\ rho = FOne
Next == \E k \in (at + 1)..Len(Radii) :
          /\ at' = k
          /\ sp' = SpeedAt(Radii[k])
          /\ rho' = FMul(rho, FDiv(FMul(sp, FSq(FDiv(Radii[at], Radii[k]))), sp'))
Spec == Init /\ [][Next]_pvars
Sc(x) == <<x, 0>>
Curve == OnCurve(Sc(sp), Sc(Radii[at]), FTiny(1, 11))
Branch == Transonic(Sc(sp), Sc(Radii[at]))
Faster == [][FLt(sp, sp')]_pvars
Thinner == [][FLt(rho', rho)]_pvars
=============================================================================
