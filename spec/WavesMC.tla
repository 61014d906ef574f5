-------------------------------- MODULE WavesMC --------------------------------
(* On a grid of amplitudes and phases (multiples of pi/12): the sum is a wave and its amplitude is Amp. *)
EXTENDS Waves, TLC
VARIABLES w
Ang(k) == FDivInt(FMulInt(FPi, k), 12)
Init == w \in [kind : {"cos", "sin"}, r : {-1, 0, 2}, s : {0, 1, 3}, a : {-7, 0, 4, 29}, b : {-12, 1, 6}, x : {0, 5}]
Next == UNCHANGED w
Spec == Init /\ [][Next]_w
At(x) == Sum(w.kind, FInt(w.r), Ang(w.a), FInt(w.s), Ang(w.b), x)
(* f'' = -f in the form f(x + h) + f(x - h) = 2 cos(h) f(x) *)
IsWave == LET x == Ang(w.x) h == Ang(5)
          IN FNear(FAdd(At(FAdd(x, h)), At(FSub(x, h))), FMulInt(FMul(Cos(h), At(x)), 2), FTiny(1, 18))
Amplitude == LET x == Ang(w.x)
             IN FNear(FAdd(FSq(At(x)), FSq(At(FAdd(x, Quarter)))), Amp2(w.kind, FInt(w.r), Ang(w.a), FInt(w.s), Ang(w.b)), FTiny(1, 18))
=============================================================================
